"""Contracts for decoding memory positions (C08): any rank, any shape, non-zero strides."""
from .base import *  # noqa
from .dioph import System, combined, scaled, mark

STAND_IN = ('bounded stand-in: solve_index finds the element index whenever one exists, for slices of row-major arrays of rank 2 '
            'and more (its elimination table is not specified; checked on CPython: exhaustively for small shapes and slices, '
            'sampled beyond)')


@contract('C08')
class Axpy(Contract):
    """a * x + y item by item, and what that means for weighted sums"""
    target = 'gcs.slice_tools.axpy'
    use = True

    def build(self, E):
        n = self.n = E.fresh('n')
        E.assume(n >= 0)
        self.t, self.x, self.y = E.fresh('t'), E.fresh_fn('x', Int, Int), E.fresh_fn('y', Int, Int)
        return [self.t, fn_seq(n, self.x), fn_seq(n, self.y)]

    def post(self, E, args, r):
        n = self.n
        r = E.seq_of(r)
        yield 'a tuple of the same length', And(r.kind == 'tuple', Iv(r.n) == n)
        yield 'items', Q(['i'], lambda i: z3.Implies(z3.And(0 <= i, i < n), Iv(E.num(r.get(i))) == self.t * self.x(i) + self.y(i)))
        S = System(E, n, E.fresh_fn('weight', Int, Int))
        az, ax, ay = combined(E, 'linearity', S, self.x, self.y, self.t)
        same_sum(E, 'weighted sum', lambda i: Iv(S.a(i)) * Iv(E.num(r.get(i))), 0, n,
                 lambda i: Iv(S.a(i)) * (self.t * self.x(Iv(i)) + self.y(Iv(i))), 0)
        rz = sum_range(lambda i: Iv(S.a(i)) * Iv(E.num(r.get(i))), 0, n)
        yield 'weighted sums are linear', rz == self.t * ax + ay

    def applies(self, E, vals, kw):
        return 'weights' in E.st.notes and all(E.as_plain_seq(v) is not None for v in vals[1:])

    def apply(self, E, vals, kw):
        t, x, y = Iv(E.num(vals[0])), E.seq_of(vals[1]), E.seq_of(vals[2])
        n, a = E.st.notes['weights']
        E.prove(z3.And(Iv(x.n) == n, Iv(y.n) == n), 'axpy of sequences of the same length')
        r = E.fresh_fn('axpy', Int, Int)
        i = z3.Int('i!ap')
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), r(i) == t * Iv(E.num(x.get(i))) + Iv(E.num(y.get(i)))),
                           patterns=[r(i)]))
        w = lambda f: sum_range(lambda i: a(Iv(i)) * Iv(E.num(f(Iv(i)))), 0, n)
        E.assume(w(r) == t * w(x.get) + w(y.get))
        return fn_seq(n, lambda i: r(Iv(i)))


def box_pairs(E, seq):
    """itertools.product of a symbolic number of sequences of the same concrete length: tuples of items"""
    s0 = E.as_plain_seq(E.rv(seq.get(z3.IntVal(0))))
    if not isinstance(s0, CSeq) or not s0.items:
        raise Unsupported('itertools.product of a symbolic number of sequences')
    N, d = E.fresh('tuples'), E.fresh_fn('digit', Int, Int, Int)
    k, i = z3.Ints('k!bp i!bp')
    E.assume(N >= 0)
    E.assume(z3.ForAll([k, i], z3.And(0 <= d(k, i), d(k, i) < len(s0.items)), patterns=[d(k, i)]))
    return SSeq(N, lambda k: fn_seq(seq.n, lambda i: E.as_plain_seq(E.rv(seq.get(Iv(i)))).get(d(k, i))), 0, 'gen')


class _Solve(Contract):
    requires = ('gcs.slice_tools.axpy', 'gcs.slice_tools.init_diophantine', 'gcs.slice_tools._init_diophantine',
                'gcs.slice_tools.extgcd')
    kinds = ('data computed', 'data given')

    def cases(self, E):
        return [(l, lambda l=l: self.build(E, l)) for l in self.kinds]

    def setting(self, E, kind):
        n = self.n = E.fresh('rank')
        a, size = self.a, self.size = E.fresh_fn('stride', Int, Int), E.fresh_fn('size', Int, Int)
        i, j = z3.Ints('i!so j!so')
        E.assume(n >= 0)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), size(i) >= 0), patterns=[size(i)]))
        # strides are non-zero unless the array is empty
        w = self.w = E.fresh('empty')
        E.assume(z3.Or(z3.And(0 <= w, w < n, size(w) == 0), w == -1))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(w == -1, 0 <= i, i < n), z3.And(a(i) != 0, size(i) >= 1)), patterns=[a(i)]))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(w == -1, 0 <= i, i < n), z3.And(a(i) != 0, size(i) >= 1)), patterns=[size(i)]))
        self.pos = E.fresh('pos')
        E.st.notes['weights'] = (n, a)
        E.ext_hooks['box_sym'] = box_pairs
        self.shape, self.strides = fn_seq(n, size), fn_seq(n, a)
        self.kind = kind

    def weigh(self, f):
        return sum_range(lambda i: self.a(Iv(i)) * Iv(f(Iv(i))), 0, self.n)

    def hints(self, E, args):
        return [self.index_hints]

    def index_hints(self, E, order, entry, k, N):
        """the weighted sum of the index does not change in the loop"""
        out = []
        for L in order:
            if isinstance(L.init, Seq) and L.mode == 'func' and L.esort is Int:
                w0 = self.weigh(lambda i: E.num(L.init.get(i)))

                def inv(v, t, L=L):
                    s = v[L.key]
                    return z3.And(Iv(s.n) == self.n, self.weigh(lambda i: E.num(s.get(i))) == w0)
                out.append(inv)
        return out

    def post(self, E, args, r):
        n, a, size, pos = self.n, self.a, self.size, self.pos
        if r is not None:
            r = E.seq_of(r)
            yield 'one item per axis', Iv(r.n) == n
            yield 'inside the shape', Q(['i'], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(
                0 <= Iv(E.num(r.get(i))), Iv(E.num(r.get(i))) < size(i))))
            yield 'its weighted sum is the position', self.weigh(lambda i: E.num(r.get(i))) == pos
            return
        # no index is reported: rank 0, rank 1, empty arrays, and positions that are no multiple of the common divisor
        x = E.fresh_fn('x', Int, Int)
        i = z3.Int('i!x')
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= x(i), x(i) < size(i))), patterns=[x(i)]))
        S = E.st.notes.get('system')
        yield 'none is missed', lambda: self.missed(E, S, x)

    def missed(self, E, S, x):
        n, a, size, pos = self.n, self.a, self.size, self.pos
        ax = self.weigh(x)
        if S is None:
            if E.branch(n == 0):
                return ax != pos
            if E.branch(E.contains(self.shape, z3.IntVal(0))):
                # x would be inside an array without elements
                E.prove(self.w != -1, 'an axis is empty')
                E.assume(T.inst_quant(E.st.pc, [self.w]))
                return False
            E.prove(n == 1, 'one axis')
            E.prove(ax == a(0) * x(0), 'weighted sum of one item', hints=mark(sum_range(lambda i: a(Iv(i)) * x(Iv(i)), 0, 1)))
            k = Iv(pydiv(pos, a(0)))
            E.prove(z3.Implies(pos == a(0) * x(0), z3.And(k == x(0), Iv(pymod(pos, a(0))) == 0)), 'quotient',
                    hints=[div_unique(pos, a(0), x(0), 0)], rounds=1)
            E.assume(T.inst_quant(E.st.pc, [z3.IntVal(0)]))
            return ax != pos
        if E.entails(Iv(pymod(pos, S.d)) != 0):
            sx, qx = scaled(E, 'multiples of the divisor', S, x, S.d, S.quot)
            h = [div_unique(sx, S.d, qx, 0)]
            E.prove(Iv(pymod(sx, S.d)) == 0, 'any weighted sum is a multiple of the divisor', hints=h, rounds=1)
            same_sum(E, 'weighted sum', lambda i: a(Iv(i)) * x(Iv(i)), 0, n, lambda i: Iv(S.a(i)) * x(Iv(i)), 0)
            return ax != pos
        E.assumptions.add(STAND_IN)
        return True


@contract('C08')
class SolveIndex(_Solve):
    """an index that is reported is the right one; absence is right for rank 0, rank 1, empty arrays and positions that are no
    multiple of the common divisor of the strides"""
    target = 'gcs.slice_tools.solve_index'

    def build(self, E, kind):
        self.setting(E, kind)
        return [self.pos, self.shape, self.strides]

    def call(self, E, args):
        if self.kind == 'data given':
            args = args + [E.contracts['gcs.slice_tools.init_diophantine'].apply(E, [self.strides, self.shape], {})]
        return E.run_body(E.func(self.target), args, {})
