"""Contracts for looking up sparse elements (C06)."""
from .base import *  # noqa


class Data(Abs):
    """Read-only index data: item p (0 <= p < n) is fn(p).  Reading anything else is an error."""
    pytype = 'tuple'

    def __init__(self, n, fn, what):
        self.n, self.fn, self.what = n, fn, what

    def len(self, E):
        return self.n

    def iter(self, E):
        return SSeq(self.n, self.fn, 0, 'gen')

    def getitem(self, E, i):
        i = E.num(E.rv(i))
        E.safety(And(0 <= Iv(i), Iv(i) < Iv(self.n)), f'{self.what} is read inside its bounds')
        return self.fn(Iv(i))

    def getattr(self, E, name):
        if name == 'shape':
            return CSeq([self.n])
        if name == 'size':
            return self.n
        raise PyExc('AttributeError', name, E.curline)


class Data2(Abs):
    """Two-dimensional index data of shape (dims, n): item [j, p] is fn(j, p)."""
    pytype = 'array'

    def __init__(self, dims, n, fn):
        self.dims, self.n, self.fn = dims, n, fn

    def len(self, E):
        return self.dims

    def getattr(self, E, name):
        if name == 'shape':
            return CSeq([self.dims, self.n])
        raise PyExc('AttributeError', name, E.curline)

    def getitem(self, E, i):
        s = E.as_plain_seq(E.rv(i))
        if s is None or simp(s.n) != 2:
            raise Unsupported('row access of index data')
        j, p = E.num(s.get(0)), E.num(s.get(1))
        E.safety(And(0 <= Iv(j), Iv(j) < Iv(self.dims), 0 <= Iv(p), Iv(p) < Iv(self.n)),
                 'index data is read inside its bounds')
        return self.fn(Iv(j), Iv(p))


class Bisect(Contract):
    """Invariants of a binary search, for whatever variables the code keeps."""

    def hints(self, E, args):
        return [self.search_hints]

    def search_hints(self, E, order, entry, k, N):
        out = []
        lo, hi = self.window
        for L in order:
            if L.mode != 'int':
                continue
            out.append(lambda v, t, L=L: Q(['p'], lambda p: z3.Implies(z3.And(lo <= p, p < Iv(v[L.key])), self.less(p)), self.pats))
            out.append(lambda v, t, L=L: Q(['p'], lambda p: z3.Implies(z3.And(lo <= p, p <= Iv(v[L.key])), self.less(p)), self.pats))
            out.append(lambda v, t, L=L: Q(['p'], lambda p: z3.Implies(z3.And(Iv(v[L.key]) < p, p < hi), self.greater(p)), self.pats))
            out.append(lambda v, t, L=L: Q(['p'], lambda p: z3.Implies(z3.And(Iv(v[L.key]) <= p, p < hi), self.greater(p)), self.pats))
            out.append(lambda v, t, L=L: Iv(v[L.key]) >= lo)
            out.append(lambda v, t, L=L: Iv(v[L.key]) <= hi)
        return out

    def pats(self, p):
        return [self.key(p)]

    def post(self, E, args, r):
        lo, hi = self.window
        if r is None:
            yield 'absence is reported only when the index is not stored', Q(
                ['p'], lambda p: z3.Implies(z3.And(lo <= p, p < hi), z3.Not(self.equal(p))))
            return
        r = Iv(E.num(r))
        yield 'the position is inside the index data', z3.And(lo <= r, r < hi)
        yield 'the position holds the index', self.equal(r)


@contract('C06')
class FlatPosition(Bisect):
    target = 'gcs.storage.get_flatcoo_position'

    def build(self, E):
        n, x = E.fresh('n'), E.fresh('findex')
        f = E.fresh_fn('findices', Int, Int)
        p, q = z3.Ints('p!s q!s')
        E.assume(n >= 0)
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), f(p) < f(q)), patterns=[T.mpat(f(p), f(q))]))
        self.window = (z3.IntVal(0), n)
        self.key = f
        self.less = lambda p: f(p) < x
        self.greater = lambda p: f(p) > x
        self.equal = lambda p: f(p) == x
        shape = CSeq([E.fresh('size')])
        return [x, shape, Data(n, f, 'findices')]


@contract('C06')
class CsrPosition(Bisect):
    target = 'gcs.storage.get_csr_position'

    def build(self, E):
        rows, cols, n = E.fresh('rows'), E.fresh('cols'), E.fresh('n')
        row, x = E.fresh('row'), E.fresh('col')
        crow = E.fresh_fn('crow', Int, Int)
        col = E.fresh_fn('cols', Int, Int)
        p, q = z3.Ints('p!s q!s')
        E.assume([rows >= 0, cols >= 0, n >= 0, 0 <= row, row < rows])
        E.assume([crow(z3.IntVal(0)) == 0, crow(rows) == n])
        E.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= rows), z3.And(0 <= crow(p), crow(p) <= n)), patterns=[crow(p)]))
        E.assume(crow(row) <= crow(row + 1))
        lo, hi = crow(row), crow(row + 1)
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(lo <= p, p < q, q < hi), col(p) < col(q)),
                           patterns=[T.mpat(col(p), col(q))]))
        self.window = (lo, hi)
        self.key = col
        self.less = lambda p: col(p) < x
        self.greater = lambda p: col(p) > x
        self.equal = lambda p: col(p) == x
        return [CSeq([row, x]), CSeq([rows, cols]), Data(rows + 1, crow, 'crow_indices'), Data(n, col, 'col_indices')]


@contract('C06')
class CooPosition(Bisect):
    target = 'gcs.storage.get_coo_position'

    def build(self, E):
        n, dims = E.fresh('n'), E.fresh('dims')
        ind = E.fresh_fn('indices', Int, Int, Int)
        x = E.fresh_fn('index', Int, Int)
        shp = E.fresh_fn('shape', Int, Int)
        m = E.fresh_fn('first_difference', Int, Int, Int)
        d = E.fresh_fn('diff', Int, Int)
        p, q, j = z3.Ints('p!s q!s j!s')
        E.assume([n >= 0, dims >= 1])
        # d(p): first axis on which column p differs from the index (definition)
        E.assume(z3.ForAll([p], z3.And(0 <= d(p), d(p) <= dims, z3.Implies(d(p) < dims, ind(d(p), p) != x(d(p)))), patterns=[d(p)]))
        E.assume(z3.ForAll([p, j], z3.Implies(z3.And(0 <= j, j < d(p)), ind(j, p) == x(j)), patterns=[ind(j, p)]))
        self.window = (z3.IntVal(0), n)
        self.key = d
        self.less = lambda p: z3.And(d(p) < dims, ind(d(p), p) < x(d(p)))
        self.greater = lambda p: z3.And(d(p) < dims, ind(d(p), p) > x(d(p)))
        self.equal = lambda p: d(p) == dims
        # transitivity
        a, b = E.fresh('p'), E.fresh('q')

        def lemma(a, b):
            return z3.Implies(z3.And(0 <= a, a < b, b < n),
                              z3.And(z3.Implies(z3.Or(self.less(b), self.equal(b)), self.less(a)),
                                     z3.Implies(z3.Or(self.greater(a), self.equal(a)), self.greater(b))))
        mark = z3.Function('mark', Int, Bool)
        hints = [mark(ind(t, c)) for t in (d(a), d(b), m(a, b)) for c in (a, b)]
        outer = E.st
        E.st = outer.copy()
        # sorted in lexicographic order, without duplicates
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), z3.And(
            0 <= m(p, q), m(p, q) < dims, ind(m(p, q), p) < ind(m(p, q), q))), patterns=[m(p, q)]))
        E.assume(z3.ForAll([p, q, j], z3.Implies(z3.And(0 <= p, p < q, q < n, 0 <= j, j < m(p, q)), ind(j, p) == ind(j, q)),
                           patterns=[T.mpat(m(p, q), ind(j, p)), T.mpat(m(p, q), ind(j, q))]))
        E.prove(lemma(a, b), 'lemma: columns before a smaller one are smaller', hints=hints)
        outer.ctr = E.st.ctr
        E.st = outer      # only the lemma is needed from here on
        E.assume(z3.ForAll([p, q], lemma(p, q), patterns=[T.mpat(d(p), d(q))]))
        return [SSeq(dims, x, 0, 'tuple'), SSeq(dims, shp, 0, 'tuple'), Data2(dims, n, ind)]
