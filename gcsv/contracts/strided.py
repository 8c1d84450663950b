"""Contracts for strided indexing (C02): any rank, any sizes and strides, any mix of index items."""
from .base import *  # noqa
from .slices import SliceSpec


def _folds_to(v, N, t):
    """the same value with the sums over [0, N) cut off at t"""
    N = Iv(N)
    sub = []
    for a in T.apps([Iv(v)]):
        if a.decl().name() in T.BY_DECL:
            ch = a.children()
            if ch[-1].eq(N):
                sub.append((a, a.decl()(*ch[:-1], Iv(t))))
    return conc(z3.substitute(Iv(v), *sub)) if sub else v


class Axes:
    """An index of symbolic length over a shape of symbolic rank.

    Item k is an integer (kind 0), a slice (kind 1) or None (kind 2).
    raw: as given by the user; otherwise normalized (integers in range, slices reduced).
    """

    def __init__(self, E, raw, rank=None, length=None):
        self.E, self.raw = E, raw
        self.n = E.fresh('rank') if rank is None else rank
        if rank is None:
            E.assume(self.n >= 0)
        self.m = self.n if length is None else length       # number of index items
        self.size, self.stride = E.fresh_fn('size', Int, Int), E.fresh_fn('stride', Int, Int)
        self.kind, self.iv = E.fresh_fn('kind', Int, Int), E.fresh_fn('int', Int, Int)
        self.hs, self.he, self.ht = (E.fresh_fn(f'has{x}', Int, Bool) for x in ('start', 'stop', 'step'))
        self.s, self.e, self.t = (E.fresh_fn(x, Int, Int) for x in ('start', 'stop', 'step'))
        k = z3.Int('k!ax')
        self.quant(lambda k: self.size(k) >= 0, self.size)
        self.quant(lambda k: z3.And(self.kind(k) >= 0, self.kind(k) <= 2), self.kind)
        self.quant(lambda k: z3.Implies(self.kind(k) == 0, z3.And(
            (-self.size(k) if raw else z3.IntVal(0)) <= self.iv(k), self.iv(k) < self.size(k), self.size(k) > 0)), self.kind)
        self.quant(lambda k: z3.Implies(z3.And(self.kind(k) == 1, self.ht(k)), self.t(k) != 0), self.ht)
        if not raw:
            for pat in (SliceSpec.pc, SliceSpec.ra, SliceSpec.rs):
                E.assume(z3.ForAll([k], z3.And(*SliceSpec.facts(self.args(k))), patterns=[pat(*self.args(k))]))

    def quant(self, f, fn):
        k = z3.Int('k!ax')
        self.E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Iv(self.n)), f(k)), patterns=[fn(k)]))

    def args(self, k):
        return [self.hs(k), self.s(k), self.he(k), self.e(k), self.ht(k), self.t(k), self.size(k)]

    def item(self, k):
        if self.raw:
            def part(h, v):
                return U([(h(k), v(k)), (True, None)])
            sl = SliceVal(part(self.hs, self.s), part(self.he, self.e), part(self.ht, self.t))
        else:
            a = self.args(k)
            sl = SliceVal(SliceSpec.ra(*a), SliceSpec.rz(*a), SliceSpec.rs(*a))
        return U([(self.kind(k) == 0, self.iv(k)), (self.kind(k) == 1, sl), (True, None)])

    def index(self):
        return SSeq(self.m, self.item, 0, 'tuple')

    def shape(self):
        return SSeq(self.n, self.size, 0, 'tuple')

    def strides(self):
        return SSeq(self.n, self.stride, 0, 'tuple')

    # specification
    def norm_int(self, k):
        return z3.If(self.iv(k) < 0, self.iv(k) + self.size(k), self.iv(k)) if self.raw else self.iv(k)

    def pos(self, k, j):
        """the position on axis k that Python selects as item j of that axis"""
        a = self.args(k)
        return z3.If(self.kind(k) == 0, self.norm_int(k), z3.If(self.kind(k) == 1, SliceSpec.pb(*a) + j * SliceSpec.ps(*a), j))

    def length(self, k):
        return z3.If(self.kind(k) == 1, SliceSpec.pc(*self.args(k)), self.size(k))

    def axes_before(self, t):
        """number of non-integer items before item t"""
        return Iv(fold_term('sum', z3.If(self.kind(T.K) == 0, z3.IntVal(0), z3.IntVal(1)), 0, t))


def check_shape(E, A, shape):
    shape = E.seq_of(shape)
    R = Iv(shape.n)
    yield 'one axis per item that is not an integer', R == A.axes_before(A.n)

    def lengths(k):
        return z3.Implies(z3.And(0 <= k, k < Iv(A.n), A.kind(k) != 0),
                          Iv(E.num(shape.get(Iv(_folds_to(R, A.n, k))))) == A.length(k))
    yield 'an axis has as many elements as its item selects', Q(['k'], lengths, hints=lambda k: SliceSpec.facts(A.args(k)))


def check_strided(E, A, r, offset0):
    shape, strides, offset = r.items
    yield from check_shape(E, A, shape)
    shape, strides = E.seq_of(shape), E.seq_of(strides)
    R = shape.n
    yield 'as many strides as axes', E.truth(E.eq(strides.n, R))
    e = E.fresh_fn('element', Int, Int)
    p = z3.Int('p!el')
    inside = z3.And(0 <= e(p), e(p) < Iv(E.num(shape.get(p))))
    E.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < Iv(R)), inside), patterns=[e(p)]))
    t = E.fresh('t')
    own = z3.substitute(e(p) * Iv(E.num(strides.get(p))), (p, T.K))
    want = A.stride(T.K) * A.pos(T.K, e(A.axes_before(T.K)))

    def claim(t):
        C = _folds_to(R, A.n, t)
        return z3.And(Iv(C) == A.axes_before(t),
                      Iv(_folds_to(offset, A.n, t)) + Iv(fold_term('sum', own, 0, C)) ==
                      Iv(offset0) + Iv(fold_term('sum', want, 0, t)))
    yield 'addressed element: first axis', claim(z3.IntVal(0))
    E.assume([0 <= t, t < Iv(A.n), claim(t)])
    c = Iv(_folds_to(R, A.n, t))
    E.assume([z3.substitute(z3.Implies(z3.And(0 <= p, p < Iv(R)), inside), (p, c))] + SliceSpec.facts(A.args(t)))
    E.assume(T.inst_quant(E.st.pc, [t]))
    pc = SliceSpec.pc(*A.args(t))
    for kd, cond, what in ((0, True, 'an integer'), (1, pc == 0, 'a slice that selects nothing'), (1, pc == 1, 'a slice that selects one item'),
                           (1, pc > 1, 'a slice that selects more items'), (2, True, 'None')):
        case = And(A.kind(t) == kd, cond)
        c1 = c if kd == 0 else c + 1
        # c1 is the number of axes before item t + 1
        yield f'axes before the next item, item is {what}', Implies(case, z3.And(
            Iv(_folds_to(R, A.n, t + 1)) == c1, A.axes_before(t + 1) == c1))
        yield f'addressed element: next axis, item is {what}', Implies(
            case, Iv(_folds_to(offset, A.n, t + 1)) + Iv(fold_term('sum', own, 0, c1)) ==
            Iv(offset0) + Iv(fold_term('sum', want, 0, t + 1)))


@contract('C02')
class IndexStrided(Contract):
    target = 'gcs.slice_tools.index_strided'

    def build(self, E):
        self.A = A = Axes(E, False)
        self.off = E.fresh('offset')
        return [A.index(), A.shape(), A.strides(), self.off]

    def post(self, E, args, r):
        if not (isinstance(r, CSeq) and r.n == 3):
            yield 'shape, strides and offset are returned', False
            return
        yield from check_strided(E, self.A, r, self.off)


@contract('C02')
class ApplySlices(Contract):
    target = 'gcs.slice_tools.apply_slices'
    requires = ('gcs.slice_tools.reduced', 'gcs.slice_tools.nitems')

    def build(self, E):
        self.A = A = Axes(E, True)
        return [A.index(), A.shape(), A.strides()]

    def post(self, E, args, r):
        if not (isinstance(r, CSeq) and r.n == 3):
            yield 'shape, strides and offset are returned', False
            return
        yield from check_strided(E, self.A, r, 0)


@contract('C02')
class ShapeStrided(Contract):
    target = 'gcs.slice_tools.shape_strided'
    requires = ('gcs.slice_tools.nitems',)

    def build(self, E):
        self.A = A = Axes(E, False)
        return [A.index(), A.shape()]

    def post(self, E, args, r):
        yield from check_shape(E, self.A, r)


IndexStrided.requires = ('gcs.slice_tools.reduced', 'gcs.slice_tools.nitems')


def check_item(E, A, k, v, cond):
    """v is item k of the index, normalized (k: symbolic or concrete)"""
    a = A.args(Iv(k))
    kind = A.kind(Iv(k))

    def run():
        E.assume(cond)
        if E.branch(kind == 0):
            return And(is_int(E.rv(v)), E.truth(E.eq(v, A.norm_int(Iv(k)))))
        if E.branch(kind == 1):
            w = E.rv(v)
            if not isinstance(w, SliceVal):
                return False
            return And(*[E.truth(E.eq(x, f(*a))) for x, f in zip((w.start, w.stop, w.step), (SliceSpec.ra, SliceSpec.rz, SliceSpec.rs))])
        return E.rv(v) is None
    return run


class _Normalize(Contract):
    target = 'gcs.slice_tools.normalize_index'
    requires = ('gcs.slice_tools.reduced',)

    def post(self, E, args, r):
        A = self.A
        r = E.seq_of(r)
        yield 'a tuple with one item per axis', And(r.kind == 'tuple', Iv(r.n) == Iv(A.n))
        k = E.fresh('k')
        E.assume([0 <= k, k < Iv(A.n)])
        E.assume(T.inst_quant(E.st.pc, [k]))
        yield 'given items are normalized', check_item(E, A, k, r.get(k), k < Iv(A.m))
        yield 'missing items are whole axes', lambda: self.missing(E, A, k, r)

    def missing(self, E, A, k, r):
        E.assume(k >= Iv(A.m))
        return E.rv(r.get(k)) is None


@contract('C02')
class NormalizeIndex(_Normalize):
    """a tuple of at most as many items as axes"""

    def build(self, E):
        m = E.fresh('items')
        n = E.fresh('rank')
        E.assume([m >= 0, m <= n])
        self.A = A = Axes(E, True, n, m)
        return [A.index(), A.shape()]


@contract('C02')
class NormalizeItem(_Normalize):
    """a single item: integer, slice or None"""

    def build(self, E):
        n = E.fresh('rank')
        E.assume(n >= 1)
        self.A = A = Axes(E, True, n, 1)
        E.assume(T.inst_quant(E.st.pc, [0]))
        return [A.item(z3.IntVal(0)), A.shape()]
