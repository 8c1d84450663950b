"""Contracts for dimensionality reduction (C04): any rank, any sizes, any grouping of the axes."""
from .base import *  # noqa


class Groups:
    """A grouping of the axes 0..N-1: dim(g, i) is axis i of group g; grp(a), pos(a) is the place of axis a."""

    def __init__(self, E):
        self.E = E
        self.G = E.fresh('groups')
        self.N = E.fresh('rank')
        E.assume([self.G >= 0, self.N >= 0])
        self.size = E.fresh_fn('size', Int, Int)
        self.index = E.fresh_fn('index', Int, Int)
        self.roff = E.fresh_fn('roffset', Int, Int)
        self.len, self.dim = E.fresh_fn('grouplen', Int, Int), E.fresh_fn('dim', Int, Int, Int)
        self.grp, self.pos = E.fresh_fn('grp', Int, Int), E.fresh_fn('pos', Int, Int)
        a, g, i = z3.Ints('a!g g!g i!g')
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.N), z3.And(
            self.size(a) >= 1, 0 <= self.index(a), self.index(a) < self.size(a))), patterns=[self.size(a)]))
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.N), z3.And(
            0 <= self.grp(a), self.grp(a) < self.G, 0 <= self.pos(a), self.pos(a) < self.len(self.grp(a)),
            self.dim(self.grp(a), self.pos(a)) == a)), patterns=[self.grp(a)]))
        E.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < self.G), self.len(g) >= 0), patterns=[self.len(g)]))
        E.assume(z3.ForAll([g, i], z3.Implies(z3.And(0 <= g, g < self.G, 0 <= i, i < self.len(g)), z3.And(
            0 <= self.dim(g, i), self.dim(g, i) < self.N, self.grp(self.dim(g, i)) == g, self.pos(self.dim(g, i)) == i)),
            patterns=[self.dim(g, i)]))

    def shape(self):
        return fn_seq(self.N, self.size)

    def rdimensions(self):
        return fn_seq(self.G, lambda g: fn_seq(self.len(Iv(g)), lambda i: self.dim(Iv(g), Iv(i))))

    # specification
    def radix(self, g):
        return Radix(self.len(g), lambda i: self.size(self.dim(g, i)))

    def digits(self, g):
        return lambda i: self.index(self.dim(g, i))


class Cuts(Groups):
    """Groups made from a permutation of the axes and the positions that cut it into pieces"""

    def __init__(self, E):
        self.E = E
        self.G, self.N = E.fresh('groups'), E.fresh('rank')
        E.assume([self.G >= 1, self.G <= self.N])
        self.size, self.index = E.fresh_fn('size', Int, Int), E.fresh_fn('index', Int, Int)
        self.perm, self.inv = E.fresh_fn('perm', Int, Int), E.fresh_fn('inv', Int, Int)
        self.cut, self.grp = E.fresh_fn('cut', Int, Int), E.fresh_fn('grp', Int, Int)
        self.roff = lambda g: 0
        a, g, h = z3.Ints('a!g g!g h!g')
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.N), z3.And(
            self.size(a) >= 1, 0 <= self.index(a), self.index(a) < self.size(a))), patterns=[self.size(a)]))
        E.assume([self.cut(z3.IntVal(0)) == 0, self.cut(self.G) == self.N])
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.N), z3.And(
            0 <= self.perm(a), self.perm(a) < self.N, self.inv(self.perm(a)) == a)), patterns=[self.perm(a)]))
        E.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.N), z3.And(
            0 <= self.grp(a), self.grp(a) < self.G, 0 <= self.inv(a), self.inv(a) < self.N, self.perm(self.inv(a)) == a,
            self.cut(self.grp(a)) <= self.inv(a), self.inv(a) < self.cut(self.grp(a) + 1))), patterns=[self.grp(a)]))
        E.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < self.G), z3.And(
            0 <= self.cut(g), self.cut(g) <= self.cut(g + 1), self.cut(g + 1) <= self.N)), patterns=[self.cut(g)]))
        E.assume(z3.ForAll([g, h], z3.Implies(z3.And(0 <= g, g < h, h <= self.G), self.cut(g + 1) <= self.cut(h)),
                           patterns=[T.mpat(self.cut(g), self.cut(h))]))

    def len(self, g):
        return self.cut(Iv(g) + 1) - self.cut(Iv(g))

    def dim(self, g, i):
        return self.perm(self.cut(Iv(g)) + Iv(i))

    def pos(self, a):
        return self.inv(a) - self.cut(self.grp(a))

    def dimensions(self):
        return fn_seq(self.N, self.perm)

    def partitioning(self):
        return fn_seq(self.G - 1, lambda k: self.cut(Iv(k) + 1))


class Radix:
    """Mixed radix numbers with n digits: digit i counts the positions s(i), the last one fastest."""

    def __init__(self, n, s):
        self.n, self.s = n, s

    def later(self, t):
        return prod_range(self.s, t, self.n)

    def part(self, f, lo, hi):
        return sum_range(lambda i: Iv(f(i)) * prod_range(self.s, i + 1, self.n), lo, hi)

    def value(self, f):
        return self.part(f, z3.IntVal(0), self.n)

    def digit(self, p, i):
        return Iv(pymod(pydiv(p, self.later(i + 1)), self.s(i)))


def radix_range(R, f):
    """lemma: digits in range make a number in range"""
    return z3.And(0 <= R.value(f), R.value(f) < R.later(z3.IntVal(0)))


def radix_digit(R, f, i):
    """lemma: the digits of a number are what it was made from"""
    return z3.Implies(z3.And(0 <= i, i < R.n), R.digit(R.value(f), i) == f(i))


def radix_value(R, p):
    """lemma: a number in range is made from its digits"""
    return z3.Implies(z3.And(0 <= p, p < R.later(z3.IntVal(0))), R.value(lambda i: R.digit(p, i)) == p)


class _Radix(Contract):
    target = 'gcs.storage.make_reduction'     # a lemma about its strides

    def build(self, E):
        n, s = E.fresh('n'), E.fresh_fn('s', Int, Int)
        f = E.fresh_fn('f', Int, Int)
        E.assume(n >= 0)
        k = z3.Int('k!rx')
        E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), s(k) >= 1), patterns=[s(k)]))
        self.R, self.n, self.s, self.f = Radix(n, s), n, s, f
        return []

    def digits_in_range(self, E):
        k = z3.Int('k!rx')
        E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(0 <= self.f(k), self.f(k) < self.s(k))), patterns=[self.f(k)]))

    def call(self, E, args):
        return None

    def suffixes(self, E):
        R, n, s, f = self.R, self.n, self.s, self.f
        suffix = lambda t: R.part(f, t, n)
        lemma_down(E, 'the later digits contribute less than their number', 0, n,
                   lambda t: z3.And(R.later(t) >= 1, 0 <= suffix(t), suffix(t) < R.later(t)),
                   hints=lambda t: [mul_mono(f(t), s(t) - 1, R.later(t + 1)), mul_mono(0, f(t), R.later(t + 1)), mul_mono(1, s(t), R.later(t + 1))])
        return suffix


@contract()
class RadixRange(_Radix):
    def post(self, E, args, r):
        self.digits_in_range(E)
        self.suffixes(E)
        E.assume(T.inst_quant(E.st.pc, [z3.IntVal(0)]))
        yield 'digits in range make a number in range', radix_range(self.R, self.f)


@contract()
class RadixDigit(_Radix):
    def post(self, E, args, r):
        self.digits_in_range(E)
        R, n, s, f = self.R, self.n, self.s, self.f
        suffix = self.suffixes(E)
        prefix = lambda t: R.part(f, z3.IntVal(0), t)
        H = E.fresh_fn('H', Int, Int)
        t = z3.Int('t!H')
        E.assume([H(z3.IntVal(0)) == 0, z3.ForAll([t], z3.Implies(t >= 0, H(t + 1) == H(t) * s(t) + f(t)), patterns=[H(t)])])
        lemma_up(E, 'a sum is split anywhere', 0, n, lambda t: suffix(z3.IntVal(0)) == prefix(t) + suffix(t))

        def step(t):
            calc(E, 'lemma: the earlier digits contribute a multiple', [
                R.later(t) == s(t) * R.later(t + 1), prefix(t) == R.later(t) * H(t), H(t + 1) == H(t) * s(t) + f(t),
                prefix(t + 1) == prefix(t) + f(t) * R.later(t + 1)], prefix(t + 1) == R.later(t + 1) * H(t + 1))
            return []
        lemma_up(E, 'the earlier digits contribute a multiple', 0, n, lambda t: prefix(t) == R.later(t) * H(t), hints=step)
        i = E.fresh('i')
        E.assume([0 <= i, i < n])
        E.assume(T.inst_quant(E.st.pc, [i, i + 1]))
        P, v, d = R.later(i + 1), R.value(f), f(i)
        calc(E, 'number split at the digit', [v == prefix(i + 1) + suffix(i + 1), prefix(i + 1) == P * H(i + 1), H(i + 1) == H(i) * s(i) + d],
             v == P * (s(i) * H(i) + d) + suffix(i + 1))
        yield 'quotient', lambda: E.prove(Iv(pydiv(v, P)) == s(i) * H(i) + d, 'quotient', hints=[div_unique(v, P, s(i) * H(i) + d, suffix(i + 1))], rounds=1)
        yield 'the digit is what the number was made from', lambda: E.prove(
            R.digit(v, i) == d, 'the digit is what the number was made from', hints=[div_unique(s(i) * H(i) + d, s(i), H(i), d)], rounds=1)


@contract()
class RadixValue(_Radix):
    def post(self, E, args, r):
        R, n, s = self.R, self.n, self.s
        p = E.fresh('p')
        lemma_down(E, 'lengths are positive', 0, n, lambda t: R.later(t) >= 1, hints=lambda t: [mul_mono(1, s(t), R.later(t + 1))])
        E.assume(T.inst_quant(E.st.pc, [z3.IntVal(0), n]))
        E.assume([0 <= p, p < R.later(z3.IntVal(0))])
        part = lambda t: R.part(lambda i: R.digit(p, i), z3.IntVal(0), t)
        rem = lambda t: Iv(pymod(p, R.later(t)))

        def step(t):
            P, Qt = R.later(t + 1), R.later(t)
            q, r = Iv(pydiv(p, P)), Iv(pymod(p, P))
            q2, d = Iv(pydiv(q, s(t))), Iv(pymod(q, s(t)))
            calc(E, 'lemma: remainder', [Qt == s(t) * P, P >= 1, s(t) >= 1, p == P * q + r, q == s(t) * q2 + d, 0 <= r, r < P, 0 <= d, d < s(t)],
                 z3.And(p == Qt * q2 + (P * d + r)))
            calc(E, 'lemma: remainder in range', [Qt == s(t) * P, 0 <= r, r < P, 0 <= P * d, P * d <= P * (s(t) - 1)]
                 if E.prove(z3.And(0 <= P * d, P * d <= P * (s(t) - 1)), 'lemma: range of a digit', hints=[mul_mono(d, s(t) - 1, P), mul_mono(0, d, P)], rounds=1)
                 else [], z3.And(0 <= P * d + r, P * d + r < Qt))
            E.prove(rem(t) == P * d + r, 'lemma: remainder by the earlier length', hints=[div_unique(p, Qt, q2, P * d + r)], rounds=1)
            calc(E, 'lemma: next digit', [part(t + 1) == part(t) + d * P, part(t) == p - rem(t), rem(t) == P * d + r],
                 part(t + 1) == p - r)
            return []
        lemma_up(E, 'digits up to an axis', 0, n, lambda t: part(t) == p - rem(t), hints=step)
        E.assume(T.inst_quant(E.st.pc, [n]))
        yield 'a number in range is made from its digits', radix_value(R, p)


def check_reduced(E, D, r, roff, rshape=None):
    """r is the reduced index of D.index"""
    r = E.seq_of(r)
    yield 'one reduced item per group', Iv(r.n) == D.G
    g = E.fresh('g')
    E.assume([0 <= g, g < D.G])
    E.assume(T.inst_quant(E.st.pc, [g]))
    R, f = D.radix(g), D.digits(g)
    yield 'a reduced item is the row-major position within its group', Iv(E.num(r.get(g))) == Iv(roff(g)) + R.value(f)
    E.assume(radix_range(R, f))
    yield 'reduced items lie inside the reduced shape', z3.And(
        Iv(roff(g)) <= Iv(E.num(r.get(g))), Iv(E.num(r.get(g))) < Iv(roff(g)) + R.later(z3.IntVal(0)))
    if rshape is not None:
        rshape = E.seq_of(rshape)
        yield 'one reduced length per group', Iv(rshape.n) == D.G
        yield 'a reduced length is the product of the grouped lengths', Iv(E.num(rshape.get(g))) == R.later(z3.IntVal(0))


def check_promoted(E, D, back, x):
    """back is promoted from the reduced index with items x(g) (offsets removed)"""
    back = E.seq_of(back)
    yield 'one item per axis', Iv(back.n) == D.N
    a = E.fresh('a')
    E.assume([0 <= a, a < D.N])
    E.assume(T.inst_quant(E.st.pc, [a]))
    g, i = D.grp(a), D.pos(a)
    E.assume(T.inst_quant(E.st.pc, [g, i]))
    yield 'a promoted item is the digit of its group', lambda: E.truth(E.eq(back.get(a), D.radix(g).digit(x(g), i)))


def check_inverse(E, D, x):
    """what the contracts of reduction and promotion give together"""
    a = E.fresh('a')
    E.assume([0 <= a, a < D.N])
    E.assume(T.inst_quant(E.st.pc, [a]))
    g, i = D.grp(a), D.pos(a)
    R, f = D.radix(g), D.digits(g)
    E.assume(radix_digit(R, f, i))
    yield 'promoting the reduced index gives the index back', z3.Implies(x(g) == R.value(f), R.digit(x(g), i) == D.index(a))
    h = E.fresh('g')
    E.assume([0 <= h, h < D.G])
    R = D.radix(h)
    back = E.fresh_fn('promoted', Int, Int)      # the promoted index
    b = z3.Int('b!pr')
    E.assume(z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < D.N, D.grp(b) == h), back(b) == R.digit(x(h), D.pos(b))), patterns=[back(b)]))
    E.assume(radix_value(R, x(h)))
    i = E.fresh('i')
    claim = lambda i: z3.Implies(z3.And(0 <= i, i < D.len(h)), back(D.dim(h, i)) == R.digit(x(h), i))
    c = D.dim(h, i)
    # the constants stand for the grouping's functions at the axis c
    derive(E, 'the promoted index of a group', [0 <= c, c < D.N, D.grp(c) == h, D.pos(c) == i], back(c) == R.digit(x(h), i),
           given=[z3.Implies(z3.And(0 <= c, c < D.N, D.grp(c) == h), back(c) == R.digit(x(h), D.pos(c)))],
           under=[0 <= i, i < D.len(h)])
    if not isinstance(D, Cuts):
        E.assume(z3.ForAll([b], claim(b), patterns=[D.dim(h, b)]))
    else:
        E.assume(z3.ForAll([b], z3.substitute(claim(i), (i, b - D.cut(h))), patterns=[D.perm(b)]))
    yield 'reducing the promoted index gives the reduced index back', z3.Implies(
        z3.And(0 <= x(h), x(h) < R.later(z3.IntVal(0))), R.value(lambda i: back(D.dim(h, i))) == x(h))


@contract('C04')
class BasicsReduction(Contract):
    """create_reduction_metadata, reduction and promotion together"""
    target = 'gcs_basics.reduction'
    budget = 400
    requires = ('gcs_basics.product',)
    lemmas = (RadixRange, RadixDigit, RadixValue)

    def build(self, E):
        self.D = D = Cuts(E)
        return [D.shape(), D.dimensions(), D.partitioning()]

    def selectors(self, E, args):
        return [lambda E, a: [self.D.pos(a), self.D.grp(a)]]

    def call(self, E, args):
        D = self.D
        m = E.run_body(E.func('gcs_basics.create_reduction_metadata'), args, {})
        r = E.run_body(E.func(self.target), [m, fn_seq(D.N, D.index)], {})
        self.x = E.fresh_fn('rindex', Int, Int)
        back = E.run_body(E.func('gcs_basics.promotion'), [m, fn_seq(D.G, self.x)], {})
        rshape = E.getitem(m, 'reduction_shape')
        return CSeq([rshape, r, back])

    def post(self, E, args, res):
        D = self.D
        rshape, r, back = res.items
        yield from check_reduced(E, D, r, D.roff, rshape)
        yield from check_promoted(E, D, back, self.x)
        yield from check_inverse(E, D, self.x)


@contract('C04')
class StorageReduction(Contract):
    """make_reduction, reduce_index and promote_index together"""
    target = 'gcs.storage.reduce_index'
    budget = 400
    requires = ('gcs.storage.make_strides', 'gcs.storage.get_rposition')
    lemmas = (RadixRange, RadixDigit, RadixValue)

    def build(self, E):
        self.D = D = Groups(E)
        E.assume(sum_range(D.len, 0, D.G) == D.N)
        return [D.shape(), D.rdimensions()]

    def selectors(self, E, args):
        return [lambda E, a: [self.D.pos(a), self.D.grp(a)]]

    def call(self, E, args):
        shape, rd = args
        D = self.D
        q = E.run_body(E.func('gcs.storage.make_reduction'), [shape, rd], {})
        rshape, rshapes, rstrides = q.items
        roff = fn_seq(D.G, lambda g: D.roff(Iv(g)))
        r = E.run_body(E.func(self.target), [rshapes, rd, rstrides, roff, fn_seq(D.N, D.index)], {})
        self.x = E.fresh_fn('rindex', Int, Int)
        back = E.run_body(E.func('gcs.storage.promote_index'), [rshapes, rd, rstrides, roff, fn_seq(D.G, self.x)], {})
        return CSeq([rshape, r, back])

    def post(self, E, args, res):
        D = self.D
        rshape, r, back = res.items
        x = lambda g: self.x(g) - D.roff(g)
        yield from check_reduced(E, D, r, D.roff, rshape)
        yield from check_promoted(E, D, back, x)
        yield from check_inverse(E, D, x)


@contract('C04')
class StoragePromoteInt(StorageReduction):
    """promote_index of the integer index of a one-dimensional reduced array"""
    target = 'gcs.storage.promote_index'

    def build(self, E):
        self.D = D = Groups(E)
        E.assume([D.G == 1, D.len(z3.IntVal(0)) == D.N])
        return [D.shape(), CSeq([D.rdimensions().get(0)])]

    def call(self, E, args):
        shape, rd = args
        D = self.D
        rshape, rshapes, rstrides = E.run_body(E.func('gcs.storage.make_reduction'), [shape, rd], {}).items
        self.x = E.fresh_fn('rindex', Int, Int)
        return E.run_body(E.func(self.target), [rshapes, rd, rstrides, CSeq([D.roff(z3.IntVal(0))]), self.x(z3.IntVal(0))], {})

    def post(self, E, args, back):
        D = self.D
        yield from check_promoted(E, D, back, lambda g: self.x(g) - D.roff(g))
