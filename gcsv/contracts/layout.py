"""Contracts for the row-major layout (C03): any rank, any sizes."""
from .base import *  # noqa


def sym_shape(E, n=None, least=0):
    if n is None:
        n = E.fresh('rank')
        E.assume(n >= 0)
    size = E.fresh_fn('size', Int, Int)
    if least is None:
        return n, size
    k = z3.Int('k!sh')
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Iv(n)), size(k) >= least), patterns=[size(k)]))
    return n, size


@contract('C03')
class Product(Contract):
    target = 'gcs.storage.product'

    def build(self, E):
        self.n, self.x = E.fresh('n'), E.fresh_fn('x', Int, Int)
        E.assume(self.n >= 0)
        return [fn_seq(self.n, self.x)]

    def post(self, E, args, r):
        mark = z3.Function('mark', Int, Bool)
        yield 'the product of the items', lambda: E.prove(
            Iv(E.num(r)) == prod_range(self.x, 0, self.n), 'post: the product of the items', hints=[mark(prod_range(self.x, 1, self.n))])


@contract('C03', 'C04')
class ProductBasics(Product):
    target = 'gcs_basics.product'
    recursive = True
    use = True

    def applies(self, E, vals, kw):
        return E.as_plain_seq(vals[0]) is not None

    def apply(self, E, vals, kw):
        s = E.seq_of(vals[0])
        if E.verifying == self.target:
            E.prove(z3.And(Iv(s.n) >= 0, Iv(s.n) < self.n), 'the recursion is over a shorter sequence')
        return E.fold('prod', s)


@contract('C03')
class MakeStrides(Contract):
    target = 'gcs.storage.make_strides'
    use = True

    def applies(self, E, vals, kw):
        return isinstance(E.as_plain_seq(vals[0]), SSeq)

    def apply(self, E, vals, kw):
        s = E.seq_of(vals[0])
        return fn_seq(s.n, lambda i: prod_range(lambda k: E.num(s.get(k)), i + 1, s.n))

    def build(self, E):
        self.n, self.size = sym_shape(E, least=None)
        return [fn_seq(self.n, self.size)]

    def post(self, E, args, r):
        r = E.seq_of(r)
        yield 'a tuple with one stride per axis', And(r.kind == 'tuple', Iv(r.n) == Iv(self.n))
        yield 'the product of the lengths of the later axes', Q(['i'], lambda i: Implies(
            z3.And(0 <= i, i < self.n), Iv(E.num(r.get(i))) == prod_range(self.size, i + 1, self.n)))


def weighted(E, ix, st, n):
    return sum_range(lambda k: Iv(E.num(ix.get(k))) * Iv(E.num(st.get(k))), 0, n)


@contract('C03')
class GetPosition(Contract):
    target = 'gcs.storage.get_position'
    use = True

    def applies(self, E, vals, kw):
        return all(isinstance(E.as_plain_seq(v), SSeq) for v in vals)

    def apply(self, E, vals, kw):
        ix, shape, st = (E.seq_of(v) for v in vals)
        E.prove(And(E.eq(ix.n, shape.n), E.eq(st.n, shape.n)), 'get_position: one item and one stride per axis')
        return weighted(E, ix, st, shape.n)

    def build(self, E):
        self.n, self.size = sym_shape(E, least=None)
        self.ix, self.st = E.fresh_fn('index', Int, Int), E.fresh_fn('stride', Int, Int)
        return [fn_seq(self.n, self.ix), fn_seq(self.n, self.size), fn_seq(self.n, self.st)]

    def post(self, E, args, r):
        yield 'the stride-weighted sum of the index', Iv(E.num(r)) == sum_range(lambda k: self.ix(k) * self.st(k), 0, self.n)


@contract('C04')
class GetRPosition(Contract):
    target = 'gcs.storage.get_rposition'
    use = True

    def applies(self, E, vals, kw):
        return all(isinstance(E.as_plain_seq(v), SSeq) for v in vals)

    def apply(self, E, vals, kw):
        ix, st, shape, ax = (E.seq_of(v) for v in vals)
        E.prove(And(E.eq(ax.n, shape.n), E.eq(st.n, shape.n)), 'get_rposition: one axis and one stride per length')
        E.prove(Q(['k'], lambda k: Implies(z3.And(0 <= k, k < Iv(ax.n)), z3.And(0 <= Iv(E.num(ax.get(k))), Iv(E.num(ax.get(k))) < Iv(ix.n)))),
                'get_rposition: the axes are axes of the index')
        return weighted(E, fn_seq(ax.n, lambda k: E.num(ix.get(E.num(ax.get(k))))), st, shape.n)

    def build(self, E):
        self.n, self.size = sym_shape(E, least=None)
        self.N = E.fresh('items')
        self.ix, self.st, self.ax = E.fresh_fn('index', Int, Int), E.fresh_fn('stride', Int, Int), E.fresh_fn('axis', Int, Int)
        k = z3.Int('k!rp')
        E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Iv(self.n)), z3.And(0 <= self.ax(k), self.ax(k) < self.N)), patterns=[self.ax(k)]))
        return [fn_seq(self.N, self.ix), fn_seq(self.n, self.st), fn_seq(self.n, self.size), fn_seq(self.n, self.ax)]

    def post(self, E, args, r):
        yield 'the stride-weighted sum of the items of the axes', Iv(E.num(r)) == sum_range(lambda k: self.ix(self.ax(k)) * self.st(k), 0, self.n)


@contract('C03')
class RowMajor(Contract):
    """positions of two element indices with the strides that make_strides returns"""
    target = 'gcs.storage.get_position'
    requires = ('gcs.storage.make_strides',)

    def build(self, E):
        self.n, self.size = sym_shape(E)
        self.x, self.y = E.fresh_fn('x', Int, Int), E.fresh_fn('y', Int, Int)
        k = z3.Int('k!rm')
        for f in (self.x, self.y):
            E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(0 <= f(k), f(k) < self.size(k))), patterns=[f(k)]))
        self.m = m = E.fresh('first_difference')
        E.assume([0 <= m, m < self.n, self.x(m) < self.y(m)])
        E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), self.x(k) == self.y(k)), patterns=[self.x(k)]))
        return [fn_seq(self.n, self.size)]

    def call(self, E, args):
        shape = args[0]
        strides = E.call(E.func('gcs.storage.make_strides'), [shape])
        f = E.func(self.target)
        self.strides = E.seq_of(strides)
        px = E.run_body(f, [fn_seq(self.n, self.x), shape, strides], {})
        py = E.run_body(f, [fn_seq(self.n, self.y), shape, strides], {})
        return CSeq([px, py])

    def post(self, E, args, r):
        n, m, size, x, y = self.n, self.m, self.size, self.x, self.y
        px, py = (Iv(E.num(v)) for v in r.items)
        size_from = lambda t: prod_range(size, t, n)
        suffix = lambda f, t: sum_range(lambda k: f(k) * prod_range(size, k + 1, n), t, n)
        for f, p in ((x, px), (y, py)):
            yield 'the stride-weighted sum with row-major strides', p == suffix(f, 0)
        k = z3.Int('k!rm')
        for nm, f, p in (('x', x, px), ('y', y, py)):
            lemma_down(E, f'the later axes contribute less than their number of elements ({nm})', 0, n,
                       lambda t: z3.And(size_from(t) >= 1, 0 <= suffix(f, t), suffix(f, t) < size_from(t)),
                       hints=lambda t: [mul_mono(f(t), size(t) - 1, size_from(t + 1)), mul_mono(0, f(t), size_from(t + 1))])
            yield f'position inside the array ({nm})', z3.And(0 <= p, p < size_from(z3.IntVal(0)))
        prefix = lambda f, t: sum_range(lambda k: f(k) * prod_range(size, k + 1, n), 0, t)
        lemma_up(E, 'equal items contribute the same', 0, m, lambda t: prefix(x, t) == prefix(y, t))
        for f in (x, y):
            lemma_up(E, 'a sum is split anywhere', 0, m, lambda t: suffix(f, 0) == prefix(f, t) + suffix(f, t))
        E.assume(T.inst_quant(E.st.pc, [m, m + 1]))
        E.assume(T.inst_quant(E.st.pc, [m, m + 1]))
        yield 'positions grow in lexicographic order, so they are distinct', (lambda: E.prove(
            px < py, 'post: positions grow in lexicographic order, so they are distinct',
            hints=[mul_mono(x(m) + 1, y(m), size_from(m + 1))]))
