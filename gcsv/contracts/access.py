"""Lemmas that link the specifications in codes.py to the functions they stand for."""
from .codes import *  # noqa
from .buffer import cls, obj, attr, method, Buf
from .strided import Axes
from . import search, layout, solve, strided, compress, slices, buffer, reduction


@contract('C02')
class IndexStridedNonzero(Contract):
    """non-zero strides give non-zero strides"""
    target = ST + 'index_strided'

    def build(self, E):
        self.A = A = Axes(E, False)
        A.quant(lambda k: A.stride(k) != 0, A.stride)
        return [A.index(), A.shape(), A.strides(), E.fresh('offset')]

    def post(self, E, args, r):
        strides = E.seq_of(r.items[1])
        p = E.fresh('p')
        E.assume([0 <= p, p < Iv(strides.n)])
        v = Iv(E.num(strides.get(p)))
        x, y = z3.Ints('x!nz y!nz')
        E.assume(z3.ForAll([x, y], z3.Implies(z3.And(x != 0, y != 0), x * y != 0), patterns=[x * y]))
        yield 'the strides are not zero', v != 0


@contract('C02')
class SelectedInside(Contract):
    """item j of a slice of an axis is inside the axis, and every position is selected once"""
    target = ST + 'reduced'

    def cases(self, E):
        return slices.slice_cases(E)

    def call(self, E, args):
        return None

    def post(self, E, args, r):
        s, n = args
        b, e, st = slices.py_bounds(s.start, s.stop, s.step, n)
        cnt = slices.py_count(b, e, st)
        b, st, cnt = Iv(b), Iv(st), Iv(cnt)
        i, j = E.fresh('i'), E.fresh('j')
        E.assume([0 <= i, i < j, j < cnt])
        last = b + (cnt - 1) * st
        yield 'the step is not zero', st != 0
        yield 'first and last item are inside', z3.And(0 <= b, b < Iv(n), 0 <= last, last < Iv(n))
        for k, nm in ((i, 'i'), (j, 'j')):
            p = b + k * st
            yield f'item {nm} is inside', lambda p=p, k=k, nm=nm: E.prove(
                z3.And(0 <= p, p < Iv(n)), f'post: item {nm} is inside', hints=[
                    mul_mono(k, cnt - 1, st), mul_mono(0, k, st), mul_mono(k, cnt - 1, -st), mul_mono(0, k, -st)])
        yield 'items are distinct', lambda: E.prove(b + i * st != b + j * st, 'post: items are distinct', hints=[
            mul_mono(i + 1, j, st), mul_mono(i + 1, j, -st)])


@contract('C03')
class StridesAttribute(Contract):
    """the strides a storage was given, or the row-major ones; nothing but a cache of them is changed"""
    target = STORE + 'Storage.strides'

    def cases(self, E):
        return [(l, lambda l=l: self.build(E, l)) for l in ('given', 'row-major', 'row-major, again')]

    def build(self, E, kind):
        self.kind = kind
        self.n, self.size = layout.sym_shape(E)
        self.st = E.fresh_fn('stride', Int, Int)
        self.shape = fn_seq(self.n, self.size)
        kw = dict(shape=self.shape, size=E.fresh('size'))
        if kind == 'given':
            kw['_strides'] = fn_seq(self.n, self.st)
        self.ref = obj(E, 'Strided', **kw)
        self.before = dict(E.obj(self.ref).attrs)
        return [self.ref]

    def call(self, E, args):
        r = E.getattr_(args[0], 'strides')
        if self.kind.endswith('again'):
            r = E.getattr_(args[0], 'strides')
        return r

    def post(self, E, args, r):
        r = E.seq_of(r)
        yield 'one per axis', Iv(r.n) == self.n
        k = E.fresh('k')
        E.assume([0 <= k, k < self.n])
        yield 'the stride of an axis', Iv(E.num(r.get(k))) == (
            self.st(k) if self.kind == 'given' else prod_range(self.size, k + 1, self.n))
        after = E.obj(self.ref).attrs
        yield 'other attributes are unchanged', all(after.get(a) is v for a, v in self.before.items()) and \
            set(after) - set(self.before) <= {'_strides'}


@contract('C06')
class CsrIterate(Contract):
    """the elements of a row-compressed array are listed row by row"""
    target = STORE + 'CSR.indices_and_data_position'
    timeout = 5000

    def build(self, E):
        rows, cols, n = E.fresh('rows'), E.fresh('cols'), E.fresh('n')
        crow, col = E.fresh_fn('crow', Int, Int), E.fresh_fn('col', Int, Int)
        r = z3.Int('r!s')
        E.assume([rows >= 0, cols >= 0, n >= 0, crow(z3.IntVal(0)) == 0, crow(rows) == n])
        E.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < rows), crow(r) <= crow(r + 1)), patterns=[crow(r)]))
        self.rows, self.n, self.crow, self.col = rows, n, crow, col
        u = VNONE

        def buf(size, fn):
            return obj(E, 'Buffer', shape=CSeq([conc(size)]), size=conc(size), offset=0,
                       data=E.new_list(SSeq(conc(size), lambda k: fn(Iv(k)), 0, 'list')), _unspecified=u)
        self.ref = obj(E, 'CSR', shape=CSeq([rows, cols]), crow_indices=buf(simp(rows + 1), crow), col_indices=buf(n, col), size=n)
        lemma_up(E, 'row bounds do not decrease', 0, rows, lambda t: crow(t) >= 0)
        lemma_down(E, 'row bounds end with the number of elements', 0, rows, lambda t: crow(t) <= n)
        return [self.ref]

    def closed(self, E, args):
        return [('sum', self.crow, self.rows)]

    def call(self, E, args):
        return E.seq_of(method(E, args[0], 'indices_and_data_position'))

    def post(self, E, args, r):
        n, rows, crow, col = self.n, self.rows, self.crow, self.col
        yield 'every element', Iv(r.n) == n
        p = E.fresh('p')
        E.assume([0 <= p, p < n])

        def item(p):
            ix, pos = [E.rv(v) for v in E.seq_of(r.get(p)).items]
            i, j = [Iv(E.num(v)) for v in E.seq_of(ix).items]
            return i, j, Iv(E.num(pos))
        i, j, pos = item(p)
        E.assume(T.inst_quant(E.st.pc, [i, i + 1]))
        yield 'its position', pos == p
        yield 'its row', z3.And(0 <= i, i < rows, crow(i) <= p, p < crow(i + 1))
        yield 'its column', j == col(p)
