"""Contracts for the storage formats: concrete rank, any sizes and contents."""
from .codes import *  # noqa
from .buffer import cls, obj, attr, method, Buf
from . import search, layout, solve, strided, compress, buffer, slices, reduction, access

# verified contracts that the specifications in codes.py stand for
LINKS = (layout.GetPosition, layout.RowMajor, layout.MakeStrides, reduction.RadixRange, reduction.RadixValue, access.StridesAttribute,
         search.FlatPosition, search.CooPosition, search.CsrPosition, compress.CompressStorage, access.CsrIterate, buffer.BufferWindow)
SLICE_LINKS = LINKS + (slices.Reduced, slices.Nitems, slices.NitemsReduced, access.SelectedInside, strided.IndexStrided,
                       access.IndexStridedNonzero, solve.SolveIndex)

SPARSE = ('COO', 'FlatCOO', 'CSR')


class Nested(Abs):
    """A nested list with the given lengths; element y is fn(*y)."""
    pytype = 'list'

    def __init__(self, sizes, fn, ix=()):
        self.sizes, self.fn, self.ix = sizes, fn, tuple(ix)

    def len(self, E):
        return conc(self.sizes[len(self.ix)])

    def truth(self, E):
        return simp(self.sizes[len(self.ix)] > 0)

    def getitem(self, E, i):
        i = E.rv(i)
        if not is_int(i):
            raise Unsupported('slice of a nested sequence')
        n = self.sizes[len(self.ix)]
        i = Iv(i)
        E.safety(z3.And(-n <= i, i < n), 'index of a nested sequence in range')
        i = simp(i) if E.known_nonneg(i) else simp(z3.If(i < 0, i + n, i))
        ix = self.ix + (Iv(i),)
        if len(ix) == len(self.sizes):
            return self.fn(*ix)
        return Nested(self.sizes, self.fn, ix)

    def iter(self, E):
        return SSeq(self.len(E), lambda k: self.getitem(E, k), 0, 'list')

    def subst(self, pairs):
        return Nested(self.sizes, self.fn, [z3.substitute(i, *pairs) for i in self.ix])

    def eq(self, E, other):
        if other is None or isinstance(other, z3.ExprRef):
            return False
        raise Unsupported('comparison of nested sequences')


def shape_terms(E, d, least=1):
    """lengths that a nested sequence can have: only the last one may be 0"""
    out = []
    for j in range(d):
        n = E.fresh(f'n{j}')
        E.assume(n >= (least if j < d - 1 else 0))
        out.append(n)
    return out


def some_index(E, sizes, name='y', raw=True):
    """an element index as a user gives it, and its non-negative form"""
    raws, norm = [], []
    for j, n in enumerate(sizes):
        y = E.fresh(f'{name}{j}')
        E.assume([0 <= y, y < Iv(n)])
        norm.append(y)
        if raw:
            neg = E.fresh(f'negative{j}', Bool)
            y = z3.If(neg, y - Iv(n), y)
        raws.append(y)
    return raws, norm


def same(E, a, b):
    return E.truth(E.eq(a, b))


class _Array(Contract):
    """helpers for contracts on storage objects"""
    lemmas = LINKS
    budget = 400

    def read(self, E, r, y):
        return E.getitem(r, CSeq(y))

    def check_shape(self, E, r, sizes):
        sh = E.seq_of(attr(E, r, 'shape'))
        yield 'shape', lambda: And(sh.kind == 'tuple', simp(Iv(sh.n) == len(sizes)),
                                   *[Iv(E.num(sh.get(j))) == Iv(n) for j, n in enumerate(sizes)])


    def check_valid(self, E, r, sizes):
        """the representation invariant that the arbitrary arrays (Arr) have"""
        k = E.obj(r).cls.name
        num = lambda v: Iv(E.num(E.rv(v)))
        data = attr(E, r, 'data')
        isbuf = lambda o: E.obj(o) is not None and E.obj(o).cls is cls(E, 'Buffer')

        def window(o):
            off, size, n = num(attr(E, o, 'offset')), num(attr(E, o, 'size')), num(E.builtins['len'].fn(attr(E, o, 'data')))
            return z3.And(off >= 0, size >= 0, off + size <= n)
        if k == 'Buffer':
            yield 'the buffer is a window of its data', z3.And(window(r), num(attr(E, r, 'size')) == Iv(sizes[0]))
            return
        yield 'the data is a buffer', isbuf(data)
        yield 'the buffer is a window of its data', window(data)
        if k == 'Strided':
            off, size = num(attr(E, data, 'offset')), num(attr(E, data, 'size'))
            y = some_index(E, sizes, 'e', raw=False)[1]
            p = num(E.call(E.func(STORE + 'get_position'), [CSeq(y), attr(E, r, 'shape'), attr(E, r, 'strides')]))
            yield 'elements are inside the buffer', z3.And(0 <= off + p, p < size)
            return
        n = num(attr(E, data, 'size'))
        yield 'size', num(attr(E, r, 'size')) == n
        if k == 'FlatCOO':
            fi = attr(E, r, 'findices')
            yield 'one flattened index per value', And(isbuf(fi), num(attr(E, fi, 'size')) == n)
            at = generic_item(E, lambda p: [E.getitem(fi, p)], n)
            tot = Iv(prod_of(sizes))
            yield 'flattened indices are in range', Q(['p'], lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= at(p)[0], at(p)[0] < tot)))
        elif k == 'COO':
            ind = attr(E, r, 'indices')
            d = len(sizes)
            sh = ints(E, attr(E, ind, 'shape'))
            yield 'one row of indices per axis', And(len(sh) == 2, sh[0] == d, Iv(sh[1]) == n)
            at = generic_item(E, lambda p: [E.getitem(ind, CSeq([j, p])) for j in range(d)], n, d)
            yield 'indices are in range', Q(['p'], lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(
                *[z3.And(0 <= a, a < Iv(s)) for a, s in zip(at(p), sizes)])))
        elif k == 'CSR':
            crow, col = attr(E, r, 'crow_indices'), attr(E, r, 'col_indices')
            rows, cols = Iv(sizes[0]), Iv(sizes[1])
            yield 'one row bound per row and one more', And(isbuf(crow), num(attr(E, crow, 'size')) == rows + 1)
            yield 'one column index per value', And(isbuf(col), num(attr(E, col, 'size')) == n)
            cr = generic_item(E, lambda i: [E.getitem(crow, i)], simp(rows + 1))
            at = generic_item(E, lambda p: [E.getitem(col, p)], n)
            yield 'row bounds', z3.And(cr(0)[0] == 0, cr(rows)[0] == n)
            yield 'row bounds do not decrease', Q(['i'], lambda i: z3.Implies(z3.And(0 <= i, i < rows), cr(i)[0] <= cr(i + 1)[0]))
            yield 'columns are in range', Q(['p'], lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= at(p)[0], at(p)[0] < cols)))


def ranks(name):
    return {'Buffer': (1,), 'CSR': (2,)}.get(name, (1, 2, 3))


@contract('C09')
class Build(_Array):
    """fromobject of a nested sequence, then reading any element"""
    target = STORE + 'Strided.fromobject'
    formats = ('Buffer', 'Strided', 'FlatCOO', 'COO', 'CSR')

    def cases(self, E):
        out = []
        for f in self.formats:
            for d in ranks(f):
                for u in (False, True):
                    out.append((f'{f} rank {d}' + (' unspecified given' if u else ''), lambda f=f, d=d, u=u: self.build(E, f, d, u)))
        return out

    def build(self, E, f, d, u):
        enable(E)
        self.f, self.d = f, d
        self.sizes = shape_terms(E, d)
        self.x = E.fresh_fn('x', *[Int] * d, V)
        self.u = E.fresh('u', V) if u else None
        self.code = rm_code(E, self.sizes)
        self.seq = Nested(self.sizes, self.x)
        return [self.seq]

    def call(self, E, args):
        kw = {} if self.u is None else {'unspecified': self.u}
        return E.call(E.getattr_(cls(E, self.f), 'fromobject'), args, kw)

    def content(self, y):
        v = self.x(*[Iv(k) for k in y])
        u = VNONE if self.u is None else self.u
        return z3.If(v == VNONE, u, v)

    def post(self, E, args, r):
        u = VNONE if self.u is None else self.u
        yield 'a storage of that format', E.obj(r) is not None and E.obj(r).cls is cls(E, self.f)
        yield from self.check_shape(E, r, self.sizes)
        yield 'the unspecified value', same(E, attr(E, r, 'unspecified'), u)
        yield from self.check_valid(E, r, self.sizes)
        raw, y = some_index(E, self.sizes)
        self.points(E, y)
        if self.f == 'Buffer':
            yield 'every element reads as in the input', lambda: same(E, E.getitem(r, y[0]), self.content(y))
            yield 'every element reads as in the input (1-tuple)', lambda: same(E, E.getitem(r, CSeq(y)), self.content(y))
        else:
            yield 'every element reads as in the input', lambda: same(E, self.read(E, r, raw), self.content(y))

    def points(self, E, y):
        E.st.notes['points'] = [self.code.pos(y)]
        if self.f in SPARSE and E.branch(same(E, self.content(y), VNONE if self.u is None else self.u)):
            E.st.notes['points'] = []           # nothing is stored for it


@contract('C09')
class BuildElements(Build):
    """fromobject of a nested sequence, then the list of its elements"""

    def post(self, E, args, r):
        C, d, sparse = self.code, self.d, self.f in SPARSE
        u = VNONE if self.u is None else self.u
        els = E.as_plain_seq(E.call_method(r, 'elements', [], {}))
        n = Iv(els.n)

        def item(p):
            return self.pair(E, els.get(Iv(p)))
        if E.branch(n <= 0):
            y = some_index(E, self.sizes, raw=False)[1]
            E.assume(T.inst_quant(E.st.pc, [C.pos(y)]))
            if not sparse:
                yield 'nothing is listed when there are no elements', Not(C.box(y))
                return
            w = Iv(self.position(E, C.pos(y)))
            yield 'nothing is listed when nothing is specified', Or(same(E, self.content(y), u), And(0 <= w, w < n))
            return
        p = E.fresh('p')
        E.assume([0 <= p, p < n])
        E.assume(T.inst_quant(E.st.pc, [p]))
        ix, v = item(p)
        yield 'listed elements are elements of the array', C.box(ix)
        yield 'a listed element has the value it reads', same(E, v, self.content(ix))
        if sparse:
            yield 'listed elements are specified', Not(same(E, v, u))
        q = E.fresh('q')
        E.assume([p < q, q < n])
        E.assume(T.inst_quant(E.st.pc, [q]))
        yield 'the elements are listed once each, in row-major order', lex_less(ix, item(q)[0])
        raw, y = some_index(E, self.sizes, raw=False)
        E.assume(T.inst_quant(E.st.pc, [C.pos(y)]))
        w = Iv(C.pos(y))
        if sparse:
            if E.branch(same(E, self.content(y), u)):
                return
            w = Iv(self.position(E, w))
        yield 'every specified element is listed', z3.And(0 <= w, w < n)
        for fact in E.st.notes.get("compressed", ()):
            yield 'at its row', fact.item(w) == y[0]
            E.assume([fact(y[0], w), fact(y[0] + 1, w)])
        for a, b in reversed(list(zip(item(w)[0], y))):
            yield 'at its index', a == b

    def position(self, E, p):
        """where the element at position p of the input is listed"""
        fs = [f for f in E.filters if not f.its]
        return fs[0].count(p) if fs else z3.IntVal(0)

    def pair(self, E, x):
        ix, v = E.rv(x).items
        ix = E.rv(ix)
        ix = [ix] if is_int(ix) else [E.rv(k) for k in ix.items]
        return [Iv(k) for k in ix], E.rv(v)


# ------------------------------------------------------------------ arbitrary valid arrays

class SparseGhost:
    """The stored elements: F(c), 0 <= c < n, are their row-major positions, strictly increasing; w(c) are the values."""

    def __init__(self, E, code, name):
        self.E, self.code = E, code
        n = self.n = E.fresh(name + 'stored')
        self.F, self.find = E.fresh_fn(name + 'F', Int, Int), E.fresh_fn(name + 'find', Int, Int)
        F, find, tot = self.F, self.find, Iv(code.tot)
        E.assume(n >= 0)
        z = z3.IntVal(0)
        nF, nf = F(z).decl().name(), find(z).decl().name()
        T.TRIGGERS[nF] = [lambda c: [z3.Implies(z3.And(0 <= c, c < n), z3.And(0 <= F(c), F(c) < tot, find(F(c)) == c))]]
        T.TRIGGERS[nf] = [lambda p: [z3.Or(find(p) == -1, z3.And(0 <= find(p), find(p) < n, F(find(p)) == p))]]
        T.PAIR_TRIGGERS[nF] = lambda a, b: [z3.Implies(z3.And(0 <= x, x < y, y < n), F(x) < F(y))
                                            for x, y in ((a[0], b[0]), (b[0], a[0]))]

    def lookup(self, E, p):
        c = simp(self.find(Iv(p)))
        return c if E.branch(c >= 0) else None

    def index(self, c):
        return self.code.digs(self.F(Iv(c)))


class Arr:
    """An arbitrary valid array of the given format and rank: content(y) is the value of element y."""

    def __init__(self, E, fmt, d, name='', sizes=None):
        self.E, self.fmt, self.d = E, fmt, d
        if sizes is None:
            sizes = []
            for j in range(d):
                n = E.fresh(f'{name}n{j}')
                E.assume(n >= 0)
                sizes.append(n)
        self.sizes = sizes
        self.rm = rm_code(E, sizes)
        self.name = name
        getattr(self, 'make_' + fmt)(E)

    def buffer(self, E, name, size, item, u, inside=None):
        """a window of `size` items; item(k) is item k of the window.  inside: bounds of the positions that are used"""
        off, n = E.fresh(name + 'offset'), E.fresh(name + 'length')
        E.assume([Iv(size) >= 0, off >= 0, off + Iv(size) <= n])
        data = E.new_list(SSeq(n, lambda k: item(simp(Iv(k) - off)), 0, 'list'))
        ref = obj(E, 'Buffer', shape=CSeq([size]), size=size, offset=off, data=data, _unspecified=u)
        return ref, off, n

    def make_Buffer(self, E):
        self.f, self.u = E.fresh_fn(self.name + 'item', Int, V), E.fresh(self.name + 'u', V)
        self.ref, self.off, self.n = self.buffer(E, self.name, self.sizes[0], lambda k: self.f(Iv(k)), self.u)
        self.code = self.rm
        self.data = self.ref

    def make_Strided(self, E):
        sz, off, n = E.fresh(self.name + 'size'), E.fresh(self.name + 'offset'), E.fresh(self.name + 'length')
        st = [E.fresh(f'{self.name}stride{j}') for j in range(self.d)]
        self.code = C = code_of(E, self.sizes, st, make=True)
        self.strides, self.wsize, self.off, self.n = st, sz, off, n
        E.assume([sz >= 0, off >= 0, off + sz <= n])
        T.TRIGGERS[C.fpos.name()].append(lambda *y: [z3.Implies(C.box(y), z3.And(0 <= off + C.fpos(*y), C.fpos(*y) < sz))])
        E.assume(C.fpos(*[z3.IntVal(0)] * self.d) == 0)
        self.f, self.u = E.fresh_fn(self.name + 'item', Int, V), E.fresh(self.name + 'u', V)
        # the list is indexed with off + position
        data = E.new_list(SSeq(n, lambda k: self.f(Iv(k)), 0, 'list'))
        self.list = data
        self.data = obj(E, 'Buffer', shape=CSeq([sz]), size=sz, offset=off, data=data, _unspecified=self.u)
        self.ref = obj(E, 'Strided', shape=CSeq(self.sizes), _strides=CSeq(st), data=self.data, size=prod_of(self.sizes))

    def ghost(self, E):
        self.code = self.rm
        self.g = g = SparseGhost(E, self.rm, self.name)
        self.f, self.u = E.fresh_fn(self.name + 'value', Int, V), E.fresh(self.name + 'u', V)
        self.data, self.off, self.n = self.buffer(E, self.name + 'data', g.n, lambda k: self.f(Iv(k)), self.u)
        self.list = E.obj(self.data).attrs['data']
        return g

    def make_FlatCOO(self, E):
        g = self.ghost(E)
        fi, _, _ = self.buffer(E, self.name + 'findices', g.n, lambda k: g.F(Iv(k)), None)
        set_ghost(E, fi, g)
        self.ref = obj(E, 'FlatCOO', shape=CSeq(self.sizes), findices=fi, data=self.data, size=g.n)

    def make_COO(self, E):
        g, d = self.ghost(E), self.d
        st = [E.fresh(f'{self.name}istride{j}') for j in range(2)]
        C = code_of(E, [d, g.n], st, make=True)
        sz, off, n = E.fresh(self.name + 'isize'), E.fresh(self.name + 'ioffset'), E.fresh(self.name + 'ilength')
        E.assume([sz >= 0, off >= 0, off + sz <= n])
        T.TRIGGERS[C.fpos.name()].append(lambda *y: [z3.Implies(C.box(y), z3.And(0 <= off + C.fpos(*y), C.fpos(*y) < sz))])
        E.assume(C.fpos(0, 0) == 0)

        def item(k):
            p = simp(Iv(k) - off)
            c = C.dig(p, 1)
            j = C.dig(p, 0)
            F = g.F(Iv(c))
            r = Iv(g.code.dig(F, d - 1))
            for i in range(d - 2, -1, -1):
                r = ite_val(simp(Iv(j) == i), g.code.dig(F, i), r)
            return r
        data = E.new_list(SSeq(n, item, 0, 'list'))
        ib = obj(E, 'Buffer', shape=CSeq([sz]), size=sz, offset=off, data=data, _unspecified=None)
        ind = obj(E, 'Strided', shape=CSeq([d, g.n]), _strides=CSeq(st), data=ib, size=simp(d * g.n))
        set_ghost(E, ind, g)
        self.ref = obj(E, 'COO', shape=CSeq(self.sizes), indices=ind, data=self.data, size=g.n)

    def make_CSR(self, E):
        g = self.ghost(E)
        rows = Iv(self.sizes[0])
        crow = self.crow = E.fresh_fn(self.name + 'crow', Int, Int)
        nm = crow(z3.IntVal(0)).decl().name()
        n, F, D0 = g.n, g.F, (lambda p: Iv(g.code.fdig[0](p)))
        T.TRIGGERS[nm] = [lambda r: [z3.Implies(z3.And(0 <= r, r <= rows), z3.And(
            0 <= crow(r), crow(r) <= n, z3.Implies(crow(r) > 0, D0(F(crow(r) - 1)) < r),
            z3.Implies(crow(r) < n, D0(F(crow(r))) >= r)))]]
        E.assume([crow(0) == 0, crow(rows) == n])
        ci, _, _ = self.buffer(E, self.name + 'crow', simp(rows + 1), lambda k: crow(Iv(k)), None)
        co, _, _ = self.buffer(E, self.name + 'col', n, lambda k: g.code.dig(g.F(Iv(k)), 1), None)
        set_ghost(E, ci, g)
        set_ghost(E, co, g)
        self.ref = obj(E, 'CSR', shape=CSeq(self.sizes), crow_indices=ci, col_indices=co, data=self.data, size=n)

    # what the array holds
    def stored(self, y):
        """is the element stored?"""
        if self.fmt in SPARSE:
            return self.g.find(Iv(self.code.pos(y))) >= 0
        return z3.BoolVal(True)

    def content(self, y):
        if self.fmt == 'Buffer':
            return self.f(Iv(y[0]))
        if self.fmt == 'Strided':
            return self.f(simp(self.off + Iv(self.code.pos(y))))
        c = self.g.find(Iv(self.code.pos(y)))
        return z3.If(c >= 0, self.f(c), self.u)

    def points(self, y):
        """the position that represents element y in loops over the array"""
        p = self.rm.pos(y)
        return [p, self.g.find(Iv(p))] if self.fmt in SPARSE else [p]


def patterns(d):
    out = [[]]
    for _ in range(d):
        out = [p + [k] for p in out for k in ('int', 'slice', 'all')]
    return [p for p in out if any(k != 'int' for k in p)]


def user_index(E, sizes, pattern):
    """an index as a user writes it, and its selection"""
    index, items = [], []
    for j, (k, n) in enumerate(zip(pattern, sizes)):
        n = Iv(n)
        if k == 'int':
            i = E.fresh(f'i{j}')
            E.assume([-n <= i, i < n])
            index.append(i)
            items.append(('int', simp(z3.If(i < 0, i + n, i))))
        elif k == 'slice':
            parts = []
            for p in ('start', 'stop', 'step'):
                h, v = E.fresh(f'has_{p}{j}', Bool), E.fresh(f'{p}{j}')
                if p == 'step':
                    E.assume(z3.Implies(h, v != 0))
                parts.append(U([(h, v), (True, None)]))
            s = SliceVal(*parts)
            index.append(s)
            items.append(('slice', SliceSpec.args(s, n)))
        else:
            index.append(None)
            items.append(('all', None))
    if pattern[-1] == 'all':
        index.pop()                     # an omitted axis
    return CSeq(index), Selection(E, items, sizes)


@contract('C12')
class Slicing(_Array):
    """indexing any valid array with any index that does not select a single element, then reading any element of the result"""
    target = STORE + 'Storage.__getitem__'
    lemmas = SLICE_LINKS
    formats = ('Strided', 'FlatCOO', 'COO', 'CSR')

    def cases(self, E):
        return [(f'{f} [{", ".join(p)}]', lambda f=f, d=d, p=p: self.build(E, f, p))
                for f in self.formats for d in ranks(f) for p in patterns(d)]

    def build(self, E, f, p):
        enable(E)
        self.f, self.p = f, p
        self.A = A = Arr(E, f, len(p))
        T.TRIGGERS[SEL.name()] = [on_sel]
        self.index, self.S = user_index(E, A.sizes, p)
        return [A.ref, self.index]

    def call(self, E, args):
        return E.getitem(args[0], args[1])

    def post(self, E, args, r):
        A, S = self.A, self.S
        want = self.f if not (self.f == 'CSR' and len(S.shape) == 1) else 'COO'
        yield 'a storage of that format', E.obj(r) is not None and E.obj(r).cls is cls(E, want)
        yield from self.check_shape(E, r, S.shape)
        yield from self.check_valid(E, r, S.shape)
        if self.f == 'Strided':
            yield 'the data is shared', E.obj(attr(E, r, 'data')).attrs['data'] == A.list
        raw, y = some_index(E, S.shape)
        m = S.map(y)
        E.st.notes['points'] = A.points(m)
        E.assume(T.inst_quant(E.st.pc, [A.code.pos(m)]))
        E.assume(A.code.box(m))                 # Selection: selected elements are inside (C01)
        for C in E.st.notes.get('slices', ()):
            yield 'the element is part of the slice', z3.And(
                C.has(C.pos_raw(y)), C.offset + C.fpos(*y) == C.source_offset + Iv(C.source.pos_raw(m)))
        if self.f in SPARSE and E.branch(same(E, A.content(m), A.u)):
            E.st.notes['points'] = []
        yield 'every element reads as the selected one', lambda: same(E, self.read(E, r, raw), A.content(m))


def renamed(v, u, u2):
    """v, with the unspecified value u replaced by u2"""
    return v if u2 is None else z3.If(v == u, u2, v)


def lists_of(E, o, seen=None):
    """the data lists that the object refers to"""
    out = set()
    o = E.rv(o)
    if isinstance(o, Ref):
        rec = E.st.heap[o.id]
        if isinstance(rec, ListRec):
            out.add(o.id)
        else:
            for v in rec.attrs.values():
                out |= lists_of(E, v)
    elif isinstance(o, CSeq):
        for v in o.items:
            out |= lists_of(E, v)
    return out


@contract('C15')
class Copy(_Array):
    """copying any valid array, with or without a new unspecified value, then reading any element"""
    target = STORE + 'Storage.copy'
    lemmas = LINKS
    formats = ('Buffer', 'Strided', 'FlatCOO', 'COO', 'CSR')

    def cases(self, E):
        return [(f'{f} rank {d}' + (' unspecified given' if u else ''), lambda f=f, d=d, u=u: self.build(E, f, d, u))
                for f in self.formats for d in ranks(f) for u in (False, True)]

    def build(self, E, f, d, u):
        enable(E)
        self.f, self.d = f, d
        self.A = A = self.array(E, f, d)
        self.u = E.fresh('u2', V) if u else None
        self.before = {i: rec for i, rec in E.st.heap.items()}
        return [A.ref]

    def array(self, E, f, d):
        return Arr(E, f, d)

    def list_of(self, E, o):
        return E.obj(o).attrs['data'] if self.f == 'Buffer' else attr(E, attr(E, o, 'data'), 'data')

    def call(self, E, args):
        return E.call_method(args[0], 'copy', [], {} if self.u is None else {'unspecified': self.u})

    def post(self, E, args, r):
        A = self.A
        yield 'a new storage of that format', E.obj(r) is not None and E.obj(r).cls is cls(E, E.obj(A.ref).cls.name) and r.id not in self.before
        yield from self.check_shape(E, r, A.sizes)
        yield from self.check_valid(E, r, A.sizes)
        yield 'the unspecified value', same(E, attr(E, r, 'unspecified'), A.u if self.u is None else self.u)
        yield 'the values are kept in a new list', self.list_of(E, r).id not in self.before
        raw, y = some_index(E, A.sizes)
        E.st.notes['points'] = A.points(y)
        want = renamed(A.content(y), A.u, self.u)
        if self.f == 'Buffer':
            yield 'every element reads the same', lambda: same(E, E.getitem(r, y[0]), want)
            yield 'the source reads as before', lambda: same(E, E.getitem(A.ref, y[0]), A.content(y))
        else:
            yield 'every element reads the same', lambda: same(E, self.read(E, r, raw), want)
            yield 'the source reads as before', lambda: same(E, self.read(E, A.ref, raw), A.content(y))


def slice_patterns(d):
    out = [[]]
    for _ in range(d):
        out = [p + [k] for p in out for k in ('int', 'slice', 'all')]
    return out


@contract('C14')
class Assign(_Array):
    """assigning a value, or the items of a nested sequence, to any element or slice of any valid array"""
    target = STORE + 'Storage.__setitem__'
    lemmas = SLICE_LINKS
    formats = ('Strided', 'FlatCOO', 'COO', 'CSR')

    def cases(self, E):
        return [(f'{f} [{", ".join(p)}] = {k}', lambda f=f, p=p, k=k: self.build(E, f, p, k))
                for f in self.formats for d in ranks(f) for p in slice_patterns(d)
                for k in (('value',) if all(x == 'int' for x in p) else ('sequence',) if d > 2 else ('sequence', 'Strided', 'COO'))]

    def build(self, E, f, p, kind):
        enable(E)
        self.f, self.p = f, p
        self.A = A = self.array(E, f, len(p))
        T.TRIGGERS[SEL.name()] = [on_sel]
        self.index, self.S = user_index(E, A.sizes, p)
        if kind == 'value':
            self.v = E.fresh('v', V)
            self.new = lambda j: self.v
        elif kind != 'sequence':
            for it in self.S.items:
                if it[0] == 'slice':
                    E.assume(SliceSpec.pc(*it[1]) >= 0)      # C01
            W = Arr(E, kind, len(self.S.shape), 'v', sizes=[Iv(n) for n in self.S.shape])
            self.v, self.new = W.ref, W.content
        else:
            fn = E.fresh_fn('v', *[Int] * len(self.S.shape), V)
            for n in self.S.shape[:-1]:
                E.assume(Iv(n) >= 1)
            self.v = Nested([Iv(n) for n in self.S.shape], fn)
            self.new = lambda j: fn(*j)
        self.before = E.st.heap
        return [A.ref, self.index, self.v]

    def array(self, E, f, d):
        return Arr(E, f, d)

    def call(self, E, args):
        E.setitem(*args)
        return None

    def selected(self, y):
        """the index in the slice that selects element y, and the condition that there is one"""
        j, c = [], []
        for it, v in zip(self.S.items, y):
            if it[0] == 'int':
                c.append(Iv(it[1]) == v)
            elif it[0] == 'slice':
                w = INV(*it[1], v)
                j.append(w)
                c += [0 <= w, w < SliceSpec.pc(*it[1]), SEL(*it[1], w) == v]
            else:
                j.append(v)
        return z3.And(*c), j

    def selectors(self, E, args):
        def sel(E, a):
            out, p = [], simp(Iv(a) - self.A.off)
            if self.f == 'Strided':
                for C in E.st.notes.get('slices', ()) or (self.A.code,):
                    D = rm_code(E, [conc(n) for n in C.sizes])
                    out.append(D.pos_raw(C.digs(p if C is self.A.code else simp(p - C.offset))))
            for FS in E.filters:
                if not FS.its:
                    out.append(Iv(FS.count(p)))
            return out
        return [sel]

    def post(self, E, args, r):
        A = self.A
        yield from self.check_shape(E, A.ref, A.sizes)
        raw, y = some_index(E, A.sizes)
        E.st.notes['points'] = A.points(y)
        c, j = self.selected(y)
        if E.branch(z3.And(c, A.stored(y))):
            want = self.new(j)
            for C in E.st.notes.get('slices', ()):
                yield 'the element is part of the slice', z3.And(
                    C.has(C.pos_raw(j)), C.offset + C.fpos(*[Iv(v) for v in j]) == C.source_offset + Iv(C.source.pos_raw(y)))
        else:
            want = A.content(y)
        yield 'addressed elements read as the value, all others as before', lambda: same(E, self.read(E, A.ref, raw), want)
        lists = {i for i, rec in self.before.items() if isinstance(rec, ListRec)}
        yield 'only the values are changed', all(
            rec is E.st.heap[i] or i == A.list.id or not isinstance(rec, ListRec) and all(
                E.st.heap[i].attrs.get(k) is v for k, v in rec.attrs.items()) for i, rec in self.before.items())


@contract('C14')
class AssignThrough(Assign):
    """assigning to an element, or to all elements, of a slice of a strided array; then reading the array"""

    def cases(self, E):
        return [(f'Strided [{", ".join(p)}]{k}', lambda p=p, k=k: self.build(E, 'Strided', p, k))
                for d in ranks('Strided') for p in patterns(d) for k in ('[index] = value', '[...] = sequence')]

    def build(self, E, f, p, kind):
        args = super().build(E, f, p, 'sequence')
        if kind == '[index] = value':
            raw, self.z = some_index(E, self.S.shape, 'z')
            self.v = E.fresh('v', V)
            self.new = lambda j: self.v
            self.index2 = CSeq(raw)
        else:
            self.z, self.index2 = None, CSeq([None] * len(self.S.shape))
        return args

    def call(self, E, args):
        E.setitem(E.getitem(args[0], args[1]), self.index2, self.v)
        return None

    def selected(self, y):
        if self.z is None:
            return super().selected(y)
        return z3.And(*[a == b for a, b in zip(self.S.map(self.z), y)]), self.z


@contract('C15')
class CopyIndependent(Copy):
    """copying, assigning to any element of the copy (of the source), then reading any element of both"""
    lemmas = SLICE_LINKS

    def cases(self, E):
        return [(f'{f} rank {d}' + (' unspecified given' if u else '') + f', the {w} is assigned', lambda f=f, d=d, u=u, w=w: self.build2(E, f, d, u, w))
                for f in self.formats for d in ranks(f) for u in (False, True) for w in ('copy', 'source')]

    def build2(self, E, f, d, u, which):
        self.which = which
        args = self.build(E, f, d, u)
        self.raw, self.z = some_index(E, self.A.sizes, 'z', raw=f != 'Buffer')
        self.v = E.fresh('v', V)
        return args

    def selectors(self, E, args):
        def sel(E, a):
            out = []
            for p in (Iv(a), simp(Iv(a) - self.A.off)):
                if self.f == 'Strided':
                    out.append(rm_code(E, [conc(n) for n in self.A.sizes]).pos_raw(self.A.code.digs(p)))
                    out.append(p)
                for FS in E.filters:
                    if not FS.its:
                        out.append(Iv(FS.count(p)))
            return out
        return [sel]

    def call(self, E, args):
        r = super().call(E, args)
        E.setitem(r if self.which == 'copy' else self.A.ref, CSeq(self.raw), self.v)
        return r

    def post(self, E, args, r):
        A, z = self.A, self.z
        raw, y = some_index(E, A.sizes, raw=self.f != 'Buffer')
        E.st.notes['points'] = A.points(y)
        own = A.content(y)
        hit = z3.And(A.stored(y), *[a == b for a, b in zip(y, z)])
        new = z3.If(hit, self.v, own)
        yield 'the source', lambda: same(E, self.read(E, A.ref, raw), own if self.which == 'copy' else new)
        mine = renamed(own, A.u, self.u)
        yield 'the copy', lambda: same(E, self.read(E, r, raw), z3.If(hit, self.v, mine) if self.which == 'copy' else mine)


@contract('C10')
class Convert(Copy):
    """converting any valid array of one format into another one (or the same), then reading any element"""
    target = STORE + 'Strided.fromobject'
    lemmas = SLICE_LINKS

    def cases(self, E):
        return [(f'{f} to {t} rank {d}' + (' unspecified given' if u else ''), lambda f=f, t=t, d=d, u=u: self.build3(E, f, t, d, u))
                for f in self.formats for t in self.formats for d in ranks(f) if d in ranks(t) for u in (False, True)]

    def build3(self, E, f, t, d, u):
        self.t = t
        return self.build(E, f, d, u)

    def call(self, E, args):
        return E.call_method(args[0], 'as_' + self.t, [], {} if self.u is None else {'unspecified': self.u})

    def post(self, E, args, r):
        A, u2 = self.A, self.A.u if self.u is None else self.u
        yield 'a storage of that format', E.obj(r) is not None and E.obj(r).cls is cls(E, self.t)
        yield from self.check_shape(E, r, A.sizes)
        yield from self.check_valid(E, r, A.sizes)
        yield 'the unspecified value', same(E, attr(E, r, 'unspecified'), u2)
        raw, y = some_index(E, A.sizes, raw=self.t != 'Buffer')
        want = renamed(A.content(y), A.u, self.u)
        E.st.notes['points'] = A.points(y)
        if self.t in SPARSE and E.branch(same(E, want, u2)):
            E.st.notes['points'] = []
        yield 'every element reads the same', lambda: same(E, self.read(E, r, raw), want)
        raw, y = some_index(E, A.sizes, raw=self.f != 'Buffer')
        E.st.notes['points'] = A.points(y)
        yield 'the source reads as before', lambda: same(E, self.read(E, A.ref, raw), A.content(y))
