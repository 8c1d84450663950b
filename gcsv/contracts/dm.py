"""Contracts for the dimensions mapping format: concrete rank and mapping, any sizes and contents."""
import itertools

from .arrays import *  # noqa
from .arrays import _Array
from . import arrays, base, layout, reduction, strided

DM_LINKS = SLICE_LINKS + (layout.GetRPosition, reduction.StorageReduction, reduction.StoragePromoteInt, reduction.RadixDigit,
                          strided.ShapeStrided)


def mappings(d):
    """all (dimensions, partitioning)"""
    out = []
    for p in itertools.permutations(range(d)):
        for m in range(d):
            for c in itertools.combinations(range(1, d), m):
                out.append((p, c))
    return out


def few_mappings(d):
    """all mappings up to rank 2; of rank 3, one permutation per partitioning (all in the thorough tier)"""
    for dims, cuts in mappings(d):
        if d < 3 or is_few(dims, cuts) or base.TIER != 'quick':
            yield dims, cuts


def is_few(dims, cuts):
    return len(dims) < 3 or dims == {(): (0, 2, 1), (1,): (2, 0, 1), (2,): (1, 2, 0), (1, 2): (2, 0, 1)}[cuts]


def groups_of(dims, cuts):
    b = (0,) + tuple(cuts) + (len(dims),)
    return [dims[b[k]:b[k + 1]] for k in range(len(b) - 1)]


def formats_for(m):
    return {1: ('Buffer', 'Strided', 'FlatCOO', 'COO'), 2: ('Strided', 'FlatCOO', 'COO', 'CSR')}.get(m, ('Strided', 'FlatCOO', 'COO'))


def name_of(dims, cuts):
    return '|'.join(''.join(map(str, g)) for g in groups_of(dims, cuts))


class DMArr:
    """An arbitrary valid DM array: every group of axes has a numbering of its own, inside one axis of the data"""
    fmt = 'DM'

    def __init__(self, E, fmt, groups, name='', sizes=None):
        self.E, self.groups = E, groups
        d = self.d = sum(map(len, groups))
        if sizes is None:
            sizes = []
            for j in range(d):
                n = E.fresh(f'{name}n{j}')
                E.assume(n >= 0)
                sizes.append(n)
        self.sizes = sizes
        self.rm = self.code = rm_code(E, sizes)
        self.A = A = Arr(E, fmt, len(groups), name + 'data_')
        self.codes, self.roff, rshapes, rstrides = [], [], [], []
        for k, g in enumerate(groups):
            st = [E.fresh(f'{name}rstride{k}_{j}') for j in range(len(g))]
            gs = [sizes[a] for a in g]
            C = code_of(E, gs, st, make=True)
            o = E.fresh(f'{name}roffset{k}')
            T.TRIGGERS[C.fpos.name()].append(lambda *y, C=C, o=o, n=A.sizes[k]: [
                z3.Implies(C.box(y), z3.And(0 <= o + C.fpos(*y), o + C.fpos(*y) < Iv(n)))])
            E.assume(C.fpos(*[z3.IntVal(0)] * len(g)) == 0)
            self.codes.append(C)
            self.roff.append(o)
            rshapes.append(CSeq(gs))
            rstrides.append(CSeq(st))
        self.u, self.off, self.list = A.u, A.off, E.obj(A.data).attrs['data']
        size = E.obj(A.ref).attrs['size']
        self.ref = obj(E, 'DM', shape=CSeq(sizes), rdimensions=CSeq([CSeq(list(g)) for g in groups]), rshapes=CSeq(rshapes),
                       rstrides=CSeq(rstrides), roffset=CSeq(self.roff), data=A.ref, size=size)

    def rindex(self, y):
        return [simp(o + Iv(C.pos([y[a] for a in g]))) for o, C, g in zip(self.roff, self.codes, self.groups)]

    def content(self, y):
        return self.A.content(self.rindex(y))

    def stored(self, y):
        return self.A.stored(self.rindex(y))

    def points(self, y):
        return [self.rm.pos(y)] + self.A.points(self.rindex(y))


class _DM(_Array):
    def check_valid(self, E, r, sizes):
        if E.obj(r).cls.name != 'DM':
            yield from super().check_valid(E, r, sizes)
            return
        data = attr(E, r, 'data')
        yield from super().check_valid(E, data, ints(E, attr(E, data, 'shape')))
        yield from self.check_dm(E, r, sizes)

    def check_dm(self, E, r, sizes):
        """the representation invariant that the arbitrary DM arrays have"""
        data = attr(E, r, 'data')
        rshapes, rdims, rstrides = [concrete(E, attr(E, r, a)) for a in ('rshapes', 'rdimensions', 'rstrides')]
        roff = ints(E, attr(E, r, 'roffset'))
        rsizes = ints(E, attr(E, data, 'shape'))
        groups = [ints(E, g) for g in rdims]
        yield 'one group of axes per axis of the storage', len(rshapes) == len(rdims) == len(rstrides) == len(roff) == len(rsizes)
        yield 'every axis is in one group', sorted(a for g in groups for a in g) == list(range(len(sizes)))
        yield 'size', Iv(E.num(attr(E, r, 'size'))) == Iv(E.num(attr(E, data, 'size')))
        for k, g in enumerate(groups):
            gs, st = ints(E, rshapes[k]), ints(E, rstrides[k])
            yield f'lengths of group {k}', And(len(gs) == len(st) == len(g), *[Iv(n) == Iv(sizes[a]) for n, a in zip(gs, g)])
            at = lambda v: Iv(roff[k]) + Iv(E.num(E.call(E.func(STORE + 'get_rposition'), [CSeq(v), rstrides[k], rshapes[k], rdims[k]])))
            y, z = [some_index(E, sizes, c, raw=False)[1] for c in 'ef']
            py, pz = at(y), at(z)
            yield f'group {k} is inside its axis of the storage', z3.And(0 <= py, py < Iv(rsizes[k]))
            yield f'group {k} has a place for every item', z3.Implies(py == pz, z3.And(*[y[a] == z[a] for a in g]))


@contract('C11')
class BuildDM(_DM):
    """DM.fromobject of a nested sequence, then reading any element and mapping any index both ways"""
    target = STORE + 'DM.fromobject'
    lemmas = DM_LINKS

    def cases(self, E):
        out = []
        for d in (1, 2, 3):
            for dims, cuts in mappings(d):
                for f in formats_for(len(cuts) + 1):
                    if f in ('COO', 'CSR') and not is_few(dims, cuts) and base.TIER == 'quick':
                        continue
                    for u in (False, True):
                        out.append((f'{name_of(dims, cuts)} {f}' + (' unspecified given' if u else ''),
                                    lambda d=d, dims=dims, cuts=cuts, f=f, u=u: self.build(E, d, dims, cuts, f, u)))
        return out

    def build(self, E, d, dims, cuts, f, u):
        enable(E)
        self.f, self.d, self.groups = f, d, groups_of(dims, cuts)
        self.sizes = shape_terms(E, d)
        self.x = E.fresh_fn('x', *[Int] * d, V)
        self.u = E.fresh('u', V) if u else None
        self.kw = dict(dimensions=CSeq(list(dims)), partitioning=CSeq(list(cuts)), storage_class=cls(E, f))
        if dims == tuple(range(d)):
            del self.kw['dimensions']
        if len(cuts) == 1:
            self.kw['partitioning'] = cuts[0]
            if cuts == (d - 1,):
                del self.kw['partitioning']
        if f == 'Strided':
            del self.kw['storage_class']
        self.seq = Nested(self.sizes, self.x)
        return [self.seq]

    def call(self, E, args):
        return E.call(E.getattr_(cls(E, 'DM'), 'fromobject'), args, dict(self.kw, **({} if self.u is None else {'unspecified': self.u})))

    content = arrays.Build.content

    def post(self, E, args, r):
        u = VNONE if self.u is None else self.u
        yield 'a DM array', E.obj(r) is not None and E.obj(r).cls is cls(E, 'DM')
        yield from self.check_shape(E, r, self.sizes)
        data = attr(E, r, 'data')
        yield 'the storage has that format', E.obj(data) is not None and E.obj(data).cls is cls(E, self.f)
        rsizes = [prod_of([self.sizes[a] for a in g]) for g in self.groups]
        yield from self.check_shape(E, data, rsizes)
        yield from self.check_valid(E, data, rsizes)
        yield 'the unspecified value', same(E, attr(E, r, 'unspecified'), u)
        yield from self.check_dm(E, r, self.sizes)
        yield from self.maps(E, r, rsizes)
        raw, y = some_index(E, self.sizes)
        self.R = R = rm_code(E, rsizes)
        codes = [rm_code(E, [self.sizes[a] for a in g]) for g in self.groups]
        ry = [c.pos([y[a] for a in g]) for c, g in zip(codes, self.groups)]
        E.st.notes['points'] = [R.pos(ry)]
        if self.f in SPARSE and E.branch(same(E, self.content(y), u)):
            E.st.notes['points'] = []
        yield 'every element reads as in the input', lambda: same(E, self.read(E, r, raw), self.content(y))

    def maps(self, E, r, rsizes):
        at = lambda y: [Iv(v) for v in ints(E, E.call_method(r, 'get_data_position', [CSeq(y)], {}))]
        y, z, p = [some_index(E, s, nm, raw=False)[1] for s, nm in ((self.sizes, 'y'), (self.sizes, 'z'), (rsizes, 'p'))]
        ry, rz = at(y), at(z)
        inside = lambda v: z3.And(*[z3.And(0 <= a, a < Iv(n)) for a, n in zip(v, rsizes)])
        yield 'an element has its place inside the storage', And(len(ry) == len(rsizes), inside(ry))
        yield 'distinct elements have distinct places', z3.Implies(
            z3.And(*[a == b for a, b in zip(ry, rz)]), z3.And(*[a == b for a, b in zip(y, z)]))
        w = ints(E, E.call(E.func(STORE + 'promote_index'), [attr(E, r, 'rshapes'), attr(E, r, 'rdimensions'), attr(E, r, 'rstrides'),
                                                           attr(E, r, 'roffset'), CSeq(p)]))
        yield 'a place is that of an element', And(len(w) == self.d, z3.And(*[z3.And(0 <= Iv(a), Iv(a) < Iv(n)) for a, n in zip(w, self.sizes)]))
        yield 'which is the one that is mapped to it', z3.And(*[a == b for a, b in zip(at(w), p)])


@contract('C13')
class SlicingDM(_DM):
    """indexing any valid DM array with any index that does not select a single element, then reading any element of the result"""
    target = STORE + 'DM.__getitem__'
    lemmas = DM_LINKS

    def cases(self, E):
        out = []
        for d in (1, 2, 3):
            for dims, cuts in mappings(d):
                for f in formats_for(len(cuts) + 1):
                    for p in patterns(d):
                        if d > 2 and not (sorted(p) == ['all', 'int', 'slice'] and (f == 'Strided' or is_few(dims, cuts))) and not (
                                sorted(p) == ['int', 'int', 'slice'] and f == 'Strided') and base.TIER == 'quick':
                            continue
                        out.append((f'{name_of(dims, cuts)} {f} [{", ".join(p)}]', lambda dims=dims, cuts=cuts, f=f, p=p: self.build(E, f, groups_of(dims, cuts), p)))
        return out

    def build(self, E, f, groups, p):
        enable(E)
        self.f, self.groups, self.p = f, groups, p
        self.A = A = DMArr(E, f, groups)
        T.TRIGGERS[SEL.name()] = [on_sel]
        self.index, self.S = user_index(E, A.sizes, p)
        self.before = E.st.heap
        return [A.ref, self.index]

    def call(self, E, args):
        return E.getitem(args[0], args[1])

    def post(self, E, args, r):
        A, S = self.A, self.S
        yield 'a DM array', E.obj(r) is not None and E.obj(r).cls is cls(E, 'DM')
        yield from self.check_shape(E, r, S.shape)
        data = attr(E, r, 'data')
        fixed = [all(self.p[a] == 'int' for a in g) for g in self.groups]
        if not any(fixed):
            yield 'the storage is shared', data == A.A.ref
        else:
            yield from self.check_valid(E, data, ints(E, attr(E, data, 'shape')))
        yield 'nothing is changed', all(E.st.heap[i] is rec or not isinstance(rec, ListRec) and all(
            E.st.heap[i].attrs.get(k) is v for k, v in rec.attrs.items()) for i, rec in self.before.items())
        yield from self.check_dm(E, r, S.shape)
        raw, y = some_index(E, S.shape)
        m = S.map(y)
        E.st.notes['points'] = A.points(m)
        E.assume(T.inst_quant(E.st.pc, [Iv(x) for x in A.rindex(m)]))
        E.assume(A.code.box(m))                 # Selection: selected elements are inside (C01)
        place = [Iv(v) for v in ints(E, E.call_method(r, 'get_data_position', [CSeq(y)], {}))]
        want = [Iv(v) for v, x in zip(A.rindex(m), fixed) if not x]
        for k, (a, b) in enumerate(zip(place, want)):
            yield f'place along axis {k} of the storage', a == b
        for C in E.st.notes.get('slices', ()):
            if C.source is A.A.code:
                yield 'the element is part of the slice of the storage', z3.And(C.has(C.pos_raw(place)), C.offset + Iv(
                    C.pos_raw(place)) == C.source_offset + Iv(C.source.pos_raw(A.rindex(m))))
        if any(fixed) and self.f in SPARSE and E.branch(same(E, A.content(m), A.u)):
            E.st.notes['points'] = []
        yield 'every element reads as the selected one', lambda: same(E, self.read(E, r, raw), A.content(m))


@contract('C14')
class AssignDM(arrays.Assign):
    """assigning a value, or the items of a nested sequence or storage, to any element or slice of any valid DM array"""
    lemmas = DM_LINKS + (arrays.Assign,)

    def cases(self, E):
        out = []
        for d in (1, 2, 3):
            for dims, cuts in few_mappings(d):
                for f in formats_for(len(cuts) + 1):
                    for p in slice_patterns(d):
                        if d > 2 and sorted(p) not in (['all', 'int', 'slice'], ['int'] * 3) and base.TIER == 'quick':
                            continue
                        for k in ('value',) if all(x == 'int' for x in p) else ('sequence',):
                            out.append((f'{name_of(dims, cuts)} {f} [{", ".join(p)}] = {k}', lambda dims=dims, cuts=cuts, f=f, p=p, k=k:
                                        self.build_dm(E, f, groups_of(dims, cuts), p, k)))
        return out

    def build_dm(self, E, f, groups, p, kind):
        self.groups = groups
        args = self.build(E, f, p, kind)
        E.assign_element = True
        return args

    def array(self, E, f, d):
        return DMArr(E, f, self.groups)

    def selectors(self, E, args):
        D, A = self.A, self.A.A

        def sel(E, a):
            p = simp(Iv(a) - A.off)
            if self.f in SPARSE:
                p = A.g.F(p)
            rd = A.code.digs(p) if self.f != 'Buffer' else [p]
            y = {}
            for C, o, v, g in zip(D.codes, D.roff, rd, self.groups):
                for j, ax in enumerate(g):
                    y[ax] = C.dig(simp(Iv(v) - o), j)
            k = D.rm.pos_raw([y[j] for j in range(D.d)])
            out = [k]
            for FS in E.filters:
                if not FS.its:
                    out.append(Iv(FS.count(k)))
            return out
        return [sel]


@contract('C15')
class CopyDM(_DM, arrays.Copy):
    """copying any valid DM array, with or without a new unspecified value, then reading any element"""
    lemmas = DM_LINKS

    def cases(self, E):
        return [(f'{name_of(dims, cuts)} {f}' + (' unspecified given' if u else ''), lambda dims=dims, cuts=cuts, f=f, u=u: self.build_dm(E, dims, cuts, f, u))
                for d in (1, 2, 3) for dims, cuts in few_mappings(d) for f in formats_for(len(cuts) + 1) for u in (False, True)]

    def build_dm(self, E, dims, cuts, f, u):
        self.groups, self.g = groups_of(dims, cuts), f
        return self.build(E, f, len(dims), u)

    def array(self, E, f, d):
        return DMArr(E, f, self.groups)

    def list_of(self, E, o):
        o = attr(E, o, 'data')
        return E.obj(o).attrs['data'] if self.g == 'Buffer' else attr(E, attr(E, o, 'data'), 'data')

    def build(self, E, f, d, u):
        args = super().build(E, f, d, u)
        self.f = 'DM'
        return args


@contract('C15')
class CopyIndependentDM(CopyDM, arrays.CopyIndependent):
    """copying, assigning to any element of the copy (of the source), then reading any element of both"""
    lemmas = DM_LINKS + (arrays.Assign,)

    def cases(self, E):
        return [(f'{name_of(dims, cuts)} {f}' + (' unspecified given' if u else '') + f', the {w} is assigned',
                 lambda dims=dims, cuts=cuts, f=f, u=u, w=w: self.build_w(E, dims, cuts, f, u, w))
                for d in (1, 2, 3) for dims, cuts in few_mappings(d) for f in formats_for(len(cuts) + 1) for u in (False, True)
                for w in ('copy', 'source') if d < 3 or not u]

    def build_w(self, E, dims, cuts, f, u, which):
        self.which = which
        args = self.build_dm(E, dims, cuts, f, u)
        E.assign_element = True
        self.raw, self.z = some_index(E, self.A.sizes, 'z')
        self.v = E.fresh('v', V)
        return args

    def selectors(self, E, args):
        D, A = self.A, self.A.A

        def sel(E, a):
            out = []
            for p in (Iv(a), simp(Iv(a) - A.off)):
                ps = [A.g.F(p)] if self.g in SPARSE else [p] if self.g == 'Buffer' else [p]
                rds = []
                for q in ps:
                    rds.append([q] if self.g == 'Buffer' else A.code.digs(q))
                    if self.g == 'Strided':
                        rds.append(A.rm.digs(q))
                        out += [q, A.rm.pos_raw(A.code.digs(q))]
                for rd in rds:
                    y = {}
                    for C, o, v, g in zip(D.codes, D.roff, rd, self.groups):
                        for j, ax in enumerate(g):
                            y[ax] = C.dig(simp(Iv(v) - o), j)
                    k = D.rm.pos_raw([y[j] for j in range(D.d)])
                    out.append(k)
                    for FS in E.filters:
                        if not FS.its:
                            out.append(Iv(FS.count(k)))
            return out
        return [sel]


@contract('C10')
class ConvertFromDM(CopyDM, arrays.Convert):
    """converting any valid DM array into another format, then reading any element"""
    target = STORE + 'Strided.fromobject'
    lemmas = DM_LINKS

    def cases(self, E):
        return [(f'{name_of(dims, cuts)} {f} to {t}' + (' unspecified given' if u else ''), lambda dims=dims, cuts=cuts, f=f, t=t, u=u: self.build_t(E, dims, cuts, f, t, u))
                for d in (1, 2, 3) for dims, cuts in few_mappings(d) for f in formats_for(len(cuts) + 1)
                for t in arrays.Convert.formats if d in ranks(t) for u in (False, True)
                if base.TIER != 'quick' or (not u or d == 2 and f in ('Strided', 'COO') and t != 'CSR') and (
                    t != 'CSR' or (name_of(dims, cuts), f) == ('0|1', 'Strided')) and (d < 3 or f == 'Strided' or t == 'Strided')]

    def build_t(self, E, dims, cuts, f, t, u):
        self.t = t
        return self.build_dm(E, dims, cuts, f, u)

    call = arrays.Convert.call
    post = arrays.Convert.post


@contract('C10')
class ConvertToDM(_DM, arrays.Convert):
    """converting any valid array into a DM array, then reading any element"""
    target = STORE + 'DM.fromobject'
    lemmas = DM_LINKS

    def cases(self, E):
        return [(f'{s} to {name_of(dims, cuts)} {f}' + (' unspecified given' if u else ''), lambda dims=dims, cuts=cuts, f=f, s=s, u=u: self.build_s(E, dims, cuts, f, s, u))
                for d in (1, 2, 3) for dims, cuts in few_mappings(d) for f in formats_for(len(cuts) + 1)
                for s in arrays.Convert.formats + ('DM',) if s == 'DM' or d in ranks(s) for u in (False, True)
                if base.TIER != 'quick' or (not u or d == 2 and f != 'CSR') and (d < 3 or s in ('Strided', 'DM') or f == 'Strided') and (
                    f != 'CSR' or (s, dims) == ('Strided', (0, 1)))]

    def build_s(self, E, dims, cuts, f, s, u):
        self.t, self.groups = f, groups_of(dims, cuts)
        self.kw = dict(dimensions=CSeq(list(dims)), partitioning=CSeq(list(cuts)), storage_class=cls(E, f))
        return self.build(E, s, len(dims), u)

    def array(self, E, f, d):
        if f != 'DM':
            return Arr(E, f, d)
        # a source that is mapped in another way than the result
        other = {1: [(0,)], 2: [(1, 0)] if len(self.groups) == 2 else [(1,), (0,)], 3: [(2, 0), (1,)]}[d]
        return DMArr(E, 'Strided', other)

    def call(self, E, args):
        return E.call_method(args[0], 'as_DM', [], dict(self.kw, **({} if self.u is None else {'unspecified': self.u})))

    def post(self, E, args, r):
        A, u2 = self.A, self.A.u if self.u is None else self.u
        yield 'a DM array', E.obj(r) is not None and E.obj(r).cls is cls(E, 'DM')
        yield from self.check_shape(E, r, A.sizes)
        data = attr(E, r, 'data')
        yield 'the storage has that format', E.obj(data) is not None and E.obj(data).cls is cls(E, self.t)
        yield from self.check_valid(E, r, A.sizes)
        yield 'the unspecified value', same(E, attr(E, r, 'unspecified'), u2)
        rsizes = [prod_of([A.sizes[a] for a in g]) for g in self.groups]
        R = rm_code(E, rsizes)
        codes = [rm_code(E, [A.sizes[a] for a in g]) for g in self.groups]

        def points(y):
            return [R.pos([c.pos([y[a] for a in g]) for c, g in zip(codes, self.groups)])] + A.points(y)
        raw, y = some_index(E, A.sizes)
        want = renamed(A.content(y), A.u, self.u)
        E.st.notes['points'] = points(y)
        if self.t in SPARSE and E.branch(same(E, want, u2)):
            E.st.notes['points'] = []
        yield 'every element reads the same', lambda: same(E, self.read(E, r, raw), want)
        raw, y = some_index(E, A.sizes, raw=self.f != 'Buffer')
        E.st.notes['points'] = A.points(y)
        yield 'the source reads as before', lambda: same(E, self.read(E, A.ref, raw), A.content(y))
