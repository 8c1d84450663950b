"""Contracts for the equality tests: concrete rank, any sizes and contents."""
from .dm import *  # noqa
from .dm import _DM, _Array
from . import arrays, base, dm


class Content:
    """an arbitrary valid array of a format (or DM mapping), or a nested sequence"""

    def __init__(self, E, kind, d, name, u=None):
        self.kind = kind
        if kind == 'sequence':
            self.sizes = shape_terms(E, d)
            fn = E.fresh_fn(name + 'x', *[Int] * d, V)
            self.ref, self.u = Nested(self.sizes, fn), u
            self.content = lambda y: z3.If(fn(*[Iv(k) for k in y]) == VNONE, u, fn(*[Iv(k) for k in y]))
            self.code = rm_code(E, self.sizes)
            self.points = lambda y: [self.code.pos(y)]
            return
        self.sparse = kind in SPARSE
        A = DMArr(E, kind[1], groups_of(*kind[0]), name) if isinstance(kind, tuple) else Arr(E, kind, d, name)
        self.A, self.ref, self.u, self.sizes = A, A.ref, A.u, A.sizes
        self.content, self.points = A.content, A.points

    def specified(self, E, y):
        return Not(same(E, self.content(y), self.u))


def kind_name(k):
    return k if isinstance(k, str) else f'DM {name_of(*k[0])} {k[1]}'


class Listed:
    """what is known of the list of the elements of an array (contract Elements)"""

    def __init__(self, E, c, name):
        self.c, self.plain = c, c.kind == 'Buffer'
        d = len(c.sizes)
        self.K = [E.fresh_fn(f'{name}key{j}', Int, Int) for j in range(d)]
        self.W, self.val, n = E.fresh_fn(name + 'place', *[Int] * d, Int), E.fresh_fn(name + 'val', Int, V), E.fresh(name + 'listed')
        self.n = n
        E.assume(n >= 0)
        self.heap = E.st.heap
        W, z = self.W, z3.IntVal(0)
        box = lambda y: z3.And(*[z3.And(0 <= v, v < Iv(m)) for v, m in zip(y, c.sizes)])
        item = lambda p: [z3.Implies(z3.And(0 <= p, p < n), z3.And(box(self.key(p)), W(*self.key(p)) == p, self.val(p) == c.content(self.key(p))))]
        T.TRIGGERS[self.K[0](z).decl().name()] = [item]
        T.TRIGGERS[W(*[z] * d).decl().name()] = [lambda *y: [z3.Implies(z3.And(box(y), c.content(y) != c.u), z3.And(
            0 <= W(*y), W(*y) < n, *[k == v for k, v in zip(self.key(W(*y)), y)]))]]

    def key(self, p):
        return [k(p) for k in self.K]

    def heap_id(self, E):
        return all(E.st.heap.get(i) is rec for i, rec in self.heap.items())


@contract('C17', 'C09')
class Elements(_DM):
    """listing the elements of any valid array"""
    target = STORE + 'Storage.elements'
    lemmas = DM_LINKS

    def cases(self, E):
        out = []
        for d in (1, 2, 3):
            for k in [f for f in arrays.Convert.formats if d in ranks(f)] + [(m, f) for m in few_mappings(d) for f in formats_for(len(m[1]) + 1)]:
                out.append((f'{kind_name(k)} rank {d}', lambda k=k, d=d: self.build(E, k, d)))
        return out

    def build(self, E, k, d):
        enable(E)
        self.a = Content(E, k, d, '')
        return [self.a.ref]

    def call(self, E, args):
        return E.call_method(args[0], 'elements', [], {})

    def post(self, E, args, r):
        a = self.a
        els = E.as_plain_seq(r)
        n = Iv(els.n)
        yield 'the number of elements is not negative', n >= 0
        y = some_index(E, a.sizes, raw=False)[1]

        def item(p):
            return BuildElements.pair(self, E, els.get(Iv(p)))
        box = lambda y: z3.And(*[z3.And(0 <= v, v < Iv(m)) for v, m in zip(y, a.sizes)])
        if E.branch(a.specified(E, y)):
            pts = a.points(y)
            E.assume(T.inst_quant(E.st.pc, [Iv(p) for p in pts]))
            w = Iv(pts[-1] if a.sparse else pts[0])
            yield 'a specified element is listed', z3.And(0 <= w, w < n)
            for u, v in reversed(list(zip(item(w)[0], y))):
                yield 'at its index', u == v
        if E.branch(n <= 0):
            return
        p, q = E.fresh('p'), E.fresh('q')
        E.assume([0 <= p, p < n])
        E.assume(T.inst_quant(E.st.pc, [p]))
        ix, v = item(p)
        yield 'a listed element is an element', And(len(ix) == len(a.sizes), box(ix))
        yield 'with its value', same(E, v, a.content(ix))
        E.assume([p < q, q < n])
        E.assume(T.inst_quant(E.st.pc, [q]))
        yield 'no element is listed twice', Not(z3.And(*[u == v for u, v in zip(ix, item(q)[0])]))


@contract('C17')
class ElementEquality(_DM):
    """element-wise equality of any two valid arrays, from the lists of their elements"""
    target = STORE + 'Storage.equal'
    lemmas = DM_LINKS + (Elements,)

    def cases(self, E):
        out = []
        fs = ('Strided', 'FlatCOO', 'COO', 'CSR')
        for d in (1, 2, 3):
            m = {1: ((0,), ()), 2: ((1, 0), (1,)), 3: ((2, 0, 1), (2,))}[d]
            kinds = [f for f in fs if d in ranks(f)] + [(m, f) for f in formats_for(len(m[1]) + 1)]
            pairs = [(f, g) for f in kinds for g in kinds + ['sequence']]
            if d == 1:
                pairs += [('Buffer', 'Buffer'), ('Buffer', 'sequence')]
            for f, g in pairs:
                out.append((f'{kind_name(f)} and {kind_name(g)} rank {d}', lambda f=f, g=g, d=d: self.build(E, f, g, d, d)))
        for f, g, d, e in (('Strided', 'COO', 1, 2), ('FlatCOO', 'CSR', 3, 2), ('CSR', 'Strided', 2, 1)):
            out.append((f'{f} rank {d} and {g} rank {e}', lambda f=f, g=g, d=d, e=e: self.build(E, f, g, d, e)))
        return out

    def build(self, E, f, g, d, e):
        enable(E)
        self.a = Content(E, f, d, 'a_')
        self.b = Content(E, g, e, 'b_', self.a.u)
        for c, nm in ((self.a, 'a_'), (self.b, 'b_')):
            c.listed = None
            if c.kind != 'sequence':
                c.listed = E.elements_of[c.ref.id] = Listed(E, c, nm)
        return [self.a.ref, self.b.ref]

    def call(self, E, args):
        return E.call_method(args[0], 'equal', [args[1]], {})

    def post(self, E, args, r):
        a, b = self.a, self.b
        if len(a.sizes) != len(b.sizes):
            yield 'arrays of different ranks are not equal', Not(E.truth(r))
            return
        shapes = z3.And(*[Iv(m) == Iv(n) for m, n in zip(a.sizes, b.sizes)])
        es = E.st.notes.get('dicteq', ())
        if not es:
            yield 'without comparing elements, only arrays of different shapes are not equal', Not(z3.Or(Bv(E.truth(r)), shapes))
            return
        yield 'the elements are compared', len(es) == 1
        e = es[0]
        if E.branch(E.truth(r)):
            yield 'equal arrays have equal shapes', shapes
            yield 'the elements are found equal', e.result is True
            y = some_index(E, a.sizes, raw=False)[1]
            for s, t, fact in ((a, b, e.fact_a), (b, a, e.fact_b)):
                if E.branch(s.specified(E, y)):
                    self.at(E, s, y, fact)
                    yield 'a specified element is specified in the other array', t.specified(E, y)
                    yield 'with the same value', same(E, a.content(y), b.content(y))
            return
        if E.branch(shapes):
            yield 'equal elements and shapes are reported as equal', e.result is False
            s, t = (a, b) if e.side == 0 else (b, a)
            y, v = BuildElements.pair(self, E, e.item)
            yield 'what differs is an element', z3.And(*[z3.And(0 <= i, i < Iv(n)) for i, n in zip(y, s.sizes)])
            E.assume(T.inst_quant(E.st.pc, [Iv(p) for c in (s, t) if not c.listed for p in c.points(y)]))
            yield 'with its value', same(E, v, s.content(y))
            yield 'which is specified', s.specified(E, y)
            if E.branch(t.specified(E, y)):
                self.at(E, t, y, e.fact)
                yield 'and differs in the other array', Not(same(E, v, t.content(y)))

    def at(self, E, s, y, fact):
        """use the fact at the place where the element of s is listed"""
        for p in [s.listed.W(*y)] if s.listed else s.points(y):
            for FS in E.filters:
                if not FS.its:
                    E.assume(fact(Iv(FS.count(Iv(p)))))


class _Equality(_DM):
    """object equality of two valid arrays"""
    target = STORE + 'Storage.__eq__'
    which = ('reflexive', 'symmetric', 'negation', 'elements')

    def pairs(self, d):
        raise NotImplementedError

    def cases(self, E):
        out = []
        for d in (1, 2, 3):
            for f, g in self.pairs(d):
                for w in self.which:
                    out.append((f'{kind_name(f)}' + (f' and {kind_name(g)}' if f != g else '') + f' rank {d}: {w}',
                                lambda f=f, g=g, d=d, w=w: self.build(E, f, g, d, d, w)))
        for f, d, e in self.rank_pairs:
            for w in self.which:
                out.append((f'{f} rank {d} and rank {e}: {w}', lambda f=f, d=d, e=e, w=w: self.build(E, f, f, d, e, w)))
        return out

    def build(self, E, f, g, d, e, which):
        enable(E)
        self.f, self.w = f, which
        self.a, self.b = Content(E, f, d, 'a_'), Content(E, g, e, 'b_')
        self.parts = {}
        E.object_eq = self.part_eq
        return [self.a.ref, self.b.ref]

    def part_eq(self, a, b):
        return self.parts.get(frozenset((a.id, b.id)))

    def part(self, E, x, y):
        """the result of x == y, by the contract for the format of the part"""
        if E.obj(x).cls is not E.obj(y).cls:
            return None
        r = self.parts[frozenset((x.id, y.id))] = E.fresh('same_part', Bool)
        return r

    def call(self, E, args):
        a, b = args
        one = E.truth(E.eq(a, a if self.w == 'reflexive' else b))
        if self.w == 'elements':
            return CSeq([one])
        return CSeq([one, E.truth({'reflexive': lambda: E.ne(a, a), 'symmetric': lambda: E.eq(b, a), 'negation': lambda: E.ne(a, b)}[self.w]())])

    def post(self, E, args, r):
        a, b = self.a, self.b
        r = [E.branch(x) for x in r.items]
        if self.w == 'reflexive':
            yield 'an array equals itself', r[0]
            yield 'an array does not differ from itself', not r[1]
        if self.w == 'symmetric':
            yield 'equality is symmetric', r[0] == r[1]
        if self.w == 'negation':
            yield '!= is the negation of ==', r[0] != r[1]
        if self.w != 'elements' or not r[0]:
            yield 'no claim about the elements', True
            return
        yield 'equal arrays have the same rank', len(a.sizes) == len(b.sizes)
        self.general(E)
        yield 'equal arrays have equal shapes', z3.And(*[Iv(m) == Iv(n) for m, n in zip(a.sizes, b.sizes)])
        yield 'the unspecified values are equal', same(E, a.u, b.u)
        y = some_index(E, a.sizes, raw=False)[1]
        self.relate(E, y)
        yield 'every element reads the same', lambda: same(E, self.read(E, a.ref, y), self.read(E, b.ref, y))

    def general(self, E):
        """what equal parts have in common"""

    def relate(self, E, y):
        """what equal parts say about element y; positions depend on lengths and strides only (C02, C03)"""


@contract('C17')
class ObjectEquality(_Equality):
    """object equality of two buffers or strided arrays"""
    target = STORE + 'Strided.__eq__'
    lemmas = LINKS
    rank_pairs = (('Strided', 1, 2), ('Strided', 3, 2))

    def pairs(self, d):
        return [(f, f) for f in ('Buffer', 'Strided') if d in ranks(f)]

    def relate(self, E, y):
        A, B = self.a.A, self.b.A
        if A.fmt == 'Buffer':
            E.assume(T.inst_quant(E.st.pc, y))
            return
        for C, D in ((A.code, B.code), (A.rm, B.rm)):
            E.assume(same_numbering(C, D, y))
        E.assume(T.inst_quant(E.st.pc, [Iv(C.pos_raw(y)) for C in (A.code, B.code, A.rm, B.rm)]))


@contract('C17')
class ObjectEqualitySparse(_Equality):
    """object equality of two sparse arrays; their parts are compared by the contracts for buffers and strided arrays"""
    lemmas = DM_LINKS + (ObjectEquality,)
    rank_pairs = (('COO', 2, 3), ('FlatCOO', 3, 1))

    def pairs(self, d):
        return [(f, f) for f in ('FlatCOO', 'COO', 'CSR') if d in ranks(f)]

    def build(self, E, f, g, d, e, which):
        args = super().build(E, f, g, d, e, which)
        self.index = {'FlatCOO': ('findices',), 'COO': ('indices',), 'CSR': ('crow_indices', 'col_indices')}[f]
        self.equal = {n: self.part(E, attr(E, args[0], n), attr(E, args[1], n)) for n in self.index + ('data',)}
        return args

    def general(self, E):
        (a, b), eq = (self.a.A, self.b.A), self.equal
        E.assume(z3.Implies(eq['data'], z3.And(a.g.n == b.g.n, a.u == b.u)))

    def relate(self, E, y):
        (a, b), eq = (self.a.A, self.b.A), self.equal
        F, G = a.g.F, b.g.F
        n = z3.And(a.g.n == b.g.n)
        same_pos = lambda v: E.assume(same_numbering(a.code, b.code, v))
        same_pos(y)
        for X in (a, b):
            c = X.g.find(Iv(X.code.pos_raw(y)))
            ok = z3.And(0 <= c, c < a.g.n)
            E.assume(z3.Implies(z3.And(eq['data'], ok), a.f(c) == b.f(c)))
            da, db = [[H(c)] if Z.d == 1 else [f(H(c)) for f in Z.code.fdig] for Z, H in ((a, F), (b, G))]
            same_pos(da)
            same_pos(db)
            if a.fmt == 'FlatCOO':
                E.assume(z3.Implies(z3.And(eq['findices'], ok), F(c) == G(c)))
            elif a.fmt == 'COO':
                E.assume(z3.Implies(z3.And(eq['indices'], ok), z3.And(*[i == j for i, j in zip(da, db)])))
            else:
                E.assume(z3.Implies(z3.And(eq['col_indices'], ok), da[1] == db[1]))
                ca, cb = a.crow, b.crow
                for r in (da[0], db[0]):
                    for k in (r, simp(r + 1)):
                        E.assume(z3.Implies(z3.And(eq['crow_indices'], 0 <= k, k <= Iv(a.sizes[0])), ca(k) == cb(k)))


@contract('C17')
class ObjectEqualityDM(_Equality):
    """object equality of two DM arrays; their storages are compared by the contracts for the format of the storage"""
    lemmas = DM_LINKS + (ObjectEquality, ObjectEqualitySparse)
    rank_pairs = ()

    def pairs(self, d):
        ms = list(few_mappings(d))
        out = [((m, f), (m, f)) for m in ms for f in formats_for(len(m[1]) + 1)]
        out += [((m, 'Strided'), (n, 'Strided')) for m, n in zip(ms, ms[1:])]
        if d < 3:
            out += [(((tuple(range(d)), ()), 'Strided'), ((tuple(range(d)), ()), 'COO'))]
        return out

    def build(self, E, f, g, d, e, which):
        args = super().build(E, f, g, d, e, which)
        self.equal = self.part(E, self.a.A.A.ref, self.b.A.A.ref)
        return args

    def general(self, E):
        a, b = self.a.A.A, self.b.A.A
        if self.equal is not None:
            E.assume(z3.Implies(self.equal, z3.And(a.u == b.u, *[Iv(m) == Iv(n) for m, n in zip(a.sizes, b.sizes)])))

    def relate(self, E, y):
        a, b = self.a.A, self.b.A
        if self.equal is None or a.groups != b.groups:
            return
        for C, D, g in zip(a.codes, b.codes, a.groups):
            E.assume(same_numbering(C, D, [y[j] for j in g]))
        for v in (a.rindex(y), b.rindex(y)):
            E.assume(z3.Implies(z3.And(self.equal, *[z3.And(0 <= Iv(i), Iv(i) < Iv(n)) for i, n in zip(v, a.A.sizes)]),
                                same(E, a.A.content(v), b.A.content(v))))


def same_numbering(C, D, y):
    y = [Iv(v) for v in y]
    eq = [m == n for m, n in zip(C.sizes, D.sizes)] + ([] if C.rm and D.rm else [Iv(m) == Iv(n) for m, n in zip(C.strides, D.strides)])
    return z3.Implies(z3.And(*eq), C.pos_raw(y) == D.pos_raw(y))
