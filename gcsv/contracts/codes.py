"""Element numberings used by the contracts on storage formats (C09-C15, C17).

A Code is a numbering of the elements of an array of concrete rank: pos(y) = sum of y[j] * strides[j].  Callers of
get_position, solve_index, index_strided and of the lookups are checked against the contracts of those functions
(C02, C03, C06, C08); what the contracts say is stated here as facts about pos, its inverse and its range:

  has(p)     p is the position of an element                  (C08: solve_index returns an index)
  dig_j(p)   item j of that element                           (C08: the index it returns)
  row-major: has(p) <=> 0 <= p < number of elements; positions grow in lexicographic order (C03)
"""
from .base import *  # noqa
from .slices import SliceSpec
from ..values import ObjRec, ListRec, Ref, Cls, Sent, Bound, Builtin

STORE = 'gcs.storage.'
ST = 'gcs.slice_tools.'


def tid(v):
    v = Iv(v)
    T.KEEP.append(v)
    return v.get_id()


def prod_of(ns):
    r = 1
    for n in ns:
        r = simp(r * n) if isinstance(r, int) and isinstance(n, int) else simp(Iv(r) * Iv(n))
    return r


def row_major(sizes):
    """strides as the code computes them"""
    return [prod_of(sizes[i + 1:]) for i in range(len(sizes))]


def lex_less(xs, ys):
    """xs < ys, item by item"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(xs, ys))):
        r = z3.Or(Iv(x) < Iv(y), z3.And(Iv(x) == Iv(y), r))
    return r


def concrete(E, v):
    """items of a sequence of concrete length, or None"""
    s = E.as_plain_seq(E.rv(v))
    if s is None:
        return None
    n = simp(s.n)
    if not isinstance(n, int):
        return None
    return [E.rv(s.get(i)) for i in range(n)]


def ints(E, v):
    c = concrete(E, v)
    if c is None or not all(is_int(x) for x in c):
        return None
    return c


class Code:
    """positions of the elements of an array with the given lengths and strides"""

    def __init__(self, E, sizes, strides, rm):
        self.E, self.d, self.rm = E, len(sizes), rm
        self.sizes, self.strides = [Iv(x) for x in sizes], list(strides)
        if E.itervars and any(T.is_itervar(c) for v in list(sizes) + list(strides) if isinstance(v, z3.ExprRef)
                              for c in T.free_consts(v)):
            raise Unsupported('an array layout that depends on a loop variable')
        n = len(E.codes)
        self.tot = prod_of(sizes) if rm else None
        d = self.d
        self.fpos = z3.Function(f'pos#{n}', *[Int] * d, Int) if d else None
        self.fdig = [z3.Function(f'dig#{n}_{j}', Int, Int) for j in range(d)]
        self.fhas = z3.Function(f'has#{n}', Int, Bool)
        self.explicit = rm and d <= 1
        if self.explicit or d == 0:
            return

        def on_pos(*y):
            p = self.fpos(*y)
            if all(z3.is_app(v) and v.decl().eq(self.fdig[j]) and v.arg(0).eq(y[0].arg(0)) if v.num_args() else False
                   for j, v in enumerate(y)):
                return []
            return [z3.Implies(self.box(y), z3.And(Bv(self.has(p)), *[self.fdig[j](p) == y[j] for j in range(d)]))]

        def on_dig(p):
            ds = [f(p) for f in self.fdig]
            return [z3.Implies(Bv(self.has(p)), z3.And(self.box(ds), self.fpos(*ds) == p))]
        T.TRIGGERS[self.fpos.name()] = [on_pos]
        rows = simp(self.sizes[0])
        if rm and d == 2 and isinstance(rows, int) and rows <= 4:
            n = self.sizes[1]
            T.ROW_OF[self.fpos.name()] = n
            T.TRIGGERS[self.fpos.name()].append(lambda j, p: [z3.Implies(j == i, self.fpos(j, p) == i * n + p) for i in range(rows)])
        for f in self.fdig:
            T.TRIGGERS[f.name()] = [on_dig]
        if not rm:
            T.TRIGGERS[self.fhas.name()] = [on_dig]
        else:
            def on_pair(a, b):
                p, q = a[0], b[0]
                out = []
                for x, y in ((p, q), (q, p)):
                    out.append(z3.Implies(z3.And(0 <= x, x < y, y < Iv(self.tot)),
                                          lex_less([f(x) for f in self.fdig], [f(y) for f in self.fdig])))
                return out

            def on_pos_pair(a, b):
                out = []
                for x, y in ((a, b), (b, a)):
                    out.append(z3.Implies(z3.And(self.box(x), self.box(y), lex_less(x, y)), self.fpos(*x) < self.fpos(*y)))
                return out
            T.PAIR_TRIGGERS[self.fdig[0].name()] = on_pair
            T.PAIR_TRIGGERS[self.fpos.name()] = on_pos_pair

    def box(self, y):
        return z3.And(*[z3.And(0 <= Iv(v), Iv(v) < n) for v, n in zip(y, self.sizes)])

    def pos(self, y):
        y = [Iv(v) for v in y]
        if self.d == 0:
            return 0
        if self.explicit:
            return conc(y[0])
        p = self.inverse_of(y)
        if p is not None and self.E.entails(self.has(p), timeout=1500, rounds=2):
            return conc(p)
        return self.fpos(*y)

    def pos_raw(self, y):
        """without looking at the path condition"""
        return 0 if self.d == 0 else Iv(y[0]) if self.explicit else self.fpos(*[Iv(v) for v in y])

    def inverse_of(self, y):
        """p when y is (dig_0(p), dig_1(p), ...)"""
        p = None
        for j, v in enumerate(y):
            if not (z3.is_app(v) and v.num_args() == 1 and v.decl().eq(self.fdig[j])):
                return None
            if p is not None and not v.arg(0).eq(p):
                return None
            p = v.arg(0)
        return p

    def has(self, p):
        if self.d == 0:
            return simp(Iv(p) == 0)
        if self.rm:
            return simp(z3.And(0 <= Iv(p), Iv(p) < Iv(self.tot)))
        return self.fhas(Iv(p))

    def dig(self, p, j):
        p = Iv(p)
        if self.explicit:
            return conc(p)
        if z3.is_app(p) and p.num_args() == self.d and p.decl().eq(self.fpos) and \
                self.E.entails(self.box(p.children()), timeout=1500, rounds=2):
            return conc(p.arg(j))
        return self.fdig[j](p)

    def digs(self, p):
        return [self.dig(p, j) for j in range(self.d)]


def rm_code(E, sizes):
    """row-major numbering"""
    key = ('rm',) + tuple(tid(x) for x in sizes)
    c = E.codes.get(key)
    if c is None:
        c = E.codes[key] = Code(E, sizes, row_major(sizes), True)
        E.st.notes  # noqa
    for x in sizes:
        if not isinstance(x, int):
            E.prove(Iv(x) >= 0, 'a length is not negative')
    for k in range(2, len(sizes) + 1):
        t = prod_of(sizes[len(sizes) - k:])
        if not isinstance(t, int):
            E.assume(t >= 0)       # a product of lengths
    return c


def is_rm(sizes, strides):
    return len(sizes) == len(strides) and all(Iv(simp(a)).eq(Iv(simp(b))) for a, b in zip(row_major(sizes), strides))


def code_of(E, sizes, strides, make=False):
    if is_rm(sizes, strides):
        return rm_code(E, sizes)
    key = tuple(tid(x) for x in sizes) + ('|',) + tuple(tid(x) for x in strides)
    c = E.codes.get(key)
    if c is None and len(sizes) == 0:
        return rm_code(E, sizes)
    if c is None and make:
        c = E.codes[key] = Code(E, sizes, strides, False)
    return c


def enable(E):
    """the contracts that callers are checked against"""
    E.codes = {}
    E.assign_element = False
    E.elements_of = {}
    E.ext_hooks['box'] = box_digits
    E.ext_hooks['sorted'] = sort_hook
    for c in USES:
        E.contracts[c.target] = c()
    E.contracts.update({t: REGISTRY[t]() for t in (ST + 'reduced', ST + 'nitems')})


def box_digits(E, ns):
    if E.codes is None or len(ns) < 2:
        return None
    c = rm_code(E, ns)
    return c.tot, c.digs


USES = []


def use(c):
    USES.append(c)
    return c


class Use(Contract):
    """the specification of a function whose body is verified by another contract"""


@use
class UsePosition(Use):
    target = STORE + 'get_position'

    def codes(self, E, vals):
        sizes, strides = ints(E, vals[1]), ints(E, vals[2])
        if sizes is None or strides is None or len(sizes) != len(strides):
            return None
        return code_of(E, sizes, strides)

    def applies(self, E, vals, kw):
        ix = ints(E, vals[0])
        c = self.codes(E, vals)
        return c is not None and ix is not None and len(ix) >= c.d

    def apply(self, E, vals, kw):
        ix = ints(E, vals[0])
        c = self.codes(E, vals)
        return c.pos(ix[:c.d])


@use
class UseRPosition(UsePosition):
    """the position of the items of the axes of a group (C04: the stride-weighted sum)"""
    target = STORE + 'get_rposition'

    def parts(self, E, vals):
        index, strides, sizes, axes = concrete(E, vals[0]), ints(E, vals[1]), ints(E, vals[2]), ints(E, vals[3])
        if None in (index, strides, sizes, axes) or not (len(strides) == len(sizes) == len(axes)):
            return None
        if not all(isinstance(a, int) and 0 <= a < len(index) and is_int(index[a]) for a in axes):
            return None
        c = code_of(E, sizes, strides)
        return None if c is None else (c, [index[a] for a in axes])

    def applies(self, E, vals, kw):
        return self.parts(E, vals) is not None

    def apply(self, E, vals, kw):
        c, ix = self.parts(E, vals)
        return c.pos(ix)


@use
class UsePromote(Use):
    """C04: items of a group are the digits of its row-major position"""
    target = STORE + 'promote_index'

    def parts(self, E, vals):
        rshapes, rdims, rstrides = [concrete(E, v) for v in vals[:3]]
        roff = ints(E, vals[3])
        if None in (rshapes, rdims, rstrides, roff):
            return None
        ri = [vals[4]] if is_int(vals[4]) else ints(E, vals[4])
        if ri is None or not (len(rshapes) == len(rdims) == len(rstrides) == len(roff) == len(ri)):
            return None
        groups = []
        for k in range(len(ri)):
            sizes, axes, strides = ints(E, rshapes[k]), ints(E, rdims[k]), ints(E, rstrides[k])
            if None in (sizes, axes, strides) or not (len(sizes) == len(axes) == len(strides)) or not is_rm(sizes, strides):
                return None
            groups.append((axes, sizes))
        if sorted(a for axes, _ in groups for a in axes) != list(range(sum(len(a) for a, _ in groups))):
            return None
        return groups, roff, ri

    def applies(self, E, vals, kw):
        return self.parts(E, vals) is not None

    def apply(self, E, vals, kw):
        groups, roff, ri = self.parts(E, vals)
        out = {}
        for (axes, sizes), o, r in zip(groups, roff, ri):
            c = rm_code(E, sizes)
            p = simp(Iv(r) - Iv(o))
            E.prove(c.has(p), 'promote_index: the position is inside the group')
            for j, a in enumerate(axes):
                out[a] = c.dig(p, j)
        return CSeq([out[a] for a in range(len(out))])


class SolveData(Abs):
    def __init__(self, strides, sizes):
        self.strides, self.sizes = strides, sizes

    def subst(self, pairs):
        return self


@use
class UseSolveData(Use):
    target = ST + 'init_diophantine'

    def applies(self, E, vals, kw):
        return ints(E, vals[0]) is not None and vals[1] is not None and ints(E, vals[1]) is not None

    def apply(self, E, vals, kw):
        strides, sizes = ints(E, vals[0]), ints(E, vals[1])
        return SolveData(strides, sizes)


@use
class UseSolveIndex(Use):
    target = ST + 'solve_index'

    def applies(self, E, vals, kw):
        sizes, strides = ints(E, vals[1]), ints(E, vals[2])
        d = vals[3]
        return is_int(vals[0]) and sizes is not None and strides is not None and code_of(E, sizes, strides) is not None and (
            d is None or isinstance(d, SolveData))

    def apply(self, E, vals, kw):
        p, sizes, strides, d = Iv(vals[0]), ints(E, vals[1]), ints(E, vals[2]), vals[3]
        c = code_of(E, sizes, strides)
        E.prove(z3.Or(*[Iv(n) == 0 for n in sizes], z3.And(*[Iv(s) != 0 for s in strides])),
                'solve_index: the strides are not zero unless the array is empty')
        if d is not None:
            E.prove(z3.And(len(d.strides) == len(strides), *[Iv(x) == Iv(y) for x, y in zip(d.strides, strides)]),
                    'solve_index: the data belongs to the strides')
        h = c.has(p)
        if not E.branch(h):
            return None
        return CSeq(c.digs(p))


@use
class UseStrides(Use):
    """the strides a storage was given, or the row-major ones (kept in an attribute that nothing else reads)"""
    target = STORE + 'Storage.strides'

    def applies(self, E, vals, kw):
        return E.obj(vals[0]) is not None

    def apply(self, E, vals, kw):
        o = E.obj(vals[0])
        if '_strides' in o.attrs:
            return o.attrs['_strides']
        return E.call(E.func(STORE + 'make_strides'), [E.getattr_(vals[0], 'shape')])


@use
class UseAssignElement(Use):
    """assigning to one element of a sparse storage (C14: Assign), where a contract asks for it: the value of a stored element is set"""
    target = STORE + 'Storage.__setitem__'

    def ghost(self, E, ref):
        o = E.obj(ref)
        for a in ('findices', 'indices', 'crow_indices'):
            if o is not None and a in o.attrs:
                return ghost_of(E, o.attrs[a])

    def applies(self, E, vals, kw):
        return E.assign_element and ints(E, vals[1]) is not None and self.ghost(E, vals[0]) is not None

    def apply(self, E, vals, kw):
        g, index, at = self.ghost(E, vals[0]), [Iv(v) for v in ints(E, vals[1])], E.obj(vals[0]).attrs
        E.prove(g.code.box(index), 'the element is inside the storage')
        E.prove(z3.And(*[Iv(a) == Iv(b) for a, b in zip(ints(E, at['shape']), g.code.sizes)]), 'the index data belongs to the shape')
        data = E.obj(at['data']).attrs
        E.prove(z3.And(Iv(data['size']) == g.n, Iv(data['offset']) >= 0), 'one value per stored element')
        c = g.find(Iv(g.code.pos(index)))
        if E.branch(c >= 0):
            E.setitem(data['data'], simp(Iv(data['offset']) + c), vals[2])


@use
class UseElements(Use):
    """the list of the elements of a valid array (C17: Elements), where a contract asks for it: E.elements_of"""
    target = STORE + 'Storage.elements'

    def applies(self, E, vals, kw):
        return isinstance(vals[0], Ref) and vals[0].id in E.elements_of

    def apply(self, E, vals, kw):
        L = E.elements_of[vals[0].id]
        E.prove(L.heap_id(E), 'the array is as it was')
        key = (lambda p: L.key(p)[0]) if L.plain else lambda p: CSeq(L.key(p))
        return SSeq(L.n, lambda p: CSeq([key(Iv(p)), L.val(Iv(p))]), 0, 'gen')


@use
class UseWindow(Use):
    """a window of a buffer (C16)"""
    target = STORE + 'Buffer.__getitem__'

    def applies(self, E, vals, kw):
        o, s = E.obj(vals[0]), vals[1]
        return o is not None and isinstance(s, SliceVal) and s.step is None and all(x is None or is_int(x) for x in (s.start, s.stop))

    def apply(self, E, vals, kw):
        at = E.obj(vals[0]).attrs
        s = vals[1]
        off, size, data = Iv(at['offset']), Iv(at['size']), at['data']
        n = Iv(E.num(E.builtins['len'].fn(data)))
        start = off if s.start is None else simp(off + Iv(s.start))
        stop = simp(off + size) if s.stop is None else simp(off + Iv(s.stop))
        if E.branch(Or(Iv(start) < 0, Iv(start) >= n, Iv(stop) <= 0, Iv(stop) > n)):
            raise PyExc('IndexError', 'window outside of the buffer', E.curline)
        m = simp(z3.If(Iv(stop) > Iv(start), Iv(stop) - Iv(start), 0))
        if E.entails(Iv(stop) > Iv(start), timeout=1000):
            m, o2 = simp(Iv(stop) - Iv(start)), start
        else:
            o2 = E.fresh('window')
            E.assume([o2 >= 0, o2 + Iv(m) <= n, z3.Implies(Iv(m) > 0, o2 == Iv(start))])
        return E.alloc(ObjRec(E.func(STORE + 'Buffer'), dict(
            shape=CSeq([m]), size=m, offset=o2, data=data, _unspecified=at['_unspecified'])))


SEL = z3.Function('selected_item', *SliceSpec.sig, Int, Int)
INV = z3.Function('selected_by', *SliceSpec.sig, Int, Int)


def on_sel(*args):
    """item j of the axis: pb + j * ps (definition); inside the axis, each position once (C01)"""
    a, j = args[:-1], args[-1]
    v = SEL(*args)
    return [z3.Implies(z3.And(0 <= j, j < SliceSpec.pc(*a)), z3.And(0 <= v, v < a[-1], INV(*a, v) == j))]


class Selection:
    """a normalized index of concrete length: which element of the source every element of the result is"""

    def __init__(self, E, items, sizes):
        self.items, self.sizes = items, sizes
        self.shape = [SliceSpec.pc(*it[1]) if it[0] == 'slice' else n for it, n in zip(items, sizes) if it[0] != 'int']

    def map(self, y):
        y, out = list(y), []
        for it in self.items:
            if it[0] == 'int':
                out.append(Iv(it[1]))
            elif it[0] == 'slice':
                out.append(SEL(*it[1], Iv(y.pop(0))))
            else:
                out.append(Iv(y.pop(0)))
        return out

    @staticmethod
    def parse(E, index, sizes):
        items = []
        for v, n in zip(index, sizes):
            if v is None:
                items.append(('all', None))
            elif is_int(v):
                items.append(('int', v))
            elif isinstance(v, SliceVal):
                parts = [v.start, v.stop, v.step]
                if not all(isinstance(x, z3.ExprRef) and z3.is_app(x) for x in parts):
                    return None
                if [x.decl().name() for x in parts] != ['reduced_start', 'reduced_stop', 'reduced_step']:
                    return None
                a = parts[0].children()
                if not all(len(x.children()) == len(a) and all(p.eq(q) for p, q in zip(x.children(), a)) for x in parts):
                    return None
                if not (a[-1].eq(Iv(n)) or E.entails(a[-1] == Iv(n), timeout=1000)):
                    return None
                items.append(('slice', SliceSpec.base(a)))
            else:
                return None
        return Selection(E, items, sizes)


@use
class UseIndexStrided(Use):
    """C02: position offset' + pos'(y) of the result is position offset + pos(selected(y)) of the source"""
    target = ST + 'index_strided'

    def parts(self, E, vals):
        index, sizes, strides = concrete(E, vals[0]), ints(E, vals[1]), ints(E, vals[2])
        if index is None or sizes is None or strides is None or not (len(index) == len(sizes) == len(strides)):
            return None
        s = Selection.parse(E, index, sizes)
        return None if s is None or not is_int(vals[3]) else (s, sizes, strides)

    def applies(self, E, vals, kw):
        return self.parts(E, vals) is not None

    def apply(self, E, vals, kw):
        s, sizes, strides = self.parts(E, vals)
        off = Iv(vals[3])
        for it, n in zip(s.items, sizes):
            if it[0] == 'int':
                E.prove(z3.And(0 <= Iv(it[1]), Iv(it[1]) < Iv(n)), 'index_strided: integers are normalized')
        C = code_of(E, sizes, strides)
        if C is None:
            raise Unsupported('indexing with unknown strides')
        if not s.shape:
            return CSeq([CSeq([]), CSeq([]), simp(off + Iv(C.pos(s.map([]))))])
        if E.itervars:
            raise Unsupported('a slice in a loop')
        if all(it[0] == 'all' for it in s.items):
            return CSeq([CSeq(s.shape), CSeq(strides), conc(off)])
        T.TRIGGERS[SEL.name()] = [on_sel]
        E.st.ctr += 1
        st2 = [E.fresh('stride') for n in s.shape]
        off2 = E.fresh('offset')
        # distinct elements of the result are distinct elements of the source
        outer, E.st = E.st, E.st.copy()
        try:
            y, z = [[E.fresh('e') for n in s.shape] for _ in '01']
            E.assume([z3.And(0 <= v, v < Iv(n)) for e in (y, z) for v, n in zip(e, s.shape)])
            my, mz = s.map(y), s.map(z)
            E.prove(z3.And(C.box(my), C.box(mz)), 'selected elements are inside the source')
            E.prove(z3.Implies(Iv(C.pos(my)) == Iv(C.pos(mz)), z3.And(*[a == b for a, b in zip(y, z)])),
                    'every element is selected once')
        finally:
            outer.ctr = max(outer.ctr, E.st.ctr)
            E.st = outer
        S = code_of(E, s.shape, st2, make=True)
        S.source, S.selection, S.offset, S.source_offset = C, s, off2, off
        E.st.notes['slices'] = E.st.notes.get('slices', ()) + (S,)

        def link(*y):
            m = s.map(y)
            return [z3.Implies(S.box(y), z3.And(C.box(m), off2 + S.fpos(*y) == off + Iv(C.pos_raw(m))))]
        T.TRIGGERS[S.fpos.name()].append(link)
        E.assume(S.fpos(*[z3.IntVal(0)] * S.d) == 0)
        E.assume(z3.Implies(z3.And(*[Iv(x) != 0 for x in strides]), z3.And(*[x != 0 for x in st2])))
        return CSeq([CSeq(s.shape), CSeq(st2), off2])


@use
class UseShapeStrided(UseIndexStrided):
    """C02: the shape that index_strided gives"""
    target = ST + 'shape_strided'

    def parts(self, E, vals):
        index, sizes = concrete(E, vals[0]), ints(E, vals[1])
        if index is None or sizes is None or len(index) != len(sizes):
            return None
        return Selection.parse(E, index, sizes)

    def apply(self, E, vals, kw):
        return CSeq(self.parts(E, vals).shape)


@use
class UseCompress(Use):
    """C05: entry r is the number of indices smaller than r"""
    target = STORE + 'compress_indices'

    def applies(self, E, vals, kw):
        return is_int(vals[1])

    def apply(self, E, vals, kw):
        ind, size = vals[0], Iv(vals[1])
        n = Iv(E.num(E.builtins['len'].fn(ind)))
        at = generic_item(E, lambda p: [E.getitem(ind, p)], n)
        f = lambda p: at(p)[0]
        E.prove(size >= 0, 'compress_indices: the size is not negative')
        E.prove(Q(['p'], lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= f(p), f(p) < size))),
                'compress_indices: the indices are in range')
        E.prove(Q(['p', 'q'], lambda p, q: z3.Implies(z3.And(0 <= p, p < q, q < n), f(p) <= f(q))),
                'compress_indices: the indices are sorted')
        e = E.fresh_fn('crow', Int, Int)
        if E.itervars:
            raise Unsupported('compression in a loop')
        nm = e(z3.IntVal(0)).decl().name()
        T.TRIGGERS[nm] = [lambda r: [z3.Implies(z3.And(0 <= r, r <= size), z3.And(
            0 <= e(r), e(r) <= n, z3.Implies(e(r) > 0, f(e(r) - 1) < r), z3.Implies(e(r) < n, f(e(r)) >= r)))]]
        T.PAIR_TRIGGERS[nm] = lambda a, b: [z3.Implies(z3.And(0 <= x, x <= y, y <= size), e(x) <= e(y))
                                            for x, y in ((a[0], b[0]), (b[0], a[0]))]
        E.assume([e(z3.IntVal(0)) == 0, e(size) == n])

        def fact(r, p):
            return z3.Implies(z3.And(0 <= p, p < n, 0 <= r, r <= size), (f(p) < r) == (p < e(r)))
        fact.item = f
        E.st.notes["compressed"] = E.st.notes.get("compressed", ()) + (fact,)
        return E.new_list(SSeq(simp(size + 1), lambda r: e(Iv(r)), 0, 'list'))


def generic_item(E, fn, n, width=1):
    """fn(p) as a function of p, 0 <= p < n"""
    from .. import loops as LP
    if E.entails(Iv(n) <= 0, timeout=300, rounds=1):
        return lambda p: [z3.IntVal(0)] * width
    LP._K.n += 1
    k = z3.Int(f'k@{LP._K.n}')
    E.itervars.append(k)
    try:
        v = E.generic(lambda: CSeq([E.num(E.rv(x)) for x in fn(k)]), [0 <= k, k < Iv(n)])
    finally:
        E.itervars.pop()
    return lambda p: [Iv(x) for x in subst_val(v, ((k, Iv(p)),)).items]


# ------------------------------------------------------------------ lookups (C06)

def ghost_of(E, ref):
    return E.st.notes.get('ghost', {}).get(ref.id) if isinstance(ref, Ref) else None


def set_ghost(E, ref, g):
    d = dict(E.st.notes.get('ghost', {}))
    d[ref.id] = g
    E.st.notes['ghost'] = d


def follow(E, pts):
    """Positions that represent an element in successive selections and sortings, from positions in the first one."""
    pts = [Iv(p) for p in pts]
    fs = [FS for FS in E.filters if not FS.its]
    ss = E.st.notes.get("sortings", ())
    key = ('followed', tuple(p.get_id() for p in pts), len(fs), len(ss))
    if key in E.st.notes:
        return E.st.notes[key]

    def inside(p, n):
        return E.entails(And(0 <= p, p < Iv(n)), timeout=400, rounds=2)
    for FS in fs:
        for p in list(pts):
            if inside(p, FS.N) and E.entails(FS.guard(p), timeout=2000, rounds=2):
                c = Iv(FS.count(p))
                E.prove(z3.And(0 <= c, c < Iv(FS.count(FS.N)), FS.sel(c) == p), 'a selected item has a place in the selection')
                pts.append(c)
                break
    for S in ss:
        for p in list(pts):
            if inside(p, S.n):
                q = S.iperm(p)
                E.prove(z3.And(0 <= q, q < Iv(S.n), S.fperm(q) == p), 'an item has a place in the sorted sequence')
                pts.append(q)
    E.st.notes[key] = pts
    return pts


class _Lookup(Use):
    def generic_item(self, E, fn, n, width=1):
        return generic_item(E, fn, n, width)

    def answer(self, E, lo, hi, at, x):
        """present at some position of [lo, hi) with at(p) == x, or absent from all of them"""
        if E.itervars:
            raise Unsupported('a lookup in new index data inside a loop')
        if E.choose(2) == 0:
            r = E.fresh('found')
            E.assume([Iv(lo) <= r, r < Iv(hi)] + [a == b for a, b in zip(at(r), x)], decision=True)
            E.assume(T.inst_quant(E.st.pc, [r]))
            if not E.feasible(z3.BoolVal(True)):
                raise PathDead()
            return r
        for w in follow(E, E.st.notes.get('points', [])):
            E.assume(z3.Implies(z3.And(Iv(lo) <= w, w < Iv(hi)), z3.Not(z3.And(*[a == b for a, b in zip(at(w), x)]))))
        if not E.feasible(z3.BoolVal(True)):
            raise PathDead()
        return None

    def increasing(self, E, lo, hi, at, name):
        key = ('sorted', name)
        if key in E.st.notes:
            return
        E.prove(Q(['p', 'q'], lambda p, q: z3.Implies(z3.And(Iv(lo) <= p, p < q, q < Iv(hi)), lex_less(at(p), at(q)))), name)
        E.st.notes[key] = True


@use
class UseFlatPosition(_Lookup):
    target = STORE + 'get_flatcoo_position'

    def applies(self, E, vals, kw):
        return is_int(vals[0]) and E.obj(vals[2]) is not None

    def apply(self, E, vals, kw):
        x, buf = Iv(vals[0]), vals[2]
        g = ghost_of(E, buf)
        if g is not None:
            return g.lookup(E, x)
        n = E.num(E.builtins['len'].fn(buf))
        at = self.generic_item(E, lambda p: [E.getitem(buf, p)], n)
        self.increasing(E, 0, n, at, 'flattened indices are sorted, without duplicates')
        return self.answer(E, 0, n, at, [x])


@use
class UseCooPosition(_Lookup):
    target = STORE + 'get_coo_position'

    def applies(self, E, vals, kw):
        return ints(E, vals[0]) is not None and ints(E, vals[1]) is not None and E.obj(vals[2]) is not None

    def apply(self, E, vals, kw):
        ind, d = vals[2], len(ints(E, vals[1]))
        x = [Iv(v) for v in ints(E, vals[0])]
        g = ghost_of(E, ind)
        if g is not None:
            return g.lookup(E, g.code.pos(x))
        sh = ints(E, E.getattr_(ind, 'shape'))
        E.prove(z3.BoolVal(len(sh) == 2 and sh[0] == d), 'coordinates: one row per axis')
        n = sh[1]
        at = self.generic_item(E, lambda p: [E.getitem(ind, CSeq([j, p])) for j in range(d)], n, d)
        self.increasing(E, 0, n, at, 'coordinates are sorted, without duplicates')
        return self.answer(E, 0, n, at, x)


@use
class UseCsrPosition(_Lookup):
    target = STORE + 'get_csr_position'

    def applies(self, E, vals, kw):
        return ints(E, vals[0]) is not None and ints(E, vals[1]) is not None and E.obj(vals[2]) is not None

    def apply(self, E, vals, kw):
        row, x = [Iv(v) for v in ints(E, vals[0])]
        crow, col = vals[2], vals[3]
        g = ghost_of(E, crow)
        if g is not None and ghost_of(E, col) is g:
            return g.lookup(E, g.code.pos([row, x]))
        rows = Iv(ints(E, vals[1])[0])
        n = E.num(E.builtins['len'].fn(col))
        cr = self.generic_item(E, lambda r: [E.getitem(crow, r)], simp(rows + 1))
        co = self.generic_item(E, lambda p: [E.getitem(col, p)], n)
        E.prove(z3.And(cr(0)[0] == 0, cr(rows)[0] == Iv(n)), 'row bounds start with 0 and end with the number of elements')
        if ('sorted', 'crow') not in E.st.notes:
            E.prove(Q(['r'], lambda r: z3.Implies(z3.And(0 <= r, r < rows), z3.And(
                0 <= cr(r)[0], cr(r)[0] <= cr(r + 1)[0], cr(r + 1)[0] <= Iv(n)))), 'row bounds do not decrease')
            E.prove(Q(['r', 'p', 'q'], lambda r, p, q: z3.Implies(z3.And(
                0 <= r, r < rows, cr(r)[0] <= p, p < q, q < cr(r + 1)[0]), co(p)[0] < co(q)[0]),
                hints=lambda r, p, q: self.rows(E, [r, r + 1], [p, q])), 'columns of a row are sorted')
            E.st.notes[('sorted', 'crow')] = True
        lo, hi = cr(row)[0], cr(row + 1)[0]
        E.prove(z3.And(0 <= row, row < rows), 'the row exists')
        E.assume([0 <= lo, lo <= hi, hi <= Iv(n)])
        pts = E.st.notes.get('points', [])
        E.assume(self.rows(E, [row, row + 1], follow(E, pts)))
        r = self.answer(E, lo, hi, co, [x])
        if r is not None:
            E.assume(self.rows(E, [row, row + 1], [r]))
        return r

    def rows(self, E, rs, ps):
        return [f(r, p) for f in E.st.notes.get("compressed", ()) for r in rs for p in ps]


@use
class UseCsrIteration(_Lookup):
    """item p is ((row, column p), p), where the bounds of the row contain p"""
    target = STORE + 'CSR.indices_and_data_position'

    def applies(self, E, vals, kw):
        o = E.obj(vals[0])
        return o is not None and all(a in o.attrs for a in ('crow_indices', 'col_indices'))

    def apply(self, E, vals, kw):
        o = E.obj(vals[0])
        crow, col = o.attrs['crow_indices'], o.attrs['col_indices']
        rows = Iv(ints(E, o.attrs['shape'])[0])
        n = Iv(E.num(E.builtins['len'].fn(col)))
        g = ghost_of(E, crow)
        if g is not None and ghost_of(E, col) is g:
            return SSeq(n, lambda p: CSeq([CSeq(g.index(p)), Iv(p)]), 0, 'gen')
        cr = generic_item(E, lambda r: [E.getitem(crow, r)], simp(rows + 1))
        co = generic_item(E, lambda p: [E.getitem(col, p)], n)
        E.prove(z3.And(cr(0)[0] == 0, cr(rows)[0] == n), 'row bounds start with 0 and end with the number of elements')
        E.prove(Q(['r'], lambda r: z3.Implies(z3.And(0 <= r, r < rows), cr(r)[0] <= cr(r + 1)[0])), 'row bounds do not decrease')
        if E.itervars:
            raise Unsupported('listing the elements of new index data in a loop')
        row = E.fresh_fn('row', Int, Int)
        nm = row(z3.IntVal(0)).decl().name()
        known = E.st.notes.get("compressed", ())
        T.TRIGGERS[nm] = [lambda p: [z3.Implies(z3.And(0 <= p, p < n), z3.And(
            0 <= row(p), row(p) < rows, cr(row(p))[0] <= p, p < cr(row(p) + 1)[0]))] + [
                f(r, p) for f in known for r in (row(p), row(p) + 1)]]
        T.PAIR_TRIGGERS[nm] = lambda a, b: [z3.Implies(z3.And(0 <= x, x <= y, y < n), row(x) <= row(y))
                                            for x, y in ((a[0], b[0]), (b[0], a[0]))]
        return SSeq(n, lambda p: CSeq([CSeq([row(Iv(p)), co(p)[0]]), Iv(p)]), 0, 'gen')


# ------------------------------------------------------------------ sorted()

class Sorting:
    """perm: the order of sorted(); iperm: its inverse"""

    def __init__(self, E, n, key):
        E.st.ctr += 1
        self.n, self.key = n, key
        self.fperm = z3.Function(f'perm!{E.st.ctr}', Int, Int)
        self.fiperm = z3.Function(f'iperm!{E.st.ctr}', Int, Int)
        N = Iv(n)

        def on_perm(i):
            p = self.fperm(i)
            return [z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= p, p < N, self.fiperm(p) == i))]

        def on_iperm(j):
            i = self.fiperm(j)
            return [z3.Implies(z3.And(0 <= j, j < N), z3.And(0 <= i, i < N, self.fperm(i) == j))]

        def on_pair(a, b):
            out = []
            for x, y in ((a[0], b[0]), (b[0], a[0])):
                out.append(z3.Implies(z3.And(0 <= x, x < y, y < N), z3.Not(lex_less(key(self.fperm(y)), key(self.fperm(x))))))
            return out
        T.TRIGGERS[self.fperm.name()] = [on_perm]
        T.TRIGGERS[self.fiperm.name()] = [on_iperm]
        T.PAIR_TRIGGERS[self.fperm.name()] = on_pair

    def iperm(self, j):
        return self.fiperm(Iv(j))


def flat_key(E, v):
    v = E.rv(v)
    if is_int(v):
        return [Iv(v)]
    if isinstance(v, CSeq):
        return [x for y in v.items for x in flat_key(E, y)]
    raise Unsupported('sorted items that are not tuples of integers')


def sort_hook(E, s):
    if E.codes is None:
        return None
    if E.itervars:
        raise Unsupported('sorted in a loop')
    q = z3.Int('q!sort')
    flat_key(E, s.get(q))
    S = Sorting(E, s.n, lambda i: flat_key(E, s.get(i)))
    E.st.notes["sortings"] = E.st.notes.get("sortings", ()) + (S,)
    return SSeq(s.n, lambda k: s.get(S.fperm(Iv(k))), 0, 'list')
