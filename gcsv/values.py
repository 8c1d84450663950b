"""Symbolic values of the verified Python subset."""
import z3
from .terms import *  # noqa
from .terms import Int, Bool
from . import terms as T


class Unsupported(Exception):
    """The code uses something outside of the verified subset."""


class Seq:
    """Immutable sequence value. kind: 'tuple', 'list' (contents of a list), 'range', 'gen', 'set'..."""
    kind = 'tuple'


class CSeq(Seq):
    """Sequence with a concrete number of items."""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='tuple'):
        self.items, self.kind = tuple(items), kind

    @property
    def n(self):
        return len(self.items)

    def get(self, k):
        k = simp(k)
        if isinstance(k, int):
            return self.items[k]
        if not self.items:
            return 0
        r = self.items[-1]
        for i in range(len(self.items) - 2, -1, -1):
            r = ite_val(k == i, self.items[i], r)
        return r

    def __repr__(self):
        return f'<{self.kind} {self.items}>'


class SSeq(Seq):
    """Sequence with a symbolic length; item k is base(off + k)."""
    __slots__ = ('n', 'base', 'off', 'kind', 'meta')

    def __init__(self, n, base, off=0, kind='tuple', meta=None):
        self.n, self.base, self.off, self.kind, self.meta = n, base, off, kind, meta

    def get(self, k):
        if isinstance(self.off, int) and self.off == 0:
            return self.base(k)
        return self.base(simp(Iv(self.off) + Iv(k)))

    def __repr__(self):
        return f'<{self.kind} n={self.n}>'


class CatSeq(Seq):
    __slots__ = ('parts', 'kind', 'decl')

    def __init__(self, parts, kind='tuple'):
        self.parts, self.kind = parts, kind
        self.decl = None

    @property
    def n(self):
        r = 0
        for p in self.parts:
            r = r + p.n
        return simp(r)

    def get(self, k):
        """items of a concatenation of integers are C(k), with a definition of C (schema CAT)"""
        k = simp(k)
        if isinstance(k, int) or self.decl is False:
            return self.item(k)
        if self.decl is None:
            t = z3.FreshConst(Int, 'cat')
            v = self.item(t)
            self.decl = False
            if is_int(v) and isinstance(v, z3.ExprRef) and all(T.is_plain(c) for c in T.free_consts(v)) and T.has_ite(v):
                T.CATS += 1
                self.decl = z3.Function(f'cat#{T.CATS}', Int, Int)
                n = self.n
                T.KEEP += [t, v]

                def define(a, d=self.decl):
                    row = T.ROW_OF.get(a.decl().name()) if z3.is_app(a) else None
                    if row is not None and z3.is_int_value(a.arg(0)):
                        # position (j, p) of a row-major table whose rows are the parts
                        m, j, p = row, a.arg(0).as_long(), a.arg(1)
                        if 0 <= j < len(self.parts) and all(Iv(x.n).eq(m) for x in self.parts):
                            return [z3.Implies(z3.And(0 <= p, p < m), d(a) == Iv(self.parts[j].get(p)))]
                    return [z3.Implies(z3.And(0 <= a, a < Iv(n)), d(a) == z3.substitute(v, (t, a)))]
                T.TRIGGERS[self.decl.name()] = [define]
        return self.decl(Iv(k)) if self.decl is not False else self.item(k)

    def item(self, k):
        lo = 0
        alts = []
        for p in self.parts:
            alts.append((lo, p))
            lo = simp(lo + Iv(p.n))
        r = None
        for lo, p in reversed(alts):
            if isinstance(p, CSeq) and not p.items:
                continue
            # item of this part when k >= lo
            if isinstance(p, CSeq) and len(p.items) == 1:
                v = p.items[0]
            else:
                v = p.get(simp(Iv(k) - lo))
            r = v if r is None else ite_val(Iv(k) < Iv(simp(lo + Iv(p.n))), v, r)
        return r


class UpdSeq(Seq):
    __slots__ = ('seq', 'idx', 'val', 'kind')

    def __init__(self, seq, idx, val, kind='tuple'):
        self.seq, self.idx, self.val, self.kind = seq, idx, val, kind

    @property
    def n(self):
        return self.seq.n

    def get(self, k):
        return ite_val(simp(Iv(k) == Iv(self.idx)), self.val, self.seq.get(k))


class HavSeq(Seq):
    """Unknown contents (a loop-modified sequence at the start of a generic iteration)."""
    __slots__ = ('n', 'base', 'kind', 'tag')

    def __init__(self, n, base, kind, tag):
        self.n, self.base, self.kind, self.tag = n, base, kind, tag

    def get(self, k):
        if self.base is None:
            raise Unsupported('reading a sequence that the loop is building')
        return self.base(k)


def rekind(s, kind):
    if s.kind == kind:
        return s
    if isinstance(s, CSeq):
        return CSeq(s.items, kind)
    if isinstance(s, SSeq):
        return SSeq(s.n, s.base, s.off, kind, s.meta)
    if isinstance(s, CatSeq):
        return CatSeq(s.parts, kind)
    if isinstance(s, UpdSeq):
        return UpdSeq(s.seq, s.idx, s.val, kind)
    if isinstance(s, HavSeq):
        return HavSeq(s.n, s.base, kind, s.tag)
    raise Unsupported(f'sequence {type(s)}')


class SliceVal:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f'slice({self.start}, {self.stop}, {self.step})'


class U:
    """Value that depends on conditions: the first alternative whose condition holds."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f'U{self.alts}'


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f'@{self.id}'

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Slot:
    """A mutable list that is item idx of the list `parent` (lists created in a symbolic loop)."""
    __slots__ = ('parent', 'idx')

    def __init__(self, parent, idx):
        self.parent, self.idx = parent, idx


class ListRec:
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = rekind(seq, 'list')


class LogRec(ListRec):
    """A dictionary that is built with symbolic keys: the (key, value) pairs in the order of assignment.
    That the keys are distinct is an obligation where the dictionary is used."""
    __slots__ = ()


class DictRec:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items      # tuple of (key, value), concrete keys


class OpaqueRec:
    """A dictionary of integers of which nothing is known (see Contract.opaque)."""


OPQ = OpaqueRec()


class SetRec:
    __slots__ = ('seq', 'mem')

    def __init__(self, seq, mem=None):
        self.seq, self.mem = seq, mem


class ObjRec:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Func:
    def __init__(self, node, module, env, name, cls=None, kind='function', defaults=(), kwdefaults=None):
        self.node, self.module, self.env, self.name, self.cls, self.kind = node, module, env, name, cls, kind
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}

    @property
    def qualname(self):
        return f'{self.module.name}.{self.name}' if self.cls is None else f'{self.module.name}.{self.cls.name}.{self.name}'

    def __repr__(self):
        return f'<func {self.qualname}>'


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Cls:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro()
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f'<class {self.name}>'


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class TypeVal:
    """Builtin type used in isinstance and as a constructor."""

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<type {self.name}>'


class Sent:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class Opaque:
    """A value nobody may look into (formatted messages, frames...)."""

    def __init__(self, what='opaque'):
        self.what = what


class Abs:
    """Base of abstract objects that contracts introduce; see the hooks in engine.py."""
    pytype = None


# ------------------------------------------------------------------ merging and substitution

def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bool, type(None))):
        return a == b
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, CSeq):
        return a.kind == b.kind and len(a.items) == len(b.items) and all(map(same_val, a.items, b.items))
    if isinstance(a, SliceVal):
        return same_val(a.start, b.start) and same_val(a.stop, b.stop) and same_val(a.step, b.step)
    if isinstance(a, SSeq):
        return a.base is b.base and same_val(a.n, b.n) and same_val(a.off, b.off)
    if isinstance(a, U):
        return len(a.alts) == len(b.alts) and all(same_val(x[0], y[0]) and same_val(x[1], y[1])
                                                  for x, y in zip(a.alts, b.alts))
    return False


def ite_val(c, a, b):
    """The value a if c else b."""
    if isinstance(c, bool):
        return a if c else b
    c = simp(c)
    if isinstance(c, bool):
        return a if c else b
    if same_val(a, b):
        return a
    if (is_int(a) and is_int(b)) or (is_bool(a) and is_bool(b)):
        return Ite(c, a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, z3.ExprRef) and a.sort() == V and b is None:
        return z3.If(c, a, VNONE)
    if isinstance(b, z3.ExprRef) and b.sort() == V and a is None:
        return z3.If(c, VNONE, b)
    if isinstance(a, CSeq) and isinstance(b, CSeq) and a.kind == b.kind and a.n == b.n:
        return CSeq([ite_val(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, SliceVal) and isinstance(b, SliceVal):
        return SliceVal(ite_val(c, a.start, b.start), ite_val(c, a.stop, b.stop), ite_val(c, a.step, b.step))
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
        if isinstance(b, CSeq) and not b.items:
            return SSeq(Ite(c, a.n, 0), a.get, 0, a.kind)
        if isinstance(a, CSeq) and not a.items:
            return SSeq(Ite(c, 0, b.n), b.get, 0, a.kind)
        return SSeq(Ite(c, a.n, b.n), lambda k, a=a, b=b, c=c: ite_val(c, a.get(k), b.get(k)), 0, a.kind)
    alts = []
    for cond, v in (a.alts if isinstance(a, U) else [(True, a)]):
        alts.append((And(c, cond), v))
    for cond, v in (b.alts if isinstance(b, U) else [(True, b)]):
        alts.append((cond, v))
    return U(alts)


def subst_val(v, pairs):
    """Replace constants in a value."""
    if isinstance(v, z3.ExprRef):
        return conc(z3.substitute(v, *pairs))
    if isinstance(v, CSeq):
        return CSeq([subst_val(x, pairs) for x in v.items], v.kind)
    if isinstance(v, SliceVal):
        return SliceVal(subst_val(v.start, pairs), subst_val(v.stop, pairs), subst_val(v.step, pairs))
    if isinstance(v, U):
        return U([(subst_val(c, pairs), subst_val(x, pairs)) for c, x in v.alts])
    if isinstance(v, SSeq):
        return SSeq(subst_val(v.n, pairs), Subst(v.base, pairs), subst_val(v.off, pairs), v.kind,
                    v.meta.subst(pairs) if v.meta is not None and hasattr(v.meta, 'subst') else None)
    if isinstance(v, (CatSeq, UpdSeq, HavSeq)):
        w = v
        return SSeq(subst_val(w.n, pairs), Subst(w.get, pairs), 0, v.kind)
    if isinstance(v, Abs) and hasattr(v, 'subst'):
        return v.subst(pairs)
    if isinstance(v, Slot):
        return Slot(v.parent, subst_val(v.idx, pairs))
    return v


class Subst:
    """base function under substitutions: applied to a fresh place holder, then substituted"""
    __slots__ = ('base', 'chain')
    COUNT = [0]

    def __init__(self, base, pairs):
        if isinstance(base, Subst):
            self.base, self.chain = base.base, base.chain + (tuple(pairs),)
        else:
            self.base, self.chain = base, (tuple(pairs),)

    def __call__(self, k):
        Subst.COUNT[0] += 1
        hole = z3.Int(f'hole!{Subst.COUNT[0]}')
        r = self.base(hole)
        for p in self.chain:
            r = subst_val(r, p)
        return subst_val(r, ((hole, Iv(k)),))
