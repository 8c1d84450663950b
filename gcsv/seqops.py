"""Folds, index boxes, type tests and sets over symbolic sequences (methods of Engine)."""
import z3

from .terms import *  # noqa
from .terms import Int, Bool
from . import terms as T
from .values import *  # noqa
from . import loops as LP


def as_facts(E, goal):
    from .engine import Q
    if goal is None:
        return []
    if isinstance(goal, (list, tuple)):
        return [f for g in goal for f in as_facts(E, g)]
    if isinstance(goal, Q):
        return [goal.z3()]
    return [goal]


def fold(E, op, seq):
    n = simp(seq.n)
    if isinstance(n, int):
        r = 0 if op == 'sum' else 1
        for i in range(n):
            v = E.num(seq.get(i))
            r = simp(r + v) if op == 'sum' else simp(r * v)
        return r
    LP._K.n += 1
    k = z3.Int(f'k@{LP._K.n}')
    E.itervars.append(k)
    try:
        v = E.generic(lambda: E.num(seq.get(k)), [0 <= k, k < n])
    finally:
        E.itervars.pop()
    return fold_term(op, z3.substitute(Iv(v), (k, T.K)), 0, n)


def minmax(E, which, seq):
    n = simp(seq.n)
    E.safety(Iv(n) > 0, f'{which} of a non-empty sequence')
    w = E.fresh('arg')
    q = z3.Int('q!mm')
    m = E.num(seq.get(w))
    E.assume([0 <= w, w < Iv(n)])
    x = Iv(E.num(seq.get(q)))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < Iv(n)), x >= m if which == 'min' else x <= m)))
    return m


def isinst(E, x, t):
    if isinstance(x, Abs):
        if hasattr(x, 'isinst'):
            return x.isinst(E, t)
        return x.pytype is t or (isinstance(t, Cls) and isinstance(x.pytype, Cls) and x.pytype.issub(t)) or (
            isinstance(t, TypeVal) and x.pytype == t.name)
    o = E.obj(x)
    if isinstance(t, Cls):
        return o is not None and o.cls.issub(t)
    if isinstance(t, Sent):
        return False
    if not isinstance(t, TypeVal):
        raise Unsupported(f'isinstance with {t!r}')
    nm = t.name
    if nm == 'object':
        return True
    if isinstance(x, z3.ExprRef) and x.sort() == V:
        # an array element: neither a sequence nor a slice
        if nm in ('tuple', 'list', 'dict', 'set', 'slice'):
            return False
        raise Unsupported('type test of an array element')
    if nm == 'int':
        return is_int(x) or is_bool(x)
    if nm == 'bool':
        return is_bool(x)
    if nm == 'str':
        return isinstance(x, (str, z3.SeqRef))
    if nm == 'slice':
        return isinstance(x, SliceVal)
    if nm == 'tuple':
        return isinstance(x, Seq) and x.kind == 'tuple'
    if nm == 'list':
        return E.is_list(x)
    if nm in ('set', 'frozenset'):
        return E.is_set(x)
    if nm == 'dict':
        from .engine import DictRec
        return isinstance(x, Ref) and isinstance(E.st.heap[x.id], DictRec)
    if nm == 'float':
        return False
    raise Unsupported(f'isinstance with {nm}')


# ------------------------------------------------------------------ index boxes

def box(E, seqs):
    """itertools.product of a concrete number of sequences"""
    ns = [simp(s.n) for s in seqs]
    if all(isinstance(n, int) for n in ns):
        tot = 1
        for n in ns:
            tot *= n
        if tot <= 16:
            import itertools
            return CSeq([CSeq([s.get(i) for s, i in zip(seqs, ix)]) for ix in itertools.product(*map(range, ns))], 'gen')
    h = E.ext_hooks.get('box')
    r = h(E, ns) if h is not None else None
    if r is not None:
        return SSeq(r[0], lambda k: CSeq([s.get(d) for s, d in zip(seqs, r[1](Iv(k)))]), 0, 'gen')
    tot = 1
    for n in ns:
        tot = simp(Iv(tot) * Iv(n))

    def get(k):
        k = Iv(k)
        out = []
        for i in range(len(seqs) - 1, 0, -1):
            out.append(pymod(k, ns[i]))
            k = Iv(pydiv(k, ns[i]))
        out.append(k)
        out.reverse()
        return CSeq([s.get(simp(d)) for s, d in zip(seqs, out)])
    return SSeq(tot, get, 0, 'gen')


def box_sym(E, seq):
    n = simp(seq.n)
    c = n if isinstance(n, int) else E.const_value(n)
    if c is not None:
        return box(E, [E.as_plain_seq(E.rv(seq.get(i))) for i in range(c)])
    h = E.ext_hooks.get('box_sym')
    if h is not None:
        return h(E, seq)
    raise Unsupported('itertools.product of a symbolic number of sequences')


# ------------------------------------------------------------------ sets

def set_union(E, args):
    r = CSeq([], 'list')
    for a in args:
        r = E.concat(r, E.st.heap[a.id].seq if E.is_set(a) else E.seq_of(a))
    return E.mkset(r)


def set_union_star(E, seq):
    n = simp(seq.n)
    c = n if isinstance(n, int) else E.const_value(n)
    if c is None:
        raise Unsupported('union of a symbolic number of sets')
    return set_union(E, [E.rv(seq.get(i)) for i in range(c)])
