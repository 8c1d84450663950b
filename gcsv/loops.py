"""Symbolic loops: a generic iteration is executed and summarised; see engine.py."""
import itertools

import z3

from .terms import *  # noqa
from .terms import Int, Bool
from . import terms as T
from .values import *  # noqa


class NeedRead(Exception):
    """The body reads a sequence that was first taken as write-only."""

    def __init__(self, tag):
        self.tag = tag


class Leaf(Abs):
    """Item of a write-only sequence at the start of the iteration."""

    def __init__(self, tag, idx):
        self.tag, self.idx = tag, idx

    def subst(self, pairs):
        return Leaf(self.tag, subst_val(self.idx, pairs))

    def _no(self, *a, **k):
        raise NeedRead(self.tag)
    getattr = getitem = setitem = len = iter = eq = truth = contains = call = _no


class Poison(Abs):
    """Value that the summary of a loop does not describe."""

    def __init__(self, what):
        self.what = what

    def subst(self, pairs):
        return self

    def _no(self, *a, **k):
        raise Unsupported(f'value of {self.what} after a loop')
    getattr = getitem = setitem = len = iter = eq = truth = contains = call = _no


class Loc:
    """A location that the loop modifies."""

    def __init__(self, key, name, init):
        self.key, self.name, self.init = key, name, init
        self.mode = None       # 'int' | 'bool' | 'val' | 'build' | 'func' | 'poison'
        self.cf = None         # closed form: function of k
        self.hav = None        # havoc: function of k
        self.tag = None
        self.base = None


class Summary:
    pass


def getloc(st, key):
    if key[0] == 'env':
        return st.envs[key[1]].get(key[2])
    rec = st.heap[key[1]]
    if isinstance(rec, ListRec):
        return rec.seq
    if isinstance(rec, ObjRec) and len(key) > 2:
        return rec.attrs.get(key[2])
    return rec


def setloc(st, key, v):
    if key[0] == 'env':
        st.envs[key[1]][key[2]] = v
        return
    rec = st.heap[key[1]]
    if isinstance(rec, ListRec):
        st.heap[key[1]] = type(rec)(v) if isinstance(v, Seq) else v
    elif isinstance(rec, ObjRec) and len(key) > 2:
        a = dict(rec.attrs)
        a[key[2]] = v
        st.heap[key[1]] = ObjRec(rec.cls, a)
    else:
        st.heap[key[1]] = LogRec(v) if isinstance(rec, DictRec) and isinstance(v, Seq) else v


def modified(entry, st):
    """keys of locations of `entry` that differ in st"""
    out = []
    for eid, env in entry.envs.items():
        new = st.envs[eid]
        if new is env:
            continue
        for nm in set(env) | set(new):
            if nm not in env:
                continue      # only defined by the body
            if nm not in new:
                raise Unsupported('a loop deletes a variable')
            if not same_val(env[nm], new[nm]):
                out.append(('env', eid, nm))
    for rid, rec in entry.heap.items():
        new = st.heap[rid]
        if new is rec:
            continue
        if isinstance(rec, ListRec) and isinstance(new, ListRec):
            if not same_val(rec.seq, new.seq):
                out.append(('heap', rid))
        elif isinstance(rec, ObjRec) and isinstance(new, ObjRec):
            for a in set(rec.attrs) | set(new.attrs):
                if a not in rec.attrs:
                    raise Unsupported('a loop adds attributes to an object')
                if not same_val(rec.attrs[a], new.attrs.get(a)):
                    out.append(('heap', rid, a))
        else:
            out.append(('heap', rid))
    return out


def seq_parts(v):
    return list(v.parts) if isinstance(v, CatSeq) else [v]


def elem_sort(E, v):
    """sort of the items of a sequence, from a generic item; None if unknown"""
    n = simp(v.n)
    if isinstance(n, int) and n == 0:
        return None
    q = z3.Int('q!el')
    x = v.get(q) if not isinstance(n, int) else v.get(0)
    if is_int(x):
        return Int
    if isinstance(x, z3.ExprRef) and x.sort() == V:
        return V
    return None


class _K:
    """counter of iteration variables (never reused within a process)"""
    n = 0


def sym_loop(E, node, N, bind, body, orelse, cond=None):
    tr = E.trace
    tr.nloops += 1
    key = ('loop', tuple(tr.choices), tr.nloops)
    if key not in tr.memo:
        tr.memo[key] = E._summarize(node, N, bind, body, cond)
    S = tr.memo[key]
    E.st.ctr = max(E.st.ctr, S.ctr)
    if S.dead_exits:
        d = 0
    else:
        d = E.choose(2)
    lim = S.N if d == 0 else E.fresh('kx')
    if cond is not None and d == 0:
        E.assume(lim >= 0)
    if d == 1:
        E.assume(lim >= 0)
        E.assume(lim < Iv(S.N))
    for L in S.locs:
        setloc(E.st, L.key, L.cf(lim))
    for f in S.facts(lim):
        E.assume(f)
    for c in S.invs:
        for f in E.as_facts(c(S.values(lim), lim)):
            E.assume(f)
    if d == 0:
        if cond is not None:
            if E.branch(cond()):
                from .engine import PathDead
                raise PathDead()
        if orelse is not None:
            orelse()
        return
    from .engine import PathDead, BreakSig, ContinueSig
    E.spec_depth += 1
    try:
        if not E.feasible(True):
            raise PathDead()
        try:
            bind(lim)
            if cond is not None and not E.branch(cond()):
                raise PathDead()
            body()
        except ContinueSig:
            raise PathDead()
        except BreakSig:
            return
        raise PathDead()
    finally:
        E.spec_depth -= 1


def make_loc(E, key, entry, k):
    init = getloc(entry, key)
    if isinstance(init, DictRec) and not init.items and not E.opaque_ok:
        entry.heap[key[1]] = LogRec(CSeq([]))
        init = getloc(entry, key)
    name = key[2] if key[0] == 'env' else f'list{key[1]}' + (f'.{key[2]}' if len(key) > 2 else '')
    L = Loc(key, name, init)
    L.tag = f'{name}@{k}'
    E.st.ctr += 1
    L.uid = f'h.{name}!{E.st.ctr}'
    if is_int(init):
        L.mode = 'int'
    elif is_bool(init):
        L.mode = 'bool'
    elif isinstance(init, z3.ExprRef) and init.sort() == V:
        L.mode = 'val'
    elif isinstance(init, Seq):
        L.mode = 'build'
    elif isinstance(init, OpaqueRec) or isinstance(init, DictRec) and E.opaque_ok:
        L.mode = 'opaque'
    else:
        L.mode = 'poison'
    return L


def hav_value(E, L, k, lengths=None):
    """unknown value of the location after k iterations; a function of the enclosing iteration variables and k"""
    its = [v for v in E.itervars if not v.eq(L.kvar)]
    if L.mode in ('int', 'bool', 'val'):
        srt = {'int': Int, 'bool': Bool, 'val': V}[L.mode]
        f = z3.Function(L.uid, *([Int] * (len(its) + 1) + [srt]))
        return f(*its, Iv(k))
    if L.mode == 'opaque':
        return OPQ
    if L.mode == 'build':
        n = z3.Function(L.uid + '.n', *([Int] * (len(its) + 1) + [Int]))(*its, Iv(k)) if not L.fixed else L.init.n
        return HavSeq(n, lambda i, L=L: Leaf(L.tag, i), L.init.kind, L.tag)
    if L.mode == 'func':
        n = z3.Function(L.uid + '.n', *([Int] * (len(its) + 1) + [Int]))(*its, Iv(k)) if not L.fixed else L.init.n
        srt = L.esort
        f = z3.Function(L.uid, *([Int] * (len(its) + 2) + [srt]))
        return SSeq(n, lambda i, f=f, its=tuple(its), k=k: f(*its, Iv(k), Iv(i)), 0, L.init.kind)
    return Poison(L.name)


def and_delta(out, nd):
    return And(*out.state.dec[nd:])


def _summarize(E, node, N, bind, body, cond):
    from .engine import PathDead, Q
    entry = E.st.copy()
    _K.n += 1
    k = z3.Int(f'k@{_K.n}')
    whl = cond is not None
    Nt = E.fresh('iters') if whl else N
    locs = {}
    nd, npc = len(entry.dec), len(entry.pc)

    def run(state_vals, invs, record=False):
        """explore the generic iteration k"""
        st = entry.copy()
        st.ctr = max(st.ctr, E.st.ctr)
        for L in locs.values():
            setloc(st, L.key, state_vals(L))
        saved = E.st
        E.st = st
        try:
            E.assume([k >= 0])
            E.assume(k < Iv(Nt))
            vals = {L.key: getloc(st, L.key) for L in locs.values()}
            for c in invs:
                for f in E.as_facts(c(vals, k)):
                    E.assume(f)
            if record and not E.feasible(True):
                return [], 0
            np2 = len(E.st.pc)

            def step():
                bind(k)
                if whl and not E.branch(cond()):
                    raise PathDead()
                body()
            if not record:
                E.spec_depth += 1
            try:
                outs = E.explore(step)
            finally:
                if not record:
                    E.spec_depth -= 1
            return outs, np2
        finally:
            saved.ctr = max(saved.ctr, E.st.ctr)
            E.st = saved

    E.itervars.append(k)
    try:
        use_cf = False
        for rnd in range(14):
            def sv(L):
                if use_cf and L.cf is not None:
                    return L.cf(k)
                return L.hav(k)
            try:
                outs, _ = run(sv, [])
            except NeedRead as e:
                own = [x for x in locs.values() if x.tag == e.tag]
                if not own:
                    raise           # belongs to an enclosing loop
                L = own[0]
                srt = elem_sort(E, L.init)
                if srt is None:
                    raise Unsupported(f'a loop reads the sequence {L.name} that it builds')
                L.mode, L.esort = 'func', srt
                continue
            new = False
            for o in outs:
                if o.kind in ('exc',):
                    continue
                ref = o.state
                base = entry.copy()
                for L in locs.values():
                    setloc(base, L.key, sv(L))
                for key in modified(base, ref):
                    if key in locs:
                        continue
                    L = make_loc(E, key, entry, k)
                    L.kvar = k
                    L.fixed = L.mode in ('build', 'func') and len_fixed(L, getloc(ref, key), L.init)
                    L.hav = lambda kk, L=L: hav_value(E, L, kk)
                    locs[key] = L
                    new = True
            # lengths that turn out to change
            for L in locs.values():
                if L.mode in ('build', 'func') and L.fixed:
                    for o in outs:
                        if o.kind == 'normal' and isinstance(getloc(o.state, L.key), Seq):
                            if not len_same(E, o.state, getloc(o.state, L.key).n, L.init.n):
                                L.fixed = False
                                new = True
            # values whose type changes
            for L in locs.values():
                for o in outs:
                    if o.kind != 'normal' or L.mode in ('poison', 'opaque'):
                        continue
                    v = getloc(o.state, L.key)
                    ok = {'int': is_int, 'bool': is_bool,
                          'val': lambda x: isinstance(x, z3.ExprRef) and x.sort() == V or x is None}.get(
                              L.mode, lambda x: isinstance(x, Seq))(v)
                    if not ok and not (isinstance(v, DictRec) and isinstance(L.init, Seq)):     # becomes a LogRec
                        L.mode = 'poison'
                        new = True
            if new:
                continue
            break
        else:
            raise Unsupported('the effect of a loop could not be determined')

        for rnd in range(8):
            state = extract_round(E, locs, outs, entry, k, nd, Nt)
            if state == 'done':
                break
            outs, _ = run(lambda L: L.cf(k) if L.cf is not None else L.hav(k), [])
        order = sorted(locs.values(), key=lambda L: str(L.key))
        # candidate invariants
        invs = candidates(E, order, entry, k, Nt, whl, outs)
        for ci in range(len(E.active_hints)):
            invs += E.active_hints[ci](E, order, entry, k, Nt) or []

        def vals_at(t):
            return {L.key: (L.cf(t) if L.cf is not None else L.hav(t)) for L in order}
        # true initially?
        E.st = entry.copy()
        E.st.ctr = max(E.st.ctr, entry.ctr)
        keep = []
        init_vals = {L.key: L.init for L in order}
        saved_it = E.itervars.pop()
        try:
            for c in invs:
                if holds(E, entry, c(init_vals, z3.IntVal(0))):
                    keep.append(c)
        finally:
            E.itervars.append(saved_it)
        invs = keep
        for rnd in range(10):
            def sv2(L):
                return L.cf(k) if L.cf is not None else L.hav(k)
            outs, np2 = run(sv2, invs)
            for o in outs:
                if o.kind == 'exc':
                    continue
                base = entry.copy()
                for L in order:
                    setloc(base, L.key, sv2(L))
                for key in modified(base, o.state):
                    if key not in locs:
                        raise Unsupported('the effect of a loop could not be determined (late modification)')
            bad = []
            for c in invs:
                for o in outs:
                    if o.kind != 'normal':
                        continue
                    nv = {L.key: getloc(o.state, L.key) for L in order}
                    if not holds(E, o.state, c(nv, simp(k + 1))):
                        bad.append(c)
                        break
            if bad:
                invs = [c for c in invs if c not in bad]
                continue
            # closed forms with the better knowledge of the paths
            if rnd < 4 and any(L.cf is None and L.mode not in ('poison', 'opaque') for L in order):
                before = [L.cf is None for L in order]
                E._extract(locs, outs, entry, k, nd, Nt, retry=True, np2=np2)
                if [L.cf is None for L in order] != before:
                    continue
            break
        else:
            raise Unsupported('no inductive invariant')

        # final pass: obligations of the body, of the invariants and of the closed forms
        outs, np2 = run(sv2, invs, record=True)
        line = getattr(node[0] if isinstance(node, tuple) else node, 'lineno', '?')
        for o in outs:
            if o.kind != 'normal':
                continue
            sv_st, E.st = E.st, o.state
            try:
                for L in order:
                    v = getloc(o.state, L.key)
                    if L.cf is not None and L.mode in ('int', 'bool', 'val') and not L.verified:
                        E.prove(E.eq(v, L.cf(simp(k + 1))), f'loop at line {line}: closed form of {L.name} is inductive')
                nv = {L.key: getloc(o.state, L.key) for L in order}
                if not E.spec_depth:
                    for c in invs:
                        E.record(f'loop at line {line}: invariant is inductive', 'ok', 0.0)
                if whl:
                    if not termination(E, order, o, sv2, k):
                        if not E.spec_depth:
                            E.record(f'loop at line {line}: terminates', 'unknown', 0.0, 'no decreasing measure found')
                    elif not E.spec_depth:
                        E.record(f'loop at line {line}: terminates', 'ok', 0.0)
            finally:
                E.st = sv_st
    finally:
        E.itervars.pop()
        top = E.st.ctr
    E.st = entry
    E.st.ctr = max(top, entry.ctr)

    S = Summary()
    S.N = Nt
    S.locs = order
    S.invs = invs
    S.dead_exits = not any(o.kind != 'normal' for o in outs)
    for L in order:
        if L.cf is None:
            L.cf = L.hav if L.mode != 'poison' and (L.mode != 'build' or L.fixed) else (lambda t, L=L: Poison(L.name))
    S.values = lambda t: {L.key: L.cf(t) for L in order}
    ex_guards = []
    rules = []
    for o in outs:
        g = And(*[d for d in o.state.dec[nd:]])
        new = o.state.pc[np2:]
        if o.kind != 'normal':
            # the decisions that lead to the exit
            ex_guards.append(And(*new_decisions(o, nd, new)))
        else:
            gd = And(*new_decisions(o, nd, new))
            decs = set(d.get_id() for d in o.state.dec[nd:])
            fs = [f for f in new if f.get_id() not in decs and mentions_iter(f, k)]
            if fs:
                rules.append(Implies(gd, And(*fs)))
            if not S.dead_exits or whl:
                pass
    body_rules = list(rules)
    if ex_guards:
        # the iterations before the limit left the loop neither way
        norm = [And(*new_decisions(o, nd, o.state.pc[np2:])) for o in outs if o.kind == 'normal']
        body_rules.append(Or(*norm) if norm else False)

    def facts(lim):
        res = []
        for r in body_rules:
            if r is True:
                continue
            bodyf = z3.Implies(z3.And(0 <= k, k < Iv(lim)), Bv(r))
            pats = patterns_for(r, k)
            qv = z3.Int(f'{k}q')
            bodyf = z3.substitute(bodyf, (k, qv))
            if pats:
                pats = [z3.substitute(p, (k, qv)) for p in pats]
                res.append(z3.ForAll([qv], bodyf, patterns=pats))
            else:
                res.append(z3.ForAll([qv], bodyf))
        return res
    S.facts = facts
    S.ctr = E.st.ctr
    return S


def new_decisions(o, nd, new):
    return o.state.dec[nd:]


def contains(f, k):
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def mentions_iter(f, k):
    return contains(f, k)


def patterns_for(r, k):
    """applications of uninterpreted functions with the bare iteration variable as an argument"""
    out, seen, stack = [], set(), [Bv(r)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                any(c.eq(k) for c in x.children()) and not x.decl().name().startswith(('sum#', 'prod#', 'fdiv', 'fmod')):
            if not any(c.num_args() for c in x.children() if not c.eq(k) and contains(c, k)):
                out.append(x)
        stack.extend(x.children())
    return out[:6]


def len_fixed(L, v, init):
    if not isinstance(v, Seq):
        return False
    a, b = simp(v.n), simp(init.n)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return same_val(a, b) or (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and simp(a == b) is True)


def len_same(E, st, a, b):
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if simp(Iv(a) == Iv(b)) is True:
        return True
    return T.solve(st.pc + [Iv(a) != Iv(b)], timeout=1500, rounds=2) == 'unsat'


def holds(E, st, goal):
    """does the state entail the goal (formula, Q, or a list of them)?"""
    from .engine import Q
    if isinstance(goal, (list, tuple)):
        return all(holds(E, st, g) for g in goal)
    if isinstance(goal, Q):
        vs = [z3.FreshConst(Int, n) for n in goal.names]
        T.KEEP.extend(vs)
        return holds_f(st, goal.fn(*vs), vs)
    return holds_f(st, goal, [])


def holds_f(st, f, vs):
    f = conc(f)
    if f is True:
        return True
    if f is False:
        return T.solve(st.pc, timeout=2000, rounds=2) == 'unsat'
    extra = T.inst_quant(st.pc, vs)
    return T.solve(st.pc + extra + [z3.Not(f)], timeout=2500, rounds=2) == 'unsat'


def candidates(E, order, entry, k, N, whl, outs):
    """generic candidate invariants over the integer locations"""
    out = []
    ints = [L for L in order if L.mode == 'int']
    free = [L for L in ints if L.cf is None]
    for L in free:
        out.append(lambda v, t, L=L: Iv(v[L.key]) >= Iv(L.init))
        out.append(lambda v, t, L=L: Iv(v[L.key]) <= Iv(L.init))
    for A, B in itertools.combinations(ints, 2):
        if A.cf is None or B.cf is None or A.nontriv or B.nontriv:
            out.append(lambda v, t, A=A, B=B: Iv(v[A.key]) - Iv(v[B.key]) == Iv(A.init) - Iv(B.init))
        if A.cf is None or B.cf is None:
            out.append(lambda v, t, A=A, B=B: Iv(v[A.key]) <= Iv(v[B.key]) + 1)
            out.append(lambda v, t, A=A, B=B: Iv(v[B.key]) <= Iv(v[A.key]) + 1)
            out.append(lambda v, t, A=A, B=B: Iv(v[A.key]) <= Iv(v[B.key]))
            out.append(lambda v, t, A=A, B=B: Iv(v[B.key]) <= Iv(v[A.key]))
    return out


def termination(E, order, o, sv, k):
    ints = [L for L in order if L.mode == 'int']
    forms = []
    for L in ints:
        forms.append(lambda v, L=L: Iv(v[L.key]))
        forms.append(lambda v, L=L: -Iv(v[L.key]))
    for A, B in itertools.permutations(ints, 2):
        forms.append(lambda v, A=A, B=B: Iv(v[A.key]) - Iv(v[B.key]))
    v0 = {L.key: sv(L) for L in order}
    v1 = {L.key: getloc(o.state, L.key) for L in order}
    for m in forms:
        try:
            a, b = m(v0), m(v1)
        except Exception:
            continue
        if holds_f(o.state, z3.And(b <= a - 1, a >= -4), []):
            return True
    return False


# ------------------------------------------------------------------ extraction of closed forms

def _extract(E, locs, outs, entry, k, nd, N, retry=False, np2=None):
    norm = [o for o in outs if o.kind == 'normal']
    for L in locs.values():
        if L.cf is not None:
            continue
        L.verified = False
        L.nontriv = True
        L.folded = False
        if L.mode in ('poison', 'opaque') or not norm:
            continue
        vals = [(And(*o.state.dec[nd:]), getloc(o.state, L.key), o) for o in norm]
        if L.mode == 'int':
            extract_int(E, L, vals, k, N)
        elif L.mode in ('bool', 'val'):
            extract_last(E, L, vals, k)
        elif L.mode in ('build', 'func'):
            extract_seq(E, L, vals, entry, k, N)


def loc_uids(L):
    return [L.uid, L.uid + '.n']


def mentions_loc(L, others, k):
    """does the closed form of L refer to the unknown value of another location"""
    try:
        v = L.cf(k)
        if isinstance(v, Seq):
            vs = [v.n, v.get(z3.Int('q!cl')) if not (isinstance(v.n, int) and v.n == 0) else 0]
        else:
            vs = [v]
    except NeedRead:
        return True
    names = [u for M in others for u in loc_uids(M)]
    return any(deep_sym(x, names) for x in vs)


def deep_sym(v, names):
    if isinstance(v, Seq) and not isinstance(v, CSeq):
        if isinstance(v.n, int) and v.n == 0:
            return False
        return deep_sym(v.n, names) or deep_sym(v.get(z3.Int('q!cl2')), names)
    if isinstance(v, CSeq):
        return any(deep_sym(x, names) for x in v.items)
    if isinstance(v, SliceVal):
        return any(deep_sym(x, names) for x in (v.start, v.stop, v.step))
    return any(has_sym(v, u) for u in names)


def telescope(E, L, locs, outs, k):
    """A location that keeps a constant distance to another one whose closed form is known."""
    norm = [o for o in outs if o.kind == 'normal']
    for B in locs.values():
        if B is L or B.cf is None or B.mode != 'int':
            continue
        c = simp(Iv(L.init) - Iv(B.init))
        h = L.hav(k)
        ok = True
        for o in norm:
            v, w = getloc(o.state, L.key), getloc(o.state, B.key)
            goal = z3.Implies(h == Iv(B.cf(k)) + c, Iv(v) == Iv(w) + c)
            if not holds_f(o.state, goal, []):
                ok = False
                break
        if ok and norm:
            L.cf = lambda t, B=B, c=c: simp(Iv(B.cf(t)) + c)
            L.nontriv, L.verified = False, False
            return True
    return False


def extract_round(E, locs, outs, entry, k, nd, N):
    """One round of closed forms; 'done', or 'again' after the body has to be executed with the new ones."""
    old = [L for L in locs.values() if L.cf is not None]
    E._extract(locs, outs, entry, k, nd, N)
    new = [L for L in locs.values() if L.cf is not None and L not in old]
    rest = [L for L in locs.values() if L.cf is None]
    if not new and not any(L.mode == 'int' for L in rest):
        return 'done'
    unknown = [L for L in locs.values() if L not in old]
    clean = [L for L in new if not mentions_loc(L, [M for M in unknown if M is not L], k)]
    simple = [L for L in clean if not getattr(L, 'folded', False)]
    if len(clean) == len(new) and len(simple) == len(new) and not rest:
        return 'done'
    if simple:
        for L in new:
            if L not in simple:
                L.cf = None
        return 'again' if len(simple) < len(unknown) else 'done'
    # nothing but folds: prefer a constant distance to a known location
    ints = [L for L in unknown if L.mode == 'int']
    saved = {L.key: L.cf for L in new}
    for L in ints:
        L.cf = None
    hit = [L for L in ints if telescope(E, L, locs, outs, k)]
    if hit:
        for L in new:
            if L not in hit:
                L.cf = None
        return 'again'
    for L in new:
        L.cf = saved[L.key]
    if clean:
        for L in new:
            if L not in clean:
                L.cf = None
        return 'again' if len(clean) < len(unknown) else 'done'
    ok = [L for L in new if not mentions_loc(L, [M for M in new if M is not L], k)]
    for L in new:
        if L not in ok:
            L.cf = None
    if ok and len(ok) < len(new):
        return 'again'
    return 'done'


def has_sym(v, uid):
    if isinstance(v, z3.ExprRef):
        stack, seen = [v], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() == uid:
                return True
            if z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return False
    if isinstance(v, CSeq):
        return any(has_sym(x, uid) for x in v.items)
    if isinstance(v, U):
        return any(has_sym(c, uid) or has_sym(x, uid) for c, x in v.alts)
    if isinstance(v, Leaf):
        return v.tag == uid
    return False


def merge(vals):
    """[(guard, value)] -> value"""
    r = vals[-1][1]
    for g, v in reversed(vals[:-1]):
        r = ite_val(g, v, r)
    return r


def extract_int(E, L, vals, k, N):
    h = L.hav(k)
    deltas = [simp(Iv(v) - h) for g, v, o in vals]
    same = all(same_val(d, deltas[0]) for d in deltas)
    if not same and any(has_sym(g, L.uid) for g, v, o in vals if len(vals) > 1):
        return
    if same:
        vals, deltas = vals[:1], deltas[:1]
    if not any(has_sym(d, L.uid) for d in deltas):
        d = merge([(g, dd) for (g, v, o), dd in zip(vals, deltas)])
        d = simp(d)
        if isinstance(d, int) or not contains(d, k) and not depends_iter(d, k):
            L.cf = lambda t, d=d: simp(Iv(L.init) + Iv(t) * Iv(d)) if not (isinstance(d, int) and d == 0) else L.init
            L.nontriv = not isinstance(d, int)
            if isinstance(d, int) and d == 1:
                L.nontriv = False
            return
        term = z3.substitute(Iv(d), (k, T.K))
        L.folded = True
        L.cf = lambda t, term=term: simp(Iv(L.init) + Iv(fold_term('sum', term, 0, t)))
        return
    if extract_last(E, L, vals, k):
        return
    # product
    fs = []
    for g, v, o in vals:
        f = simp(z3.substitute(Iv(v), (h, z3.IntVal(1))))
        z = simp(z3.substitute(Iv(v), (h, z3.IntVal(0))))
        if not isinstance(z, int) or z != 0 or has_sym(f, L.uid):
            return extract_reached(E, L, vals, k)
        if T.solve([Iv(v) != h * Iv(f)], timeout=500, rounds=0) != 'unsat':
            return extract_reached(E, L, vals, k)
        fs.append((g, f))
    d = simp(merge(fs))
    if isinstance(d, int) and d == 1:
        return
    term = z3.substitute(Iv(d), (k, T.K))
    L.folded = True
    L.cf = lambda t, term=term: simp(Iv(L.init) * Iv(fold_term('prod', term, 0, t)))


def extract_reached(E, L, vals, k):
    """x = max(x, e) and the like: after iteration k the value is e(k), given that it was e(k-1) before"""
    h = L.hav(k)
    cands = []
    for g, v, o in vals:
        v = Iv(v)
        stack, seen = [v], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                for leaf in (x.arg(1), x.arg(2)):
                    c = simp(z3.substitute(v, (x, leaf)))
                    if not has_sym(c, L.uid) and not any(same_val(c, d) for d in cands):
                        cands.append(c)
            stack.extend(x.children())
    for e in cands[:4]:
        prev = z3.If(k <= 0, Iv(L.init), Iv(subst_val(e, ((k, Iv(k - 1)),))))
        ok = True
        for g, v, o in vals:
            extra = T.inst_quant(o.state.pc, [k, simp(k - 1)])
            goal = z3.Implies(h == prev, Iv(v) == Iv(e))
            if T.solve(o.state.pc + extra + [z3.Not(goal)], timeout=2500, rounds=2) != 'unsat':
                ok = False
                break
        if ok:
            def cf(t, e=e):
                t = simp(t)
                if isinstance(t, int) and t == 0:
                    return L.init
                return ite_val(simp(Iv(t) <= 0), L.init, subst_val(e, ((k, Iv(simp(Iv(t) - 1))),)))
            L.cf = cf
            L.nontriv = True
            return True


def depends_iter(d, k):
    return contains(d, k)


def extract_last(E, L, vals, k):
    if any(has_sym(v, L.uid) for g, v, o in vals) or any(has_sym(g, L.uid) for g, v, o in vals):
        return False
    if any(has_sym(v, L.tag) for g, v, o in vals):
        return False
    v = merge([(g, v) for g, v, o in vals])
    if isinstance(v, U):
        return False

    def cf(t, v=v):
        t = simp(t)
        if isinstance(t, int) and t == 0:
            return L.init
        prev = subst_val(v, ((k, Iv(simp(Iv(t) - 1))),))
        return ite_val(simp(Iv(t) <= 0), L.init, prev)
    L.cf = cf
    L.nontriv = True
    return True


def extract_seq(E, L, vals, entry, k, N):
    app = []
    for g, v, o in vals:
        if not isinstance(v, Seq):
            return
        ps = seq_parts(v)
        head = ps[0]
        if isinstance(head, HavSeq) and head.tag == L.tag:
            app.append((g, ps[1:], o))
        else:
            app = None
            break
    if app is not None:
        return extract_append(E, L, app, k, N)
    if L.fixed and L.mode == 'build':
        return extract_store(E, L, vals, entry, k, N)
    # reassigned as a whole, independent of the previous value
    if L.mode == 'build':
        for g, v, o in vals:
            if not isinstance(v, CSeq) or has_sym(v, L.uid) or any(isinstance(x, (Leaf, U)) for x in v.items):
                return
        ns = set(len(v.items) for g, v, o in vals)
        if len(ns) == 1 and isinstance(simp(L.init.n), int) and simp(L.init.n) in ns:
            extract_last(E, L, vals, k)


def immutable(v):
    if isinstance(v, (Ref, Slot)):
        return False
    if isinstance(v, CSeq):
        return all(immutable(x) for x in v.items)
    if isinstance(v, U):
        return all(immutable(x) for _, x in v.alts)
    return True


def extract_append(E, L, app, k, N):
    kind = L.init.kind
    counts = set()
    for g, ps, o in app:
        if all(isinstance(p, CSeq) for p in ps):
            counts.add(sum(len(p.items) for p in ps))
        else:
            counts.add(None)
    items = [(g, [x for p in ps for x in p.items] if None not in counts else ps, o) for g, ps, o in app]
    if None not in counts:
        for g, it, o in items:
            if not all(immutable(x) for x in it):
                raise Unsupported('a loop stores mutable objects in a sequence')
    if counts == {0}:
        L.cf = lambda t: L.init
        return
    if len(counts) == 1 and None not in counts:
        c = counts.pop()
        vs = [merge([(g, it[j]) for g, it, o in items]) for j in range(c)]

        def base(p, vs=vs, c=c):
            p = simp(p)
            if c == 1:
                return subst_val(vs[0], ((k, Iv(p)),))
            j, r = pydiv(p, c), pymod(p, c)
            rr = [subst_val(v, ((k, Iv(j)),)) for v in vs]
            x = rr[-1]
            for i in range(c - 2, -1, -1):
                x = ite_val(simp(Iv(r) == i), rr[i], x)
            return x
        L.cf = lambda t: E.concat(L.init, SSeq(simp(Iv(t) * c), base, 0, kind)) if not (
            isinstance(simp(t), int) and simp(t) == 0) else L.init
        return
    if counts == {0, 1}:
        g1 = Or(*[g for g, it, o in items if it])
        val = merge([(g, it[0]) for g, it, o in items if it])
        FS = FilterSel(E, g1, k, N)

        def cf(t):
            t = simp(t)
            if isinstance(t, int) and t == 0:
                return L.init
            return E.concat(L.init, SSeq(FS.count(t), lambda p: subst_val(val, ((k, FS.sel(p)),)), 0, kind, FS))
        L.cf = cf
        L.filter = FS
        return
    # segments
    segs = []
    for g, ps, o in app:
        r = CSeq([], kind)
        for p in ps:
            r = E.concat(r, p)
        segs.append((g, r))
    n = merge([(g, s.n) for g, s in segs])
    FM = FlatSel(E, n, k, N)

    def seg(i, p):
        r = subst_val(segs[-1][1].get(z3.Int('seg!p')), ((k, Iv(i)), (z3.Int('seg!p'), Iv(p))))
        for g, s in reversed(segs[:-1]):
            r = ite_val(subst_val(g, ((k, Iv(i)),)), subst_val(s.get(z3.Int('seg!p')), ((k, Iv(i)), (z3.Int('seg!p'), Iv(p)))), r)
        return r

    def cf2(t):
        t = simp(t)
        if isinstance(t, int) and t == 0:
            return L.init
        return E.concat(L.init, SSeq(FM.off(t), lambda p: seg(FM.sel(p), simp(Iv(p) - FM.off(FM.sel(p)))), 0, kind, FM))
    L.cf = cf2


class FilterSel:
    """Positions k in [0, N) with g(k), in order: sel(p) is the p-th one, count(k) the number below k."""

    def __init__(self, E, g, k, N):
        self.E, self.g, self.k, self.N = E, g, k, N
        E.st.ctr += 1
        its = [v for v in E.itervars if not v.eq(k)]
        self.its = its
        self.term = z3.substitute(z3.If(Bv(g), z3.IntVal(1), z3.IntVal(0)), (k, T.K))
        # the same positions get the same enumeration
        ct = self.count(z3.Int('t!flt'))
        key = None
        if isinstance(ct, z3.ExprRef) and ct.decl().name() in T.BY_DECL and not its:
            T.KEEP += [ct, Iv(N)]
            key = (ct.decl().name(), tuple(x.get_id() for x in ct.children()), Iv(N).get_id())
            if key in E.filter_cache:
                self.fn = E.filter_cache[key]
                return
        self.fn = z3.Function(f'sel!{E.st.ctr}', *[Int] * (len(its) + 2))
        if key is not None:
            E.filter_cache[key] = self.fn
        E.filters.append(self)
        T.register_filter(self)

    def count(self, t):
        return fold_term('sum', self.term, 0, t)

    def sel(self, p):
        return self.fn(*self.its, Iv(p))

    def guard(self, t):
        return subst_val(self.g, ((self.k, Iv(t)),))


class FlatSel:
    """Concatenation of segments of lengths n(k): sel(p) is the segment that contains position p."""

    def __init__(self, E, n, k, N):
        self.E, self.nt, self.k, self.N = E, n, k, N
        E.st.ctr += 1
        its = [v for v in E.itervars if not v.eq(k)]
        self.its = its
        self.term = z3.substitute(Iv(n), (k, T.K))
        self.fn = z3.Function(f'seg!{E.st.ctr}', *[Int] * (len(its) + 2))
        T.register_flat(self)

    def off(self, t):
        return Iv(fold_term('sum', self.term, 0, t))

    def sel(self, p):
        return self.fn(*self.its, Iv(p))

    def len_at(self, t):
        return subst_val(self.nt, ((self.k, Iv(t)),))


def alts_of(v):
    return v.alts if isinstance(v, U) else [(True, v)]


def written(v, tag):
    """condition under which the item was written, and its value"""
    cond, val = False, []
    before = True
    for c, x in alts_of(v):
        here = And(before, c)
        if not isinstance(x, Leaf):
            cond = Or(cond, here)
            val.append((here, x))
        elif x.tag != tag:
            return None
        before = And(before, Not(c)) if not isinstance(c, bool) else (False if c else before)
    return cond, val


def extract_store(E, L, vals, entry, k, N):
    a = z3.Int('a!st')
    per = []
    for g, v, o in vals:
        x = v.get(a)
        w = written(x, L.tag)
        if w is None:
            return
        per.append((g, w, o))
    cond = False
    alts = []
    for g, (c, vs), o in per:
        cond = Or(cond, And(g, c))
        for cc, x in vs:
            if isinstance(x, (Leaf, Ref, Slot)):
                return
            alts.append((And(g, cc), x))
    cond = simp(cond) if not isinstance(cond, bool) else cond
    if cond is False:
        L.cf = lambda t: L.init
        return
    val = merge(alts) if len(alts) > 1 else alts[0][1]
    # a selector: which iteration writes item a
    sels = []
    for s in store_offsets(cond, a, k):
        sels.append(s)
    for hint in E.selectors:
        sels += hint(E, a) or []
    n = L.init.n
    k2 = z3.Int(f'k@{_K.n + 100000}')
    for s in sels:
        pcs = outs_pc(entry)
        ok = True
        for g, (c, vs), o in per:
            here = And(g, c)
            if here is False or not vs:
                continue
            goal = z3.Implies(z3.And(0 <= k, k < Iv(N), 0 <= a, a < Iv(n), Bv(here)), Iv(s) == k)
            base = o.state.pc
            extra = T.inst_quant(base, [a, k, simp(k - 1)])
            ok = ok and T.solve(base + extra + [z3.Not(goal)], timeout=4000, rounds=2) == 'unsat'
        if ok:
            def cf(t, s=s):
                t = simp(t)
                if isinstance(t, int) and t == 0:
                    return L.init

                def get(i):
                    si = simp(z3.substitute(Iv(s), (a, Iv(i))))
                    ci = subst_val(cond, ((a, Iv(i)), (k, Iv(si))))
                    vi = subst_val(val, ((a, Iv(i)), (k, Iv(si))))
                    return ite_val(simp(And(0 <= Iv(si), Iv(si) < Iv(t), ci)), vi, L.init.get(i))
                return SSeq(n, get, 0, L.init.kind)
            L.cf = cf
            L.selector = s
            if not E.spec_depth:
                E.record(f'loop store into {L.name}: every item is written by at most one iteration', 'ok', 0.0)
            return


def outs_pc(entry):
    return entry.pc


def store_offsets(cond, a, k):
    """candidate selectors from equations a == k + c in the condition"""
    out, seen, stack = [], set(), [Bv(cond)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == Int:
            l, r = x.arg(0), x.arg(1)
            d = z3.simplify(l - r)
            for sg in (1, -1):
                # a == k + c  <=>  k == a - c
                c = z3.simplify(a - k - sg * d)
                if not contains(c, a) and not contains(c, k):
                    out.append(z3.simplify(a - c))
                c = z3.simplify(a + k - sg * d)
                if not contains(c, a) and not contains(c, k):
                    out.append(z3.simplify(c - a))
        stack.extend(x.children())
    return out


def flat_seq(E, n, fn):
    _K.n += 1
    k = z3.Int(f'k@{_K.n}')
    E.itervars.append(k)
    try:
        s = fn(k)
        FM = FlatSel(E, s.n, k, n)
    finally:
        E.itervars.pop()

    def get(p):
        i = FM.sel(p)
        return subst_val(s.get(z3.Int('seg!p')), ((k, Iv(i)), (z3.Int('seg!p'), simp_i(Iv(p) - FM.off(i)))))
    return SSeq(FM.off(n), get, 0, 'list', FM)


def simp_i(x):
    return Iv(simp(x))
