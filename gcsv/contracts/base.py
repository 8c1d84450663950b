"""Contracts and their verification."""
import time
import traceback

import z3

from .. import terms as T
from ..terms import *  # noqa
from ..terms import Int, Bool
from ..values import *  # noqa
from ..engine import Engine, State, Trace, Q, PathDead, PyExc, Obligation

REGISTRY = {}     # target -> contract class
ALL = []
TIER = 'quick'   # how many combinations of formats and mappings are gone through


def contract(*props, also=()):
    def deco(c):
        c.props = props
        ALL.append(c)
        if c.use:
            REGISTRY[c.target] = c
        return c
    return deco


class Contract:
    target = None
    props = ()
    use = False            # callers use this contract instead of the body
    bounded = None         # text of the bound, if the proof does not cover all inputs
    timeout = None
    requires = ()          # callee contracts to use in place of bodies ('target' names)
    opaque = None          # text: values of integer tables with symbolic keys are unknown, assertions on them are assumed
    recursive = False      # recursive calls use the contract; apply() proves that a measure decreases
    budget = 150           # seconds

    @property
    def name(self):
        return type(self).__name__

    def cases(self, E):
        """[(label, build)]; build() assumes the precondition and returns the argument list"""
        return [('', lambda: self.build(E))]

    def build(self, E):
        raise NotImplementedError

    def post(self, E, args, result):
        return []

    def exc(self, E, args, e):
        """goal under which the exception is allowed (False: never)"""
        return False

    def hints(self, E, args):
        """extra loop invariants: [fn(E, locs, entry, k, N) -> candidates]"""
        return []

    def selectors(self, E, args):
        return []

    def closed(self, E, args):
        """candidate closed forms of sums and products: [(op, g, N)] meaning, for 0 <= t <= N,
        sum over [0, t) == g(t) - g(0), or product over [t, N) == g(t) (g(N) == 1)"""
        return []

    def call(self, E, args):
        f = E.func(self.target)
        if isinstance(f, Func):
            return E.run_body(f, args[0] if isinstance(args, tuple) else args, {})
        return E.instantiate(f, args, {})

    # use at call sites
    def applies(self, E, vals, kw):
        return True

    def apply(self, E, vals, kw):
        raise NotImplementedError


class Result:
    def __init__(self):
        self.obligations = []
        self.inlined, self.used, self.assumptions = set(), set(), set()
        self.error = None
        self.time = 0.0
        self.paths = 0
        self.solver = {}


def verify(cls, timeout=None, budget=None, only=None):
    """All obligations of one contract against the current source."""
    c = cls()
    R = Result()
    t0 = time.time()
    T.reset()
    use = {t: REGISTRY[t]() for t in c.requires if t in REGISTRY}
    if cls.recursive:
        use[c.target] = c
    E = Engine(contracts=use, timeout=timeout or c.timeout or 6000)
    E.deadline = t0 + (budget or c.budget)
    E.verifying = c.target
    E.opaque_ok = c.opaque
    E.obligations = R.obligations
    try:
        E.func(c.target)
        cases = c.cases(E)
        if not cases:
            raise Unsupported('no cases')
        for label, build in cases:
            if only is not None and label != only:
                continue
            E.case = label
            E.st, E.trace = State(), Trace([], {})
            E.itervars, E.spec_depth, E.active_hints, E.selectors = [], 0, [], []
            E.calldepth = 0
            args = build()
            r = T.solve(E.st.pc, timeout=3000, rounds=1)
            E.record(f'[{label}] precondition is satisfiable', 'ok' if r != 'unsat' else 'vacuous', 0.0)
            E.active_hints = c.hints(E, args)
            E.selectors = c.selectors(E, args)
            n0 = len(E.obligations)
            entry = E.st
            outs = E.explore(lambda: c.call(E, args))
            for o in E.obligations[n0:]:
                if label and not o.name.startswith('['):
                    o.name = f'[{label}] {o.name}'
            R.paths += len(outs)
            n1 = len(E.obligations)
            nn = 0
            for o in outs:
                E.st = o.state
                if o.kind == 'exc':
                    g = c.exc(E, args, o.value)
                    E.curline = o.value.line
                    if g is not True:
                        try:
                            E.prove(g if g is not None else False, f'no {o.value.etype} at line {o.value.line} ({o.value.msg[:60]})')
                        except PathDead:
                            pass
                    continue
                if o.kind != 'normal':
                    E.record(f'[{label}] exit {o.kind}', 'failed', 0.0)
                    continue
                nn += 1
                close_folds(E, c.closed(E, args))

                def run_post(o=o):
                    for name, goal in c.post(E, args, o.value):
                        if callable(goal):
                            goal = goal()
                        E.prove(goal, f'post: {name}')
                for po in E.explore(run_post):
                    if po.kind == 'exc':
                        E.st = po.state
                        try:
                            E.prove(False, f'post: evaluation raises {po.value}')
                        except PathDead:
                            pass
            for o in E.obligations[n1:]:
                if label and not o.name.startswith('['):
                    o.name = f'[{label}] {o.name}'
            if nn == 0 and not getattr(c, 'may_fail', False):
                E.st = entry
                E.record(f'[{label}] some path returns', 'vacuous', 0.0)
    except Unsupported as e:
        R.error = f'unsupported: {e} (line {E.curline} in {E.curfunc})'
    except PyExc as e:
        R.error = f'exception: {e}'
    except PathDead:
        R.error = 'dead precondition'
    except (z3.Z3Exception, RecursionError, AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError, SyntaxError, OSError) as e:
        R.error = f'verifier error: {type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    R.inlined, R.used, R.assumptions = E.inlined, E.used_contracts, E.assumptions
    R.time = time.time() - t0
    R.solver = dict(T.STATS)
    return R


def close_folds(E, forms):
    """Induction lemmas: sums (products) that a contract's function gives in closed form."""
    from .. import loops as LP
    for op, g, N in forms:
        for F in list(T.FOLDS.values()):
            if F.op != op or F.params:
                continue
            t = z3.FreshConst(Int, 't')
            T.KEEP.append(t)
            st = E.st.copy()
            st.pc += [0 <= t, t < Iv(N)] + T.inst_quant(E.st.pc, [t, t + 1])
            tt = z3.Int('t!q')
            if op == 'sum':
                goal = F.at([], t) == g(t + 1) - g(t)
                fact = F.decl(0, tt) == g(tt) - g(z3.IntVal(0))
            else:
                goal = z3.And(g(t) == F.at([], t) * g(t + 1), g(Iv(N)) == 1)
                fact = F.decl(tt, Iv(N)) == g(tt)
            if LP.holds_f(st, goal, []):
                E.record(f'lemma by induction: closed form of {F.decl.name()}', 'ok', 0.0)
                E.assume(z3.ForAll([tt], z3.Implies(z3.And(0 <= tt, tt <= Iv(N)), fact),
                                   patterns=[F.decl(0, tt) if op == 'sum' else F.decl(tt, Iv(N))]))


# ------------------------------------------------------------------ helpers

def lemma_up(E, name, lo, hi, claim, pat=None, hints=None):
    """Induction: claim(lo), and claim(t) => claim(t + 1) for lo <= t < hi; then claim holds on [lo, hi]."""
    _lemma(E, name, Iv(lo), Iv(hi), claim, 1, pat, hints)


def lemma_down(E, name, lo, hi, claim, pat=None, hints=None):
    """Induction: claim(hi), and claim(t + 1) => claim(t) for lo <= t < hi; then claim holds on [lo, hi]."""
    _lemma(E, name, Iv(lo), Iv(hi), claim, -1, pat, hints)


def _lemma(E, name, lo, hi, claim, d, pat, hints):
    from .. import loops as LP
    LP._K.n += 1
    q = z3.Int(f'k@{LP._K.n}')         # sums and products in the claim depend on it
    body = Bv(claim(q))
    T.KEEP += [q, body]
    cl = lambda x: z3.substitute(body, (q, Iv(x)))
    st = E.st
    E.st = st.copy()
    try:
        t = E.fresh('t')
        E.assume(lo <= hi)
        E.prove(cl(lo if d > 0 else hi), f'lemma {name}: base case')
        E.assume([lo <= t, t < hi])
        E.assume(T.inst_quant(E.st.pc, [t, t + 1]))
        E.assume(cl(t if d > 0 else t + 1))
        h = list(hints(t)) if hints else []
        E.prove(cl(t + 1 if d > 0 else t), f'lemma {name}: induction step', hints=h)
    finally:
        st.ctr = max(st.ctr, E.st.ctr)
        E.st = st
    c = z3.Implies(z3.And(lo <= q, q <= hi), body)
    p = [pat(q)] if pat else [x for x in [find_fold(body, q)] if x is not None]
    E.assume(z3.ForAll([q], c, patterns=p) if p else z3.ForAll([q], c))


def find_fold(body, q):
    """an application of a fold to the bare variable (pattern)"""
    for x in T.apps([body]):
        if x.decl().name() in T.BY_DECL and any(c.eq(q) for c in x.children()) and \
                not any(c.num_args() and q.get_id() in [y.get_id() for y in T.free_consts(c)] for c in x.children()):
            return x
    return None


def abstract(fs):
    """the formulas with every maximal uninterpreted application replaced by a constant"""
    memo = {}

    def ab(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(x):
            r = x
        elif x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = z3.FreshConst(x.sort(), 'abs')
        elif x.num_args():
            ch = [ab(c) for c in x.children()]
            r = x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[x.decl().kind()](*ch)
        else:
            r = x
        memo[i] = (x, r)
        return r
    return [ab(f) for f in fs]


def calc(E, name, facts, goal):
    """The facts are proved one by one; the goal follows from them by arithmetic alone."""
    facts = [Bv(conc(f)) for f in facts]
    for i, f in enumerate(facts):
        E.prove(f, f'{name}: fact {i + 1}')
    t0 = time.time()
    fs = abstract(facts + [z3.Not(goal)])
    r = T.solve(fs, timeout=E.timeout, rounds=0)
    if r != 'unsat':
        s = z3.Solver()
        T.limits(s, E.timeout)
        s.add(*fs)
        r = 'unsat' if s.check() == z3.unsat else r
    if not E.spec_depth:
        E.record(name, 'ok' if r == 'unsat' else r, time.time() - t0, f'goal: {str(goal)[:400]}')
    E.assume(goal)
    return True


def derive(E, name, facts, goal, given=(), under=()):
    """Under the given conditions: the facts are proved one by one, and the goal follows from them and the
    given (assumed) formulas alone.  Then (under => goal) is assumed."""
    st = E.st
    E.st = st.copy()
    try:
        E.assume(list(under))
        facts = [Bv(conc(f)) for f in facts]
        for i, f in enumerate(facts):
            E.prove(f, f'{name}: fact {i + 1}')
        t0 = time.time()
        r = T.solve(facts + [Bv(g) for g in given] + [z3.Not(goal)], timeout=E.timeout, rounds=0)
        E.record(name, 'ok' if r == 'unsat' else r, time.time() - t0, f'goal: {str(goal)[:400]}')
    finally:
        st.ctr = max(st.ctr, E.st.ctr)
        E.st = st
    E.assume(z3.Implies(z3.And(*under), goal) if under else goal)
    return True


def same_sum(E, name, f, lo, hi, g, lo2, hints=None):
    """Schema EXT: pointwise equal summands give equal sums over [lo, hi) and [lo2, lo2 + hi - lo)."""
    i = E.fresh('i')
    lo, hi, lo2 = Iv(lo), Iv(hi), Iv(lo2)
    st = E.st
    E.st = st.copy()
    try:
        E.assume([lo <= i, i < hi])
        j = simp(i + (lo2 - lo))
        E.assume(T.inst_quant(E.st.pc, [i] + ([j] if not i.eq(j) else [])))
        h = list(hints(i, j)) if hints else []
        E.prove(Iv(f(i)) == Iv(g(j)), f'{name}: equal summands', hints=h)
    finally:
        st.ctr = max(st.ctr, E.st.ctr)
        E.st = st
    E.assume(sum_range(f, lo, hi) == sum_range(g, lo2, simp(lo2 + hi - lo)))


def prod_range(f, lo, hi):
    return Iv(fold_term('prod', Iv(f(T.K)), lo, hi))


def sum_range(f, lo, hi):
    return Iv(fold_term('sum', Iv(f(T.K)), lo, hi))


def fn_seq(n, f, kind='tuple'):
    return SSeq(n, f, 0, kind)



def report(cls, **kw):
    R = verify(cls, **kw)
    bad = [o for o in R.obligations if o.status != 'ok']
    print(f'{cls.__name__}: {len(R.obligations)} obligations, {len(bad)} failed, {R.paths} paths, {R.time:.1f}s, '
          f'solver {R.solver}')
    if R.error:
        print('  ERROR', R.error)
    for o in bad[:12]:
        print('  ', o.status, o.name, 'line', o.line)
        print('      ', o.detail[:900])
    return R
