"""Logical layer: z3 terms, folds (sums and products over ranges), division, and the ground
instantiation of their defining rules.

Every rule added to a query is an instance of one of the schemata below; the schemata themselves are
proved once per run by `prove_schemata()` (by induction where needed), see lemmas.py.
"""
import time
import z3

Int = z3.IntSort()
Bool = z3.BoolSort()
V = z3.DeclareSort('Val')
VNONE = z3.Const('VNone', V)

K = z3.Int('K!')  # canonical bound variable of fold summands


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ExprRef) and v.sort() == Int)


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, z3.ExprRef) and v.sort() == Bool)


def Iv(v):
    """int-like -> z3 Int term"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def Bv(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def conc(v):
    """z3 numeral -> Python int where possible"""
    if isinstance(v, z3.ExprRef):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if isinstance(v, z3.ExprRef):
        return conc(z3.simplify(v))
    return v


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*[Bv(x) for x in a])


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*[Bv(x) for x in a])


def Not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    return z3.Implies(Bv(a), Bv(b))


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_int(a) and is_int(b):
        a, b = Iv(a), Iv(b)
    elif is_bool(a) and is_bool(b):
        a, b = Bv(a), Bv(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def imax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return Ite(Iv(a) >= Iv(b), a, b)


def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return Ite(Iv(a) <= Iv(b), a, b)


# ------------------------------------------------------------------ division (Python semantics)

FDIV = z3.Function('fdiv', Int, Int, Int)
FMOD = z3.Function('fmod', Int, Int, Int)


def pydiv(a, b):
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        if b > 0:
            return Iv(a) if b == 1 else Iv(a) / b
        return (-Iv(a)) / (-b)
    return FDIV(Iv(a), Iv(b))


def pymod(a, b):
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        if b > 0:
            return Iv(a) % b
        return -((-Iv(a)) % (-b))
    return FMOD(Iv(a), Iv(b))


def div_rule(a, b):
    q, r = FDIV(a, b), FMOD(a, b)
    return [z3.Implies(b != 0, a == b * q + r),
            z3.Implies(b > 0, z3.And(0 <= r, r < b)),
            z3.Implies(b < 0, z3.And(b < r, r <= 0)),
            z3.Implies(z3.And(0 <= a, a < b), z3.And(q == 0, r == a)),
            z3.Implies(z3.And(-b <= a, a < 0), z3.And(q == -1, r == a + b)),
            z3.Implies(b == 1, z3.And(q == a, r == 0)),
            z3.Implies(b == -1, z3.And(q == -a, r == 0))]


def div_pair(x, y):
    """Two divisions by the same (or the opposite) divisor."""
    (a, b), (c, d) = x, y
    out = []
    if b.eq(d):
        q1, r1, q2, r2 = FDIV(a, b), FMOD(a, b), FDIV(c, b), FMOD(c, b)
        out += [z3.Implies(z3.And(b != 0, a == c + b), z3.And(q1 == q2 + 1, r1 == r2)),
                z3.Implies(z3.And(b != 0, c == a + b), z3.And(q2 == q1 + 1, r1 == r2)),
                z3.Implies(z3.And(b > 0, a <= c), q1 <= q2), z3.Implies(z3.And(b > 0, c <= a), q2 <= q1),
                z3.Implies(z3.And(b < 0, a <= c), q1 >= q2), z3.Implies(z3.And(b < 0, c <= a), q2 >= q1)]
    else:
        nb = z3.simplify(b + d)
        q1, r1, q2, r2 = FDIV(a, b), FMOD(a, b), FDIV(c, d), FMOD(c, d)
        out += [z3.Implies(z3.And(b != 0, b + d == 0, a + c == 0), z3.And(q1 == q2, r1 == -r2))]
        if z3.is_int_value(nb) and nb.as_long() == 0:
            out += [z3.Implies(z3.And(b != 0, a + c == b), z3.And(q1 == q2 + 1, r1 == -r2)),
                    z3.Implies(z3.And(b != 0, a + c == -b), z3.And(q1 == q2 - 1, r1 == -r2))]
    return out


PAIRS_DIV = True


def div_unique(a, b, q, r):
    """Hint: a == b*q + r with r in range determines quotient and remainder (schema DIV)."""
    a, b, q, r = map(Iv, (a, b, q, r))
    return z3.Implies(z3.And(a == b * q + r, z3.Or(z3.And(0 <= r, r < b), z3.And(b < r, r <= 0))),
                      z3.And(FDIV(a, b) == q, FMOD(a, b) == r))


def mul_mono(a, b, c):
    """Hint (schema MUL): a <= b and c >= 0 give a*c <= b*c."""
    a, b, c = map(Iv, (a, b, c))
    return z3.Implies(z3.And(a <= b, c >= 0), a * c <= b * c)


# ------------------------------------------------------------------ folds

class Fold:
    """F(params, lo, hi) = op over k in [lo, hi) of f(params, k); unit when lo >= hi."""

    def __init__(self, decl, op, params, term, facts):
        self.decl, self.op, self.params, self.term, self.facts = decl, op, params, term, facts
        n = len(params) + 2
        self.wit = {}
        self.nargs = n

    def witness(self, tag, args):
        w = self.wit.get(tag)
        if w is None:
            w = self.wit[tag] = z3.Function(f'{self.decl.name()}.w{tag}', *[Int] * (self.nargs + 1))
        return w(*args)

    def at(self, params, t):
        sub = [(K, t)] + [(p, a) for p, a in zip(self.params, params) if not p.eq(a)]
        return z3.substitute(self.term, *sub)

    def facts_at(self, params, t):
        sub = [(K, t)] + [(p, a) for p, a in zip(self.params, params) if not p.eq(a)]
        return [z3.substitute(f, *sub) for f in self.facts]


FOLDS = {}      # key -> Fold
BY_DECL = {}    # decl name -> Fold


def free_consts(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def is_itervar(c):
    return c.sort() == Int and c.decl().name().startswith('k@')


def mpat(*xs):
    """multi-pattern; the parts are kept alive (z3 may otherwise drop them before the quantifier is made)"""
    p = z3.MultiPattern(*xs)
    KEEP.append((p, xs))
    return p


CATS = 0


def is_plain(c):
    """a constant that no quantifier or substitution ranges over"""
    n = c.decl().name()
    return not n.startswith('k@') and '!' in n and n.rsplit('!', 1)[1].isdigit()


def tainted(f):
    """does the formula depend on the contents of an opaque dictionary"""
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().name().startswith('opq'):
                return True
            stack.extend(x.children())
    return False


def has_ite(v):
    seen, stack = set(), [v]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            stack.extend(x.children())
    return False


def check_capture(c):
    """A bound variable must not occur inside the summand of a fold: the fold would not depend on it."""
    seen, stack = set(), [(c, frozenset())]
    while stack:
        x, names = stack.pop()
        if (x.get_id(), names) in seen:
            continue
        seen.add((x.get_id(), names))
        if z3.is_quantifier(x):
            stack.append((x.body(), names | {x.var_name(i) for i in range(x.num_vars())}))
        elif z3.is_app(x) and x.num_args():
            if names:
                F = BY_DECL.get(x.decl().name())
                if F is not None:
                    for v in free_consts(F.term):
                        if any(v.eq(p) for p in F.params):
                            continue
                        assert v.decl().name() not in names, f'bound variable {v} in a fold'
            stack.extend((y, names) for y in x.children())


INTERN = {}


def canonical(term):
    """the iteration parameters of a term in a canonical order, and a key that two terms share only if they are the
    same up to the names of these parameters and the order of the arguments of + and *"""
    def intern(x):
        return INTERN.setdefault(x, len(INTERN))

    def keys(number):
        memo = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i]
            if z3.is_app(x):
                if x.num_args() == 0:
                    if is_itervar(x) and not x.eq(K):
                        r = intern(('?', number.get(x.decl().name(), -1)))
                    elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r = intern(('c', x.decl().name(), x.sort().name()))
                    else:
                        r = intern(('v', x.sexpr()))
                else:
                    ch = [go(y) for y in x.children()]
                    if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
                        ch.sort()
                    r = intern(('a', x.decl().get_id(), *ch))
            else:
                KEEP.append(x)
                r = intern(('q', x.get_id()))
            memo[i] = r
            return r
        return go
    free = [c for c in free_consts(term) if is_itervar(c) and not c.eq(K)]
    anon = keys({})
    anon(term)
    order, seen = [], set()

    def visit(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0:
                if is_itervar(x) and not x.eq(K):
                    order.append(x)
                return
            ch = x.children()
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
                ch = sorted(ch, key=anon)
            for y in ch:
                visit(y)
    visit(term)
    got = {c.decl().name() for c in order}
    order += sorted((c for c in free if c.decl().name() not in got), key=lambda c: c.decl().name())
    number = {c.decl().name(): j for j, c in enumerate(order)}
    return order, keys(number)(term)


KEEP = []  # keeps asts alive, so that ids stay unique


def fold_term(op, term, lo, hi, facts=()):
    """term: z3 Int term over K."""
    term = Iv(simp(term))
    lo, hi = simp(lo), simp(hi)
    unit = 0 if op == 'sum' else 1
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 6:
        r = unit
        for i in range(lo, hi):
            t = z3.substitute(term, (K, z3.IntVal(i)))
            r = (r + t) if op == 'sum' else (r * t if not (isinstance(r, int) and r == 1) else t)
        return simp(r)
    if z3.is_int_value(term) and term.as_long() == unit:
        return unit    # a sum of zeros, a product of ones
    c = reversed_at(term) if op == 'prod' else None
    if c is not None:
        # counted from the other end
        term = Iv(simp(z3.substitute(term, (K, c - K))))
        lo, hi = simp(c - Iv(hi) + 1), simp(c - Iv(lo) + 1)
    params, key = canonical(term)
    key = (op, key)
    F = FOLDS.get(key)
    if F is None:
        KEEP.append(term)
        name = f'{op}#{len(FOLDS)}'
        decl = z3.Function(name, *[Int] * (len(params) + 3))
        F = FOLDS[key] = BY_DECL[name] = Fold(decl, op, params, term, list(facts))
    return F.decl(*params, Iv(lo), Iv(hi))


def reversed_at(term):
    """c when functions are applied to c - K (and never to K + something)"""
    c, stack, seen = None, [term], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if a.sort() != Int or not any(v.eq(K) for v in free_consts(a)):
                    continue
                d = z3.simplify(a + K)
                if any(v.eq(K) for v in free_consts(d)):
                    return None
                if c is None:
                    c = d
        stack.extend(x.children())
    return c


APPS = {}      # formula id -> (formula, its applications)


def _apps_of(f):
    """uninterpreted applications in a formula (ground only)"""
    i = f.get_id()
    if i in APPS:
        return APPS[i][1]
    seen, stack, out = set(), [f], []
    while stack:
        x = stack.pop()
        i2 = x.get_id()
        if i2 in seen:
            continue
        seen.add(i2)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                stack.extend(x.children())
    APPS[i] = (f, out)
    return out


def apps(terms):
    """All fold / fdiv / fmod / registered applications in the terms (ground only)."""
    seen, out = set(), []
    for f in terms:
        for x in _apps_of(f):
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                out.append(x)
    return out


TRIGGERS = {}   # decl name -> [function(app args) -> list of formulas]
PAIR_TRIGGERS = {}   # decl name -> function(args1, args2) -> list of formulas
ROW_OF = {}        # decl name of row-major positions in a table -> length of its rows


def _sub(f, its, args):
    pr = [(p, a) for p, a in zip(its, args) if not p.eq(a)]
    if not isinstance(f, z3.ExprRef):
        return f
    return z3.substitute(f, *pr) if pr else f


def register_filter(FS):
    """Schema FILTER: sel enumerates, in increasing order, the positions of [0, N) that satisfy the guard."""
    its = FS.its
    N = Iv(FS.N)
    total = Iv(FS.count(N))
    cname = None
    ct = FS.count(z3.Int('t!flt'))

    def on_sel(*args):
        p = args[-1]
        s = FS.fn(*its, p)
        fs = [z3.Implies(z3.And(0 <= p, p < total),
                         z3.And(0 <= s, s < N, Bv(FS.guard(s)), Iv(FS.count(s)) == p))]
        return [_sub(f, its, args[:-1]) for f in fs]

    def on_pair(a, b):
        out = []
        for x, y in ((a, b), (b, a)):
            if all(u.eq(v) for u, v in zip(x[:-1], y[:-1])):
                p, q = x[-1], y[-1]
                out.append(_sub(z3.Implies(z3.And(0 <= p, p < q, q < total), FS.fn(*its, p) < FS.fn(*its, q)),
                                its, x[:-1]))
        return out
    nm = FS.fn.name()
    TRIGGERS.setdefault(nm, []).append(on_sel)
    PAIR_TRIGGERS[nm] = on_pair
    if isinstance(ct, z3.ExprRef) and ct.decl().name() in BY_DECL:
        F = BY_DECL[ct.decl().name()]

        def on_count(*args):
            if not (z3.is_int_value(args[-2]) and args[-2].as_long() == 0):
                return []
            t = args[-1]
            c = F.decl(*args)
            sub = list(zip(F.params, args[:-2]))
            tot, n, sl, gd = total, N, FS.fn(*its, c), Bv(FS.guard(t))
            fs = [z3.Implies(z3.And(0 <= t, t < n, gd), z3.And(sl == t, c < tot)),
                  z3.Implies(z3.And(0 <= t, t <= n), z3.And(0 <= c, c <= tot, c <= t))]
            pr = [(p, a) for p, a in sub if not p.eq(a)]
            return [z3.substitute(f, *pr) if pr else f for f in fs]
        TRIGGERS.setdefault(F.decl.name(), []).append(on_count)


def register_flat(FM):
    """Schema FLAT: position p of a concatenation lies in the segment sel(p)."""
    its = FM.its
    N = Iv(FM.N)
    total = FM.off(N)

    def on_sel(*args):
        p = args[-1]
        s = FM.fn(*its, p)
        f = z3.Implies(z3.And(0 <= p, p < total),
                       z3.And(0 <= s, s < N, FM.off(s) <= p, p < FM.off(s) + Iv(FM.len_at(s))))
        return [_sub(f, its, args[:-1])]
    TRIGGERS.setdefault(FM.fn.name(), []).append(on_sel)


def inst_quant(formulas, terms, depth=0):
    """Instances of the universally quantified formulas (one or two variables) at the given terms."""
    terms = [Iv(t) for t in terms]
    if not terms:
        return []
    out = []
    for f in formulas:
        if z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            if any(f.var_sort(i) != Int for i in range(n)) or n > 2:
                continue
            if n == 1:
                for t in terms:
                    out.append(z3.substitute_vars(f.body(), t))
            elif len(terms) <= 8:
                for t in terms:
                    for u in terms:
                        out.append(z3.substitute_vars(f.body(), u, t))
    return out


def has_quant_div(fs):
    return any(_memo(('qd', f.get_id()), f, lambda: _quant_div(f)) for f in fs)


def _quant_div(f):
    seen, stack = set(), [(f, False)]
    while stack:
        x, q = stack.pop()
        if (x.get_id(), q) in seen:
            continue
        seen.add((x.get_id(), q))
        if z3.is_quantifier(x):
            stack.append((x.body(), True))
            continue
        if q and z3.is_app(x) and x.decl().name() in ('fdiv', 'fmod'):
            return True
        stack.extend((c, q) for c in x.children())
    return False


def div_axioms():
    a, b = z3.Ints('a!dv b!dv')
    return [z3.ForAll([a, b], z3.And(*div_rule(a, b)), patterns=[FDIV(a, b)]),
            z3.ForAll([a, b], z3.And(*div_rule(a, b)), patterns=[FMOD(a, b)])]


def fold_rules(F, args, depth):
    """Ground instances for the term F(args)."""
    params, lo, hi = args[:-2], args[-2], args[-1]
    t = F.decl(*args)
    unit = 0 if F.op == 'sum' else 1
    out = [z3.Implies(lo >= hi, t == unit)]
    h1 = z3.simplify(hi - 1)
    last, prev = F.at(params, h1), F.decl(*params, lo, h1)
    l1 = z3.simplify(lo + 1)
    first, nxt = F.at(params, lo), F.decl(*params, l1, hi)
    if F.op == 'sum':
        out.append(z3.Implies(lo < hi, t == prev + last))
        out.append(z3.Implies(lo < hi, t == first + nxt))
    else:
        out.append(z3.Implies(lo < hi, t == prev * last))
        out.append(z3.Implies(lo < hi, t == first * nxt))
    fs = F.facts_at(params, h1) + F.facts_at(params, lo) if F.facts else []
    out += [z3.Implies(lo < hi, f) for f in fs]
    # sign rules with a witness
    for tag, claim, viol in ([('ge0', t >= 0, lambda x: x < 0)] if F.op == 'sum' else
                             [('ge0', t >= 0, lambda x: x < 0), ('ge1', t >= 1, lambda x: x < 1)]):
        w = F.witness(tag, args)
        out.append(z3.Or(claim, z3.And(lo <= w, w < hi, viol(F.at(params, w)))))
        out += [z3.Implies(z3.And(lo <= w, w < hi), f) for f in (F.facts_at(params, w) if F.facts else [])]
    return out


def fold_ext(F, a, G, b):
    """Two folds of the same operation over the same range with equal summands are equal (schema EXT)."""
    w = F.witness('ext%s_%d' % (G.decl.name(), len(b)), a) if len(b) == 2 else None
    if w is None:
        # the witness depends on the parameters of both
        fn = z3.Function(f'{F.decl.name()}.x.{G.decl.name()}', *[Int] * (len(a) + len(b) + 1))
        w = fn(*a, *b)
    lo, hi, lo2, hi2 = a[-2], a[-1], b[-2], b[-1]
    d = lo2 - lo
    return [z3.Or(hi2 - lo2 != hi - lo, F.decl(*a) == G.decl(*b),
                  z3.And(lo <= w, w < hi, F.at(a[:-2], w) != G.at(b[:-2], z3.simplify(w + d))))] + \
        [z3.Implies(z3.And(lo <= w, w < hi), f) for f in F.facts_at(a[:-2], w) + G.facts_at(b[:-2], z3.simplify(w + d))]


MEMO = {}


def _rules(a):
    """the instances for one application"""
    d = a.decl()
    nm = d.name()
    trs = TRIGGERS.get(nm, ())
    key = (a.get_id(), len(trs), nm in BY_DECL)
    r = MEMO.get(key)
    if r is not None:
        return r[1]
    args = a.children()
    new = []
    if nm in BY_DECL:
        new += fold_rules(BY_DECL[nm], args, 0)
    for tr in trs:
        new += tr(*args)
    new = [f for f in new if not (isinstance(f, bool) and f)]
    MEMO[key] = (a, new)
    return new


def _pair(fn, nm, x, y):
    key = ('p', nm, x.get_id(), y.get_id())
    r = MEMO.get(key)
    if r is None:
        r = MEMO[key] = (x, y, fn(x.children(), y.children()))
    return r[2]


def _memo(key, keep, fn):
    r = MEMO.get(key)
    if r is None:
        r = MEMO[key] = (keep, fn())
    return r[1]


def instantiate(formulas, rounds=3, ext=True, cap=4000):
    """Instances of the defining rules for every ground fold/division/registered term."""
    done, out = set(), []
    todo = [f for f in formulas]
    folds, folds2, from_ext = [], [], set()
    pairs = {}
    for rnd in range(rounds):
        new = []
        for a in apps(todo):
            key = a.get_id()
            if key in done:
                continue
            done.add(key)
            nm = a.decl().name()
            if nm == 'fdiv' or nm == 'fmod':
                args = a.children()
                k2 = ('div', args[0].get_id(), args[1].get_id())
                if k2 not in done:
                    done.add(k2)
                    new += _memo(k2, args, lambda: div_rule(*args))
                    if PAIRS_DIV and rnd < 2:
                        ds = pairs.setdefault('/', [])
                        if len(ds) < 12:
                            for o in ds:
                                new += _memo(('//', o[0].get_id(), o[1].get_id()) + k2, (o, args), lambda: div_pair(o, args))
                            ds.append(args)
            elif nm in BY_DECL:
                F = BY_DECL[nm]
                if rnd == 0:
                    folds.append((F, a.children()))
                elif rnd == 1 and from_ext and a.get_id() in from_ext:
                    folds2.append((F, a.children()))
            new += _rules(a)
            if nm in PAIR_TRIGGERS and rnd < 2:
                fn = PAIR_TRIGGERS[nm]
                for o in pairs.setdefault(nm, []):
                    new += _pair(fn, nm, o, a)
                pairs[nm].append(a)
        if rnd == 0 and ext:
            for i, (F, a) in enumerate(folds):
                for G, b in folds[:i]:
                    if F.op == G.op:
                        if F is G and all(x.eq(y) for x, y in zip(a, b)):
                            continue
                        e = fold_ext(F, a, G, b)
                        new += e
                        if len(from_ext) < 40:
                            for x in apps([Bv(f) for f in e]):
                                if x.decl().name() in BY_DECL:
                                    KEEP.append(x)
                                    from_ext.add(x.get_id())
        elif rnd == 1 and ext and len(folds2) <= 12:
            for i, (F, a) in enumerate(folds2):
                for G, b in folds2[:i]:
                    if F.op == G.op and F is not G:
                        new += fold_ext(F, a, G, b)
        new = [f for f in new if not (isinstance(f, bool) and f)]
        out += new
        todo = new
        if not new or len(out) > cap:
            break
    return out


RATE = 5000      # solver steps that count as a millisecond: what a query decides does not depend on the load of the machine


def limits(s, timeout):
    s.set('rlimit', min(int(timeout * RATE), 2 ** 32 - 1))
    s.set('timeout', int(timeout * 15) + 5000)


SLOW = float(__import__('os').environ.get('GCSV_SLOW', '0'))
STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


def solve(formulas, timeout=4000, rounds=3, ext=True, want_model=False, tactic=None, nl=True):
    """-> 'sat' | 'unsat' | 'unknown' [, model]"""
    fs = [Bv(f) for f in formulas if f is not True]
    if any(z3.is_false(f) for f in fs):
        return ('unsat', None) if want_model else 'unsat'
    t0 = time.time()
    inst = instantiate(fs, rounds, ext) if rounds else []
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    limits(s, timeout)
    s.set('mbqi', False)
    s.set('auto_config', False)
    if not nl:
        s.set('arith.nl', False)
    if has_quant_div(fs):
        s.add(*div_axioms())
    ctx, sv = s.ctx.ref(), s.solver
    for f in fs + inst:
        z3.Z3_solver_assert(ctx, sv, (f if isinstance(f, z3.BoolRef) else Bv(f)).as_ast())
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if SLOW and time.time() - t0 > SLOW:
        print('SLOW %.1f %s %s' % (time.time() - t0, r, str(fs[-1]).replace('\n', ' ')[:300]))
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    if res == 'unknown':
        STATS['unknown'] += 1
    if want_model:
        return res, (s.model() if res == 'sat' else None)
    return res


def forall(vars_, body, patterns=None):
    body = Bv(body)
    if patterns:
        return z3.ForAll(vars_, body, patterns=patterns)
    return z3.ForAll(vars_, body)


def reset():
    """Forget everything that belongs to earlier proofs (per function)."""
    for d in (FOLDS, BY_DECL, TRIGGERS, PAIR_TRIGGERS, ROW_OF, APPS, MEMO):
        d.clear()
    KEEP.clear()
    STATS.update(queries=0, time=0.0, unknown=0)
    for h in RESET_HOOKS:
        h()


RESET_HOOKS = []
