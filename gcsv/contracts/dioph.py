"""Contracts for linear Diophantine equations (C07): any number of non-zero coefficients."""
from .base import *  # noqa


def mark(*xs):
    """hint: makes the sums visible to the instantiation of their rules"""
    return [z3.Function('mark', Int, Bool)(Iv(x)) for x in xs if isinstance(x, z3.ExprRef)]


def divides(d, a):
    """d divides a (d non-zero)"""
    return Iv(a) == Iv(d) * Iv(pydiv(a, d))


def show_divides(E, name, d, a, q, facts):
    """a == d * q makes d a divisor of a"""
    calc(E, name + ': multiple', facts, Iv(a) == Iv(d) * Iv(q))
    E.prove(z3.Implies(Iv(d) != 0, z3.And(Iv(pydiv(a, d)) == Iv(q), divides(d, a))), name, hints=[div_unique(a, d, q, 0)], rounds=1)


@contract('C07')
class Extgcd(Contract):
    target = 'gcs.slice_tools.extgcd'
    use = True
    recursive = True

    def facts(self, a, b, g, x, y):
        return [g == a * x + b * y,
                z3.Implies(z3.Or(a != 0, b != 0), z3.And(g != 0, divides(g, a), divides(g, b))),
                z3.Implies(z3.And(a == 0, b == 0), g == 0)]

    def build(self, E):
        self.a, self.b = E.fresh('a'), E.fresh('b')
        return [self.a, self.b]

    def apply(self, E, vals, kw):
        a, b = Iv(E.num(vals[0])), Iv(E.num(vals[1]))
        if E.verifying == self.target:
            E.st.notes['inner'] = (a, b)
            sa = self.a
            E.prove(z3.If(a >= 0, a, -a) < z3.If(sa >= 0, sa, -sa), 'the recursion decreases the absolute value of the first argument')
        nm = 'opq' if T.tainted(a) or T.tainted(b) else 'gcd'
        g, x, y = E.fresh(nm), E.fresh(nm + 'x'), E.fresh(nm + 'y')
        E.assume(self.facts(a, b, g, x, y))
        E.st.notes['gcd'] = (g, x, y)
        return CSeq([g, x, y])

    def post(self, E, args, r):
        a, b = args
        g, x, y = (Iv(E.num(v)) for v in r.items)
        yield 'the coefficients produce the divisor', g == a * x + b * y
        yield 'not zero', z3.Implies(z3.Or(a != 0, b != 0), g != 0)
        yield 'zero', z3.Implies(z3.And(a == 0, b == 0), g == 0)
        if 'inner' in E.st.notes:
            c, d = E.st.notes['inner']
            q = Iv(pydiv(b, a))
            # d is a, c is the remainder of b
            show_divides(E, 'divides the first', g, a, Iv(pydiv(d, g)), [d == a, d == g * Iv(pydiv(d, g))])
            show_divides(E, 'divides the second', g, b, Iv(pydiv(a, g)) * q + Iv(pydiv(c, g)),
                         [b == a * q + c, a == g * Iv(pydiv(a, g)), c == g * Iv(pydiv(c, g))])
        yield 'divides both', z3.Implies(z3.Or(a != 0, b != 0), z3.And(divides(g, a), divides(g, b)))
        e = E.fresh('e')
        E.assume(z3.And(e != 0, divides(e, a), divides(e, b)))
        p, q = Iv(pydiv(a, e)), Iv(pydiv(b, e))
        show_divides(E, 'a common divisor divides it', e, g, p * x + q * y, [a == e * p, b == e * q, g == a * x + b * y])
        yield 'every common divisor divides it', divides(e, g)


class System:
    """The equation sum(a(i) * x(i), i < n) = c with its solver data: divisor d, solution z0 of the equation for d,
    and directions col(j) with coordinates zs(i, j)."""

    def __init__(self, E, n, a):
        self.E, self.n, self.a = E, n, a
        self.d = E.fresh('d')
        self.quot = E.fresh_fn('quot', Int, Int)       # coefficients are multiples of d
        self.z0, self.zs = E.fresh_fn('z0', Int, Int), E.fresh_fn('zs', Int, Int, Int)

    def dot(self, f, lo=0, hi=None):
        return sum_range(lambda i: Iv(self.a(i)) * Iv(f(i)), lo, self.n if hi is None else hi)

    def column(self, j, lo=0):
        return self.dot(lambda i: self.zs(i, j), lo)

    def facts(self):
        from .. import loops as LP
        LP._K.n += 1
        j = z3.Int(f'k@{LP._K.n}')
        i = z3.Int('i!sy')
        return [self.d != 0, self.dot(self.z0) == self.d,
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Iv(self.n) - 1), self.column(j) == 0), patterns=[self.column(j)]),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Iv(self.n)), Iv(self.a(i)) == self.d * self.quot(i)), patterns=[self.quot(i)])]


def coefficients(E, least=1):
    n, a = E.fresh('n'), E.fresh_fn('a', Int, Int)
    i = z3.Int('i!co')
    E.assume(n >= least)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a(i) != 0), patterns=[a(i)]))
    return n, a


@contract('C07')
class InitDiophantine1(Contract):
    """the recursive helper: solver data of all prefixes, folded from the first two coefficients"""
    target = 'gcs.slice_tools._init_diophantine'
    use = True
    recursive = True
    requires = ('gcs.slice_tools.extgcd',)

    def build(self, E):
        self.n, self.a = coefficients(E, 0)
        return [fn_seq(self.n, self.a)]

    def applies(self, E, vals, kw):
        return E.as_plain_seq(vals[0]) is not None

    def apply(self, E, vals, kw):
        s = E.seq_of(vals[0])
        n = s.n
        if E.verifying == self.target:
            E.prove(z3.And(Iv(n) >= 0, Iv(n) < self.n), 'the recursion is over fewer coefficients')
        E.prove(Q(['i'], lambda i: Implies(z3.And(0 <= i, i < Iv(n)), Iv(E.num(s.get(i))) != 0)), 'coefficients are not zero')
        if E.branch(simp(Iv(n) <= 1)):
            return E.new_list(CSeq([], 'list'))
        E.st.notes['system'] = S = System(E, n, lambda i: E.num(s.get(i)))
        E.assume(S.facts())
        D, X0, Y0, XS, YS = (E.fresh_fn(x, Int, Int) for x in ('D', 'X0', 'Y0', 'XS', 'YS'))
        E.assume(D(z3.IntVal(0)) == S.d)
        Z0, ZS = E.fresh_fn('Z0', Int, Int, Int), E.fresh_fn('ZS', Int, Int, Int, Int)
        last = simp(Iv(n) - 2)

        def z0(k, i):
            return S.z0(i) if simp(Iv(k) == last) is True else Z0(k, i)

        def zs(k, i, j):
            return S.zs(i, j) if simp(Iv(k) == last) is True else ZS(k, i, j)

        def item(k):
            k = Iv(k)
            m = simp(k + 2)
            return CSeq([D(k), X0(k), Y0(k), XS(k), YS(k), fn_seq(m, lambda i: z0(k, Iv(i))),
                         fn_seq(m, lambda i: fn_seq(simp(m - 1), lambda j: zs(k, Iv(i), Iv(j))))])
        return E.new_list(fn_seq(simp(Iv(n) - 1), item, 'list'))

    def post(self, E, args, r):
        n, a = self.n, self.a
        r = E.seq_of(r)
        if E.branch(n <= 1):
            yield 'no data for at most one coefficient', Iv(r.n) == 0
            return
        self.S, self.gcd = E.st.notes.get('system'), E.st.notes.get('gcd')
        yield 'data of every step', Iv(r.n) == n - 1
        last = E.seq_of(E.item(r, simp(Iv(r.n) - 1)))
        d = Iv(E.num(E.seq_of(E.item(r, 0)).get(0)))
        z0, rows = E.seq_of(last.get(5)), E.seq_of(last.get(6))
        yield 'one coordinate per coefficient', Iv(z0.n) == n
        yield 'one row per coefficient', Iv(rows.n) == n
        i = E.fresh('i')
        E.assume([0 <= i, i < n])
        yield 'one direction less than coefficients', Iv(E.seq_of(E.item(rows, i)).n) == n - 1
        z = lambda i: Iv(E.num(z0.get(i)))
        w = lambda i, j: Iv(E.num(E.seq_of(rows.get(i)).get(j)))
        S = self.S
        e, d = d, S.d if S is not None else self.gcd[0]
        E.prove(e == d, 'the divisor of all coefficients is in the first item')
        self.check(E, d, z, w)
        yield 'the divisor is not zero', d != 0
        yield 'the divisor divides the coefficients', self.quotients(E, d)
        yield 'the base solution', self.dot(z) == d
        j = E.fresh('j')
        E.assume([0 <= j, j < n - 1])
        self.check_column(E, w, j)
        yield 'directions solve the homogeneous equation', self.dot(lambda i: w(i, j)) == 0

    def dot(self, f, lo=0):
        return sum_range(lambda i: self.a(Iv(i)) * f(i), lo, self.n)

    def quotients(self, E, d):
        """a(i) == d * quotient(i)"""
        a, S = self.a, self.S
        i = E.fresh('i')
        E.assume([0 <= i, i < self.n])
        g = self.gcd[0]
        q0, q1 = Iv(pydiv(a(0), g)), Iv(pydiv(a(1), g))
        if S is None:
            E.prove(z3.And(a(0) == g * q0, a(1) == g * q1), 'quotients by the step divisor')
            return a(i) == d * z3.If(i == 0, q0, q1)
        E.assume(T.inst_quant(E.st.pc, [z3.IntVal(0), simp(i - 1)]))
        u = S.quot(0)
        calc(E, 'quotients of the first two', [a(0) == g * q0, a(1) == g * q1, g == S.d * u],
             z3.And(a(0) == S.d * (u * q0), a(1) == S.d * (u * q1)))
        calc(E, 'quotient of a coefficient', [z3.Implies(i == 0, a(i) == a(0)), z3.Implies(i == 1, a(i) == a(1)), a(0) == S.d * (u * q0), a(1) == S.d * (u * q1),
             z3.Implies(i >= 2, a(i) == S.d * S.quot(simp(i - 1))), d == S.d, i >= 0],
             a(i) == d * z3.If(i == 0, u * q0, z3.If(i == 1, u * q1, S.quot(simp(i - 1)))))
        return a(i) == d * z3.If(i == 0, u * q0, z3.If(i == 1, u * q1, S.quot(simp(i - 1))))

    def check(self, E, d, z, w):
        """the base solution"""
        a, n, S = self.a, self.n, self.S
        P0, P2 = self.dot(z), self.dot(z, 2)
        a0, a1, z0, z1 = a(0), a(1), z(0), z(1)
        h = mark(self.dot(z, 1), P2)
        first = P0 == a0 * z0 + a1 * z1 + P2
        E.prove(first, 'split of the base solution', hints=h)
        if S is None:
            calc(E, 'base solution', [first, P2 == 0, d == a0 * z0 + a1 * z1], P0 == d)
            return
        g, x, y = Iv(S.a(0)), *self.gcd[1:]
        c, S0, S1 = S.z0(0), S.dot(S.z0), S.dot(S.z0, 1)
        E.prove(S0 == g * c + S1, 'split of the inner solution', hints=mark(S1))
        same_sum(E, 'common part of the solutions', lambda i: a(i) * z(i), 2, n, lambda i: Iv(S.a(i)) * S.z0(i), 1)
        calc(E, 'base solution', [first, z0 == x * c, z1 == y * c, S0 == g * c + S1, P2 == S1, S0 == d, g == a0 * x + a1 * y], P0 == d)

    def check_column(self, E, w, j):
        a, n, S = self.a, self.n, self.S
        a0, a1 = a(0), a(1)
        g, x, y = self.gcd
        if E.branch(j == 0):
            v = lambda i: w(i, j)
            C0, C2 = self.dot(v), self.dot(v, 2)
            q0, q1 = Iv(pydiv(a0, g)), Iv(pydiv(a1, g))
            E.prove(C0 == a0 * v(0) + a1 * v(1) + C2, 'split of the first direction', hints=mark(self.dot(v, 1), C2))
            lemma_down(E, 'later coordinates of the first direction are zero', 2, n, lambda t: self.dot(v, t) == 0)
            E.assume(T.inst_quant(E.st.pc, [z3.IntVal(2)]))
            calc(E, 'first direction', [C0 == a0 * v(0) + a1 * v(1) + C2, C2 == 0, v(0) == -q1, v(1) == q0, a0 == g * q0, a1 == g * q1], C0 == 0)
            return
        if S is None:
            return
        v = lambda i: w(i, j)
        C0, C2 = self.dot(v), self.dot(v, 2)
        E.assume(T.inst_quant(E.st.pc, [simp(j - 1)]))
        c = S.zs(0, simp(j - 1))
        S0, S1 = S.column(simp(j - 1)), S.column(simp(j - 1), 1)
        E.prove(C0 == a0 * v(0) + a1 * v(1) + C2, 'split of a direction', hints=mark(self.dot(v, 1), C2))
        E.prove(S0 == g * c + S1, 'split of the inner direction', hints=mark(S1))
        same_sum(E, 'common part of the directions', lambda i: a(i) * v(i), 2, n, lambda i: Iv(S.a(i)) * S.zs(i, simp(j - 1)), 1)
        calc(E, 'direction', [C0 == a0 * v(0) + a1 * v(1) + C2, v(0) == x * c, v(1) == y * c, S0 == g * c + S1, C2 == S1, S0 == 0,
                              g == a0 * x + a1 * y], C0 == 0)


ELIMINATION = ('bounded stand-in for the integral Gauss elimination of init_diophantine (no contract; checked on CPython for '
               'all rows of at most 4 small coefficients)')


@contract('C07')
class InitDiophantine(Contract):
    """divisor, base solution and directions; the table of the elimination (D, b, s) is not specified"""
    target = 'gcs.slice_tools.init_diophantine'
    use = True
    requires = ('gcs.slice_tools.extgcd', 'gcs.slice_tools._init_diophantine')
    opaque = ELIMINATION

    def cases(self, E):
        return [(k, lambda k=k: self.build(E, k)) for k in ('no shape', 'shape', 'empty shape')]

    def build(self, E, kind):
        n, a = self.n, self.a = E.fresh('n'), E.fresh_fn('a', Int, Int)
        self.kind = kind
        i = z3.Int('i!co')
        E.assume(n >= 0)
        if kind != 'empty shape':
            E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a(i) != 0), patterns=[a(i)]))
        if kind == 'no shape':
            return [fn_seq(n, a), None]
        size = E.fresh_fn('size', Int, Int)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), size(i) >= (0 if kind == 'empty shape' else 1)), patterns=[size(i)]))
        if kind == 'empty shape':
            w = E.fresh('w')
            E.assume([0 <= w, w < n, size(w) == 0])
        return [fn_seq(n, a), fn_seq(n, size)]

    def post(self, E, args, r):
        n, a = self.n, self.a
        d, z0, zs, D, b, s = r.items
        d, z0, zs = Iv(E.num(d)), E.seq_of(z0), E.seq_of(zs)
        if E.branch(n == 0):
            yield 'no coefficients', And(d == 1, Iv(z0.n) == 0, Iv(zs.n) == 0)
            return
        yield 'one coordinate per coefficient', Iv(z0.n) == n
        if self.kind == 'empty shape':
            yield 'nothing to find in an empty array', And(d == 1, Iv(zs.n) == 0)
            return
        yield 'one direction less than coefficients', Iv(zs.n) == n - 1
        yield 'the divisor is not zero', d != 0
        z = lambda i: Iv(E.num(z0.get(i)))
        w = lambda i, j: Iv(E.num(E.seq_of(zs.get(j)).get(i)))
        if E.branch(n == 1):
            yield 'base solution of one coefficient', a(0) * z(z3.IntVal(0)) == d
            q = lambda i: z3.IntVal(1)
        else:
            S = E.st.notes['system']
            E.prove(d == S.d, 'the divisor')
            q = S.quot
            yield 'one row per direction', Q(['j'], lambda j: Implies(And(0 <= j, j < n - 1), Iv(E.seq_of(zs.get(j)).n) == n))
        yield 'base solution', sum_range(lambda i: a(Iv(i)) * z(Iv(i)), 0, n) == d
        i, j = E.fresh('i'), E.fresh('j')
        E.assume([0 <= i, i < n])
        E.assume(T.inst_quant(E.st.pc, [i]))
        yield 'the divisor divides the coefficients', a(i) == d * Iv(q(i))
        E.assume([0 <= j, j < n - 1])
        E.assume(T.inst_quant(E.st.pc, [j]))
        yield 'directions', sum_range(lambda i: a(Iv(i)) * w(Iv(i), j), 0, n) == 0
        for nm, x in (('table D', D), ('table b', b)):
            yield nm, Iv(E.seq_of(x).n) == n - 1
        if self.kind == 'shape':
            yield 'table s', Iv(E.seq_of(s).n) == z3.If(n == 1, n, n - 1)
        else:
            yield 'table s', z3.BoolVal(s is None)

    def applies(self, E, vals, kw):
        return E.as_plain_seq(vals[0]) is not None

    def apply(self, E, vals, kw):
        return solver_data(self, E, *vals, **kw)


def solver_data(self, E, a, shape=None):
    """The result of init_diophantine for callers.  The table (D, b, s) is unknown but for D being non-zero (stand-in)."""
    s = E.seq_of(a)
    n = s.n
    sh = None if shape is None else E.seq_of(shape)
    self.is_empty = False
    if E.branch(simp(Iv(n) == 0)):
        return CSeq([z3.IntVal(1), CSeq([]), CSeq([]), CSeq([]), CSeq([]), None])
    if sh is not None:
        E.prove(Iv(sh.n) == Iv(n), 'as many strides as axes')
        if E.branch(E.contains(sh, z3.IntVal(0))):
            return CSeq([z3.IntVal(1), fn_seq(n, lambda i: z3.IntVal(0)), CSeq([]), CSeq([]), CSeq([]), shape])
    E.prove(Q(['i'], lambda i: Implies(z3.And(0 <= i, i < Iv(n)), Iv(E.num(s.get(i))) != 0)), 'coefficients are not zero')
    if E.branch(simp(Iv(n) == 1)):
        return CSeq([E.num(s.get(z3.IntVal(0))), CSeq([z3.IntVal(1)]), CSeq([]), CSeq([]), CSeq([]), shape])
    E.st.notes['system'] = S = System(E, n, lambda i: E.num(s.get(i)))
    E.assume(S.facts())
    m = simp(Iv(n) - 1)
    D, b, t = (E.fresh_fn(x, Int, Int) for x in ('tabD', 'tabb', 'tabs'))
    i = z3.Int('i!sd')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), D(i) != 0), patterns=[D(i)]))
    E.assumptions.add(ELIMINATION)
    return CSeq([S.d, fn_seq(n, lambda i: S.z0(Iv(i))), fn_seq(m, lambda j: fn_seq(n, lambda i: S.zs(Iv(i), Iv(j)))),
                 fn_seq(m, lambda i: D(Iv(i))), fn_seq(m, lambda i: b(Iv(i))),
                 None if sh is None else fn_seq(m, lambda i: t(Iv(i)))])


def scaled(E, name, S, x, d, q):
    """sum a(i) * x(i) == d * sum q(i) * x(i), for coefficients a(i) == d * q(i)"""
    ax = lambda t: sum_range(lambda i: S.a(Iv(i)) * Iv(x(Iv(i))), 0, t)
    qx = lambda t: sum_range(lambda i: q(Iv(i)) * Iv(x(Iv(i))), 0, t)

    def step(t):
        calc(E, f'{name}: summand', [Iv(S.a(t)) == d * q(t)], Iv(S.a(t)) * Iv(x(t)) == d * (q(t) * Iv(x(t))))
        p = q(t) * Iv(x(t))
        calc(E, f'{name}: next', [ax(t + 1) == ax(t) + Iv(S.a(t)) * Iv(x(t)), qx(t + 1) == qx(t) + p, ax(t) == d * qx(t),
                                  Iv(S.a(t)) * Iv(x(t)) == d * p], ax(t + 1) == d * qx(t + 1))
        return []
    lemma_up(E, name, 0, S.n, lambda t: ax(t) == d * qx(t), hints=step)
    E.assume(T.inst_quant(E.st.pc, [Iv(S.n)]))
    return ax(S.n), qx(S.n)


def combined(E, name, S, x, y, k):
    """sum a(i) * (k * x(i) + y(i)) == k * sum a(i) * x(i) + sum a(i) * y(i)"""
    A = lambda f: lambda t: sum_range(lambda i: Iv(S.a(Iv(i))) * Iv(f(Iv(i))), 0, t)
    z = lambda i: k * Iv(x(i)) + Iv(y(i))
    ax, ay, az = A(x), A(y), A(z)

    def step(t):
        calc(E, f'{name}: next', [ax(t + 1) == ax(t) + Iv(S.a(t)) * Iv(x(t)), ay(t + 1) == ay(t) + Iv(S.a(t)) * Iv(y(t)),
                                  az(t + 1) == az(t) + Iv(S.a(t)) * (k * Iv(x(t)) + Iv(y(t))), az(t) == k * ax(t) + ay(t)],
             az(t + 1) == k * ax(t + 1) + ay(t + 1))
        return []
    lemma_up(E, name, 0, S.n, lambda t: az(t) == k * ax(t) + ay(t), hints=step)
    E.assume(T.inst_quant(E.st.pc, [Iv(S.n)]))
    return az(S.n), ax(S.n), ay(S.n)


@contract('C07')
class Diophantine(Contract):
    """all solutions reported are solutions; no solution reported means there is none"""
    target = 'gcs.slice_tools.diophantine'
    requires = ('gcs.slice_tools.init_diophantine', 'gcs.slice_tools._init_diophantine', 'gcs.slice_tools.extgcd')

    def build(self, E):
        self.n, self.a = coefficients(E)
        self.c = E.fresh('c')
        return [fn_seq(self.n, self.a), self.c]

    def post(self, E, args, r):
        n, a, c = self.n, self.a, self.c
        S = E.st.notes.get('system')
        if S is None:          # one coefficient
            S = System(E, n, a)
            E.assume([S.d == a(0)])
            d, q = a(0), lambda i: z3.IntVal(1)
            E.prove(n == 1, 'one coefficient')
        else:
            d, q = S.d, S.quot
        yield 'the divisor is not zero', d != 0
        x0, zs = r.items
        if x0 is None:
            yield 'no directions without a solution', Iv(E.seq_of(zs).n) == 0
            x = E.fresh_fn('x', Int, Int)
            ax, qx = scaled(E, 'multiples of the divisor', S, x, d, q)
            h = [div_unique(ax, d, qx, 0)]
            E.prove(Iv(pydiv(ax, d)) == qx, 'quotient of any sum', hints=h, rounds=1)
            E.prove(Iv(pymod(ax, d)) == 0, 'any sum is a multiple of the divisor', hints=h, rounds=1)
            yield 'no solution exists', ax != c
            # the divisor is a common divisor, and the largest
            i = E.fresh('i')
            E.assume([0 <= i, i < n])
            E.assume(T.inst_quant(E.st.pc, [i]))
            yield 'the divisor divides the coefficients', a(i) == d * Iv(q(i))
            return
        x0, zs = E.seq_of(x0), E.seq_of(zs)
        yield 'one coordinate per coefficient', Iv(x0.n) == n
        yield 'one direction less than coefficients', Iv(zs.n) == n - 1
        k = Iv(pydiv(c, d))
        E.prove(c == k * d, 'right-hand side')
        z = lambda i: Iv(E.num(x0.get(Iv(i))))
        if E.entails(n == 1):
            base = z(z3.IntVal(0)) * a(0) == c
            calc(E, 'one coordinate', [c == k * d, d == a(0), z(z3.IntVal(0)) == k], base)
            E.prove(sum_range(lambda i: a(Iv(i)) * z(i), 0, n) == c, 'base solution', hints=mark(sum_range(lambda i: a(Iv(i)) * z(i), 0, 1)))
        else:
            o = lambda i: z3.IntVal(0)
            az, ax, ay = combined(E, 'multiples of the base solution', S, lambda i: S.z0(i), o, k)
            same_sum(E, 'base solution', lambda i: a(Iv(i)) * z(i), 0, n, lambda i: Iv(S.a(i)) * (k * S.z0(Iv(i)) + 0), 0)
            zero = lambda t: sum_range(lambda i: Iv(S.a(Iv(i))) * 0, 0, t)
            lemma_up(E, 'sum of zeros', 0, n, lambda t: zero(t) == 0)
            E.assume(T.inst_quant(E.st.pc, [n]))
            x = sum_range(lambda i: a(Iv(i)) * z(i), 0, n)
            calc(E, 'the base solution', [x == az, az == k * ax + ay, ay == zero(n), zero(n) == 0, ax == d, c == k * d], x == c)
        x = sum_range(lambda i: a(Iv(i)) * z(i), 0, n)
        yield 'base solution satisfies the equation', x == c
        # adding directions one by one, with any parameters
        w = lambda i, j: Iv(E.num(E.seq_of(zs.get(Iv(j))).get(Iv(i))))
        if E.branch(n == 1):
            return
        yield 'coordinates of the directions', Q(['j'], lambda j: Implies(z3.And(0 <= j, j < n - 1), Iv(E.seq_of(zs.get(j)).n) == n))
        t, j, y = E.fresh('t'), E.fresh('j'), E.fresh_fn('y', Int, Int)
        E.assume([0 <= j, j < n - 1])
        E.assume(T.inst_quant(E.st.pc, [j]))
        az, ax, ay = combined(E, 'adding a direction', S, lambda i: S.zs(Iv(i), j), y, t)
        E.assume(ay == c)
        new = sum_range(lambda i: a(Iv(i)) * (t * w(i, j) + y(Iv(i))), 0, n)
        same_sum(E, 'solution with the direction', lambda i: a(Iv(i)) * (t * w(i, j) + y(Iv(i))), 0, n,
                 lambda i: Iv(S.a(i)) * (t * S.zs(Iv(i), j) + y(Iv(i))), 0)
        calc(E, 'any multiple of a direction added to a solution', [new == az, az == t * ax + ay, ax == 0, ay == c], new == c)
        yield 'any multiple of a direction added to a solution gives a solution', new == c


@contract('C07')
class GreatestDivisor(Contract):
    """the divisor of the solver data is divided by every common divisor of the coefficients"""
    target = 'gcs.slice_tools.init_diophantine'
    requires = ('gcs.slice_tools.init_diophantine', 'gcs.slice_tools._init_diophantine', 'gcs.slice_tools.extgcd')

    def build(self, E):
        self.n, self.a = coefficients(E)
        return [fn_seq(self.n, self.a)]

    def call(self, E, args):
        return E.contracts[self.target].apply(E, [args[0]], {})

    def post(self, E, args, r):
        n, a = self.n, self.a
        d = Iv(E.num(r.items[0]))
        z0 = E.seq_of(r.items[1])
        e, q = E.fresh('e'), E.fresh_fn('eq', Int, Int)
        i = z3.Int('i!gd')
        E.assume(e != 0)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a(i) == e * q(i)), patterns=[a(i)]))
        S = E.st.notes.get('system')
        if S is None:
            E.prove(n == 1, 'one coefficient')
            yield 'every common divisor divides it', d == e * q(0)
            return
        ax, qx = scaled(E, 'multiples of a common divisor', S, S.z0, e, q)
        E.prove(ax == d, 'the base solution')
        yield 'every common divisor divides it', d == e * qx
