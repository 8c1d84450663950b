"""Contracts for the slice arithmetic (C01)."""
from .base import *  # noqa


def py_bounds(start, stop, step, n):
    """start, stop, step of CPython's slice.indices"""
    n = Iv(n)
    if step is None:
        step = 1
    st = Iv(step)
    pos = st > 0
    zero = z3.IntVal(0)

    def clamp(v, lo, hi):
        w = z3.If(v < 0, v + n, v)
        return z3.If(v < 0, z3.If(w < lo, lo, w), z3.If(v > hi, hi, v))
    s_pos = zero if start is None else clamp(Iv(start), zero, n)
    s_neg = n - 1 if start is None else clamp(Iv(start), z3.IntVal(-1), n - 1)
    e_pos = n if stop is None else clamp(Iv(stop), zero, n)
    e_neg = z3.IntVal(-1) if stop is None else clamp(Iv(stop), z3.IntVal(-1), n - 1)
    return simp(z3.If(pos, s_pos, s_neg)), simp(z3.If(pos, e_pos, e_neg)), step


def py_count(b, e, step):
    """number of items of range(b, e, step)"""
    b, e, st = Iv(b), Iv(e), Iv(step)
    return simp(z3.If(st > 0, z3.If(b < e, Iv(pydiv(e - b - 1, st)) + 1, 0),
                      z3.If(b > e, Iv(pydiv(b - e - 1, -st)) + 1, 0)))


def slice_cases(E, with_neg=True):
    out = []
    for a in ('', 'start '):
        for b in ('', 'stop '):
            for c in ('', 'step>0', 'step<0'):
                def build(a=a, b=b, c=c):
                    n = E.fresh('n')
                    E.assume(n >= 0)
                    st = E.fresh('start') if a else None
                    sp = E.fresh('stop') if b else None
                    se = E.fresh('step') if c else None
                    if c:
                        E.assume(se > 0 if c == 'step>0' else se < 0)
                    return [SliceVal(st, sp, se), n]
                out.append(((a + b + c).strip() or 'all absent', build))
    return out


class SliceSpec:
    """What a slice selects from an axis, as functions of the parts of the slice and of the length of the axis.

    pb, pc, ps: first selected position, number of selected items, step (defined by py_bounds and py_count);
    ra, rz, rs: the parts of the reduced slice; nit: number of items reported for an already reduced slice.
    """
    B = z3.BoolSort()
    sig = [B, Int, B, Int, B, Int, Int]
    pb = z3.Function('first_selected', *sig, Int)
    pc = z3.Function('selected_count', *sig, Int)
    ps = z3.Function('selected_step', *sig, Int)
    ra = z3.Function('reduced_start', *sig, Int)
    rz = z3.Function('reduced_stop', *sig, Int)
    rs = z3.Function('reduced_step', *sig, Int)
    nit = z3.Function('nitems_reduced', Int, Int, Int, Int, Int)

    @staticmethod
    def part(v):
        """(present, value) of a part of a slice"""
        if v is None:
            return z3.BoolVal(False), z3.IntVal(0)
        if isinstance(v, U):
            c, x = v.alts[0]
            return Bv(c), Iv(x)
        return z3.BoolVal(True), Iv(v)

    @classmethod
    def args(cls, s, n):
        out = []
        for p in (s.start, s.stop, s.step):
            out += cls.part(p)
        return out + [Iv(n)]

    @classmethod
    def facts(cls, a):
        """proved by the contracts Reduced and NitemsReduced"""
        n = a[-1]
        pb, pc, ps = cls.pb(*a), cls.pc(*a), cls.ps(*a)
        ra, rs = cls.ra(*a), cls.rs(*a)
        out = [pc >= 0, rs != 0, z3.Implies(pc > 0, z3.And(0 <= pb, pb < n)), pc <= n,
               z3.Implies(pc > 1, rs == ps), z3.Implies(pc > 0, FMOD(ra, n) == pb),
               cls.nit(ra, cls.rz(*a), rs, n) == pc]
        if all(z3.is_false(a[i]) for i in (0, 2, 4)):      # slice(None)
            out.append(z3.And(pb == 0, pc == n, ps == 1))
        b = cls.base(a)
        if b is not a:
            out += [pc == cls.pc(*b), z3.Implies(pc > 0, pb == cls.pb(*b)), z3.Implies(pc > 1, ps == cls.ps(*b))]
        return out

    @classmethod
    def base(cls, a):
        """a reduced slice selects what the slice selects from which it was made"""
        while True:
            x = [a[1], a[3], a[5]]
            if not all(z3.is_app(v) and v.decl().eq(f) for v, f in zip(x, (cls.ra, cls.rz, cls.rs))):
                return a
            b = x[0].children()
            if not all(p.eq(q) for v in x[1:] for p, q in zip(v.children(), b)) or not b[-1].eq(a[-1]):
                return a
            if not all(z3.is_true(v) for v in (a[0], a[2], a[4])):
                return a
            a = b

    @classmethod
    def facts_range(cls, a):
        n, pb, pc, ps = a[-1], cls.pb(*a), cls.pc(*a), cls.ps(*a)
        return [z3.Implies(pc > 0, z3.And(0 <= pb + (pc - 1) * ps, pb + (pc - 1) * ps < n))]


@contract('C01')
class Reduced(Contract):
    target = 'gcs.slice_tools.reduced'
    budget = 300
    use = True

    def applies(self, E, vals, kw):
        return isinstance(vals[0], SliceVal) and is_int(vals[1])

    def apply(self, E, vals, kw):
        s, n = vals
        a = SliceSpec.args(s, n)
        E.prove(Iv(n) >= 0, 'reduced: the length is not negative')
        E.prove(Implies(a[4], a[5] != 0), 'reduced: the step is not zero')
        for f in SliceSpec.facts(a):
            E.assume(f)
        return SliceVal(SliceSpec.ra(*a), SliceSpec.rz(*a), SliceSpec.rs(*a))

    def cases(self, E):
        return slice_cases(E)

    def post(self, E, args, r):
        s, n = args
        if not isinstance(r, SliceVal):
            yield 'a slice is returned', False
            return
        if r.start is None or r.stop is None or r.step is None:
            yield 'start, stop and step are set', False
            return
        b, e, st = py_bounds(s.start, s.stop, s.step, n)
        cnt = py_count(b, e, st)
        rb, re_, rst = py_bounds(r.start, r.stop, r.step, n)
        rcnt = py_count(rb, re_, rst)
        yield 'the step is not zero', Iv(r.step) != 0
        yield 'same number of items', Iv(cnt) == rcnt
        yield 'same first item', z3.Implies(Iv(cnt) > 0, Iv(b) == rb)
        yield 'same step', z3.Implies(Iv(cnt) > 1, Iv(st) == rst)
        yield 'the first item is start modulo the length', z3.Implies(Iv(cnt) > 0, Iv(pymod(r.start, Iv(n))) == b)
        yield 'at most as many items as the axis is long', z3.And(Iv(cnt) >= 0, Iv(cnt) <= Iv(n))
        last = Iv(b) + (Iv(cnt) - 1) * Iv(st)
        yield 'first and last item lie inside the axis', z3.Implies(Iv(cnt) > 0, z3.And(
            0 <= Iv(b), Iv(b) < Iv(n), 0 <= last, last < Iv(n)))
        if s.start is None and s.stop is None and s.step is None:
            yield 'slice(None) selects the whole axis', z3.And(Iv(b) == 0, Iv(st) == 1, Iv(cnt) == Iv(n))
        # the reported positions
        x = E.fresh('k')
        E.assume([0 <= x, x < Iv(cnt)])
        p = Iv(r.start) + x * Iv(r.step)
        q = Iv(b) + x * Iv(st)
        yield 'positions lie inside the axis', z3.And(p >= -Iv(n), p < Iv(n))
        yield 'position k is start + k*step modulo the length', z3.If(p < 0, p + Iv(n), p) == q


@contract('C01')
class Nitems(Contract):
    target = 'gcs.slice_tools.nitems'
    budget = 300
    use = True

    def applies(self, E, vals, kw):
        s, n, r = vals
        return isinstance(s, SliceVal) and is_int(n) and isinstance(r, bool) and (
            r or all(is_int(x) for x in (s.start, s.stop, s.step)))

    def apply(self, E, vals, kw):
        s, n, r = vals
        if not r:
            return SliceSpec.nit(Iv(s.start), Iv(s.stop), Iv(s.step), Iv(n))
        a = SliceSpec.args(s, n)
        E.prove(Iv(n) >= 0, 'nitems: the length is not negative')
        E.prove(Implies(a[4], a[5] != 0), 'nitems: the step is not zero')
        for f in SliceSpec.facts(a):
            E.assume(f)
        return SliceSpec.pc(*a)

    def cases(self, E):
        return slice_cases(E)

    def post(self, E, args, r):
        s, n = args
        b, e, st = py_bounds(s.start, s.stop, s.step, n)
        yield 'number of selected items', Iv(E.num(r)) == py_count(b, e, st)


@contract('C01')
class NitemsReduced(Contract):
    """nitems of an already reduced slice"""
    target = 'gcs.slice_tools.nitems'
    budget = 300

    def cases(self, E):
        return slice_cases(E)

    def call(self, E, args):
        r = E.run_body(E.func('gcs.slice_tools.reduced'), args, {})
        return E.run_body(E.func(self.target), [r, args[1]], {'reduce': False})

    post = Nitems.post
