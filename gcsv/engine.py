"""Symbolic execution of /repo's Python source and generation of proof obligations.

The abstract syntax tree of the current source is executed path by path over symbolic values.  Calls of
functions under contract use the contract only, other functions of the repository are inlined.  Loops
over symbolic ranges are cut: a generic iteration is executed, the effect on every modified location is
summarised by a closed form (sum, map, filter, store) or by candidate invariants of which the inductive
ones are kept.  Everything that is assumed about a loop is an obligation proved from that iteration.
"""
import ast
import os
import sys
import time

import z3

from .terms import *  # noqa
from .terms import Int, Bool
from . import terms as T
from .values import *  # noqa

sys.setrecursionlimit(20000)

REPO = os.environ.get('GCSV_REPO', '/repo')


class PathDead(Exception):
    pass


class PyExc(Exception):
    def __init__(self, etype, msg='', line=None):
        Exception.__init__(self, f'{etype}: {msg}')
        self.etype, self.msg, self.line = etype, msg, line


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class State:
    __slots__ = ('pc', 'dec', 'envs', 'heap', 'ctr', 'atoms', 'notes')

    def __init__(self):
        self.pc, self.dec, self.envs, self.heap, self.ctr, self.atoms, self.notes = [], [], {}, {}, 0, {}, {}

    def copy(self):
        s = State()
        s.pc, s.dec = list(self.pc), list(self.dec)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.ctr = self.ctr
        s.atoms = dict(self.atoms)
        s.notes = dict(self.notes)
        return s


class Trace:
    def __init__(self, prefix, memo):
        self.prefix, self.pos, self.choices, self.alts, self.memo, self.nloops = prefix, 0, [], [], memo, 0


class Out:
    def __init__(self, state, kind, value=None):
        self.state, self.kind, self.value = state, kind, value


class Scope:
    __slots__ = ('eid', 'parent')

    def __init__(self, eid, parent):
        self.eid, self.parent = eid, parent


class Frame:
    def __init__(self, func, scope, module, gen=None):
        self.func, self.scope, self.module, self.gen = func, scope, module, gen


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree, self.globals = name, path, tree, {}


class Obligation:
    __slots__ = ('name', 'status', 'time', 'func', 'detail', 'line')

    def __init__(self, name, status, t, func, detail='', line=None):
        self.name, self.status, self.time, self.func, self.detail, self.line = name, status, t, func, detail, line


DEFAULT_TIMEOUT = 6000


class Engine:
    def __init__(self, contracts=None, timeout=DEFAULT_TIMEOUT):
        self.modules = {}
        self.contracts = contracts or {}
        self.obligations = []
        self.timeout = timeout
        self.st = State()
        self.trace = Trace([], {})
        self.itervars = []
        self.spec_depth = 0       # > 0: speculative execution, obligations are not recorded
        self.verifying = None
        self.active_hints = []
        self.calldepth = 0
        self.curline = None
        self.curfunc = '?'
        self.proved_cache = {}
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions = set()
        self.deadline = None
        self.ext_hooks = {}
        self.filter_cache, self.filters, self.sortings, self.codes = {}, [], [], None
        self.opaque_ok = None
        self.selectors = []

    # -------------------------------------------------------------- source

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(REPO, *name.split('.'), '__init__.py')
        src = open(path).read()
        m = Module(name, path, ast.parse(src, path))
        self.modules[name] = m
        from .builtins_ import make_builtins
        if not hasattr(self, 'builtins'):
            self.builtins = make_builtins(self)
        for node in m.tree.body:
            self._global(m, node)
        return m

    def _global(self, m, node):
        g = m.globals
        if isinstance(node, ast.FunctionDef):
            g[node.name] = self._mkfunc(node, m, None, None)
        elif isinstance(node, ast.ClassDef):
            c = Cls(node.name, [], {}, m)
            for b in node.bases:
                if isinstance(b, ast.Name) and b.id in g:
                    c.bases.append(g[b.id])
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    kind = 'function'
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                            kind = d.id
                        else:
                            kind = 'decorated'
                    f = self._mkfunc(s, m, None, c)
                    f.kind = kind
                    c.ns[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.ns[t.id] = ('lazy', s.value, m)
            g[node.name] = c
        elif isinstance(node, ast.Import):
            for a in node.names:
                nm = a.asname or a.name.split('.')[0]
                g[nm] = Sent('module ' + (a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(node, ast.ImportFrom):
            for a in node.names:
                nm = a.asname or a.name
                base = (node.module or '')
                if node.level:
                    pk = m.name.split('.')[:-1]
                    base = '.'.join(pk + ([base] if base else []))
                full = f'{base}.{a.name}' if base else a.name
                p = os.path.join(REPO, *full.split('.')) + '.py'
                if os.path.exists(p):
                    g[nm] = ('module', full)
                else:
                    pb = os.path.join(REPO, *base.split('.')) + '.py'
                    if base and os.path.exists(pb):
                        g[nm] = ('from', base, a.name)
                    else:
                        g[nm] = Sent(f'module {full}')
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    g[t.id] = ('lazy', node.value, m)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            g[node.target.id] = ('lazy', node.value, m)
        elif isinstance(node, (ast.If, ast.Try)):
            for s in node.body:
                self._global(m, s)

    def _mkfunc(self, node, m, scope, cls):
        f = Func(node, m, scope, node.name if hasattr(node, 'name') else '<lambda>', cls)
        return f

    def global_lookup(self, m, name):
        g = m.globals
        if name in g:
            v = g[name]
            if isinstance(v, tuple):
                if v[0] == 'lazy':
                    ctr = self.st.ctr
                    fr = Frame(None, Scope(self.newenv(), None), m)
                    alias = isinstance(v[1], (ast.Name, ast.Attribute))
                    v = self.eval(v[1], fr)
                    if alias or v is None or isinstance(v, (Sent, int, str, bool, TypeVal)):
                        # the first use takes no names (paths are replayed)
                        self.st.envs.pop(fr.scope.eid, None)
                        self.st.ctr = ctr
                    if isinstance(v, Ref):
                        # module level mutable objects are re-created in each path
                        return v
                elif v[0] == 'module':
                    v = self.load(v[1])
                elif v[0] == 'from':
                    v = self.global_lookup(self.load(v[1]), v[2])
                g[name] = v
            return v
        if name in self.builtins:
            return self.builtins[name]
        raise PyExc('NameError', name, self.curline)

    def func(self, qual):
        """'gcs.storage.COO.get_slice' -> Func or Cls"""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            mod = '.'.join(parts[:i])
            p = os.path.join(REPO, *parts[:i]) + '.py'
            if os.path.exists(p):
                m = self.load(mod)
                v = m
                for x in parts[i:]:
                    if isinstance(v, Module):
                        if x not in v.globals:
                            raise Unsupported(f'{qual} does not exist')
                        v = self.global_lookup(v, x)
                    else:
                        v = v.lookup(x)
                        if v is None:
                            raise Unsupported(f'{qual} does not exist')
                return v
        raise Unsupported(f'{qual} does not exist')

    # -------------------------------------------------------------- state

    def newenv(self):
        self.st.ctr += 1
        e = self.st.ctr
        self.st.envs[e] = {}
        return e

    def alloc(self, rec):
        self.st.ctr += 1
        self.st.heap[self.st.ctr] = rec
        return Ref(self.st.ctr)

    def new_list(self, seq):
        return self.alloc(ListRec(seq))

    def fresh(self, name, sort=Int):
        self.st.ctr += 1
        nm = f'{name}!{self.st.ctr}'
        if self.itervars:
            return z3.Function(nm, *([Int] * len(self.itervars) + [sort]))(*self.itervars)
        return z3.Const(nm, sort)

    def fresh_fn(self, name, *sorts):
        """function with the active iteration variables as leading parameters"""
        self.st.ctr += 1
        nm = f'{name}!{self.st.ctr}'
        it = list(self.itervars)
        f = z3.Function(nm, *([Int] * len(it)), *sorts)
        return lambda *a: f(*it, *[Iv(x) if is_int(x) else x for x in a])

    def assume(self, c, decision=False):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x, decision)
            return
        c = conc(c)
        if c is True:
            return
        if c is False:
            raise PathDead()
        i = c.get_id()
        if i in self.st.atoms:
            if self.st.atoms[i] is False:
                raise PathDead()
            return
        T.KEEP.append(c)
        T.check_capture(c)
        self.st.atoms[i] = True
        if z3.is_not(c):
            T.KEEP.append(c.arg(0))
            self.st.atoms[c.arg(0).get_id()] = False
        self.st.pc.append(c)
        if decision:
            self.st.dec.append(c)

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of this function is used up')

    def feasible(self, c):
        self.check_time()
        return T.solve(self.st.pc + [c], timeout=1500, rounds=2, ext=False) != 'unsat'

    def entails(self, c, timeout=None, rounds=3):
        c = conc(c)
        if isinstance(c, bool):
            return c or not self.feasible(True)
        i = c.get_id()
        if self.st.atoms.get(i) is True:
            return True
        self.check_time()
        return T.solve(self.st.pc + [z3.Not(c)], timeout=timeout or 3000, rounds=rounds) == 'unsat'

    def choose(self, n, feas=None):
        """nondeterministic choice of 0..n-1; feas(i) tells whether the alternative is possible."""
        tr = self.trace
        if tr.pos < len(tr.prefix):
            d = tr.prefix[tr.pos]
            tr.pos += 1
            tr.choices.append(d)
            return d
        ok = [i for i in range(n) if feas is None or feas(i)]
        if not ok:
            raise PathDead()
        d = ok[0]
        for a in ok[1:]:
            tr.alts.append(tr.choices + [a])
        tr.choices.append(d)
        tr.pos += 1
        return d

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, z3.ExprRef):
            raise Unsupported(f'condition {c!r}')
        c = simp(c)
        if isinstance(c, bool):
            return c
        known = self.st.atoms.get(c.get_id())
        if known is None and z3.is_not(c):
            known = self.st.atoms.get(c.arg(0).get_id())
            if known is not None:
                known = not known
        if known is not None:
            return known
        T.KEEP.append(c)
        forms = [c, simp(z3.Not(c))]
        d = self.choose(2, lambda i: self.feasible(forms[i]))
        self.assume(forms[d], True)
        self.st.atoms[c.get_id()] = (d == 0)
        return d == 0

    def explore(self, fn):
        """Run fn() on all feasible paths from the current state -> [Out]; state is restored
        (with the name counter advanced)."""
        base, saved = self.st, self.trace
        outs, stack, memo = [], [[]], {}
        top = base.ctr
        while stack:
            self.check_time()
            prefix = stack.pop()
            self.st = base.copy()
            self.trace = Trace(prefix, memo)
            try:
                v = fn()
                outs.append(Out(self.st, 'normal', v))
            except PathDead:
                pass
            except BreakSig:
                outs.append(Out(self.st, 'break'))
            except ContinueSig:
                outs.append(Out(self.st, 'normal'))
            except ReturnSig as r:
                outs.append(Out(self.st, 'return', r.value))
            except PyExc as e:
                outs.append(Out(self.st, 'exc', e))
            top = max(top, self.st.ctr)
            stack.extend(reversed(self.trace.alts))
            if len(outs) > 3000:
                raise Unsupported('too many paths')
        base.ctr = top
        self.st, self.trace = base, saved
        return outs

    # -------------------------------------------------------------- obligations

    def prove(self, goal, name, timeout=None, hints=(), rounds=3, quiet=False):
        """Obligation: path condition |= goal.  Afterwards goal is assumed."""
        if isinstance(goal, Q):
            if self.spec_depth:
                self.assume(goal.z3())
                return True
            st = self.st
            self.st = st.copy()
            vs = [self.fresh(n) for n in goal.names]
            try:
                g = goal.fn(*vs)
                extra = T.inst_quant(self.st.pc, vs)
                if goal.hints is not None:
                    extra = extra + list(goal.hints(*vs))
                r = self.prove(g, name, timeout, list(hints) + extra, rounds)
            finally:
                st.ctr = max(st.ctr, self.st.ctr)
                self.st = st
            self.assume(goal.z3())
            return r
        goal = conc(goal)
        if self.spec_depth:
            self.assume_soft(goal)
            return True
        if goal is True:
            self.record(name, 'ok', 0.0)
            return True
        pc = self.st.pc + list(hints)
        key = (goal.get_id() if isinstance(goal, z3.ExprRef) else goal, tuple(c.get_id() for c in self.st.pc), name)
        if key in self.proved_cache:
            if self.proved_cache[key]:
                self.assume_soft(goal)
            return self.proved_cache[key]
        if isinstance(goal, z3.ExprRef):
            T.KEEP.append(goal)
        self.check_time()
        t0 = time.time()
        neg = z3.Not(Bv(goal))
        to = timeout or self.timeout
        for rd, lim, nl in ((1, 1500, False), (2, 2000, False), (1, 1500, True), (2, 2500, True), (3, 2500, True),
                            (1, to, True), (2, to, True), (3, to, True)):
            if rd > rounds:
                continue
            r = T.solve(pc + [neg], timeout=min(lim, to), rounds=rd, nl=nl)
            if not nl and r == 'sat':
                r = 'unknown'
            if r != 'unknown' and not (r == 'sat' and rd < rounds):
                break
        ok = r == 'unsat'
        detail = ''
        if not ok:
            detail = f'solver answer: {r}; goal: {str(goal)[:600]}; under: ' + '; '.join(
                str(c).replace('\n', ' ')[:160] for c in self.st.dec[-12:])
        self.record(name, 'ok' if ok else r, time.time() - t0, detail)
        self.proved_cache[key] = ok
        self.assume_soft(goal)
        return ok

    def assume_soft(self, goal):
        """assume a proved (or reported) goal without killing the path"""
        if isinstance(goal, Q):
            return
        if goal is False:
            raise PathDead()
        self.assume(goal)

    def record(self, name, status, t, detail=''):
        self.obligations.append(Obligation(name, status, t, self.verifying or self.curfunc, detail, self.curline))

    def safety(self, cond, name, hints=()):
        """run-time error freedom"""
        cond = simp(cond)
        if cond is True:
            return
        if self.opaque_ok and T.tainted(cond):
            return self.assume_opaque(cond, name)
        self.prove(cond, f'{name} (line {self.curline})', hints=hints)

    def assume_q(self, q):
        if isinstance(q, Q):
            self.assume(q.z3())
        else:
            self.assume(q)

    # -------------------------------------------------------------- names

    def lookup(self, fr, name):
        s = fr.scope
        while s is not None:
            e = self.st.envs.get(s.eid)
            if e is not None and name in e:
                return e[name]
            s = s.parent
        return self.global_lookup(fr.module, name)

    def setname(self, fr, name, v):
        self.st.envs[fr.scope.eid][name] = v

    # -------------------------------------------------------------- statements

    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.curline = getattr(s, 'lineno', self.curline)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            self.setname(fr, a.asname or a.name.split('.')[0], Sent('module ' + a.name))

    def x_ImportFrom(self, s, fr):
        for a in s.names:
            self.setname(fr, a.asname or a.name, Sent(f'module {s.module}.{a.name}'))

    def x_Global(self, s, fr):
        raise Unsupported('global statement')

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, fr)
        self.eval(s.value, fr)

    def do_yield(self, node, fr):
        if isinstance(node, ast.YieldFrom):
            v = self.seq_of(self.eval(node.value, fr))
            rec = self.st.heap[fr.gen.id]
            self.st.heap[fr.gen.id] = ListRec(self.concat(rec.seq, v))
            return
        v = self.eval(node.value, fr) if node.value is not None else None
        rec = self.st.heap[fr.gen.id]
        self.st.heap[fr.gen.id] = ListRec(self.concat(rec.seq, CSeq([self.freeze(v)])))

    def x_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        old = self.eval(_load(s.target), fr)
        v = self.eval(s.value, fr)
        old = self.rv(old)
        if isinstance(s.op, ast.Add) and isinstance(old, (Ref, Slot)) and self.is_list(old):
            self.list_extend(old, self.seq_of(v))
            if isinstance(s.target, ast.Name):
                return
            return
        self.assign(s.target, self.binop(s.op, old, v), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.seq_of(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = simp(seq.n)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for j in range(i):
                    self.assign(t.elts[j], self.item(seq, j), fr)
                self.assign(t.elts[i].value, self.new_list(self.subseq(seq, i, simp(Iv(n) - after))), fr)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.item(seq, simp(Iv(n) - after + j)), fr)
                return
            if not isinstance(n, int):
                self.safety(n == len(t.elts), 'unpacking length')
            elif n != len(t.elts):
                raise PyExc('ValueError', 'unpacking length', self.curline)
            for j, e in enumerate(t.elts):
                self.assign(e, seq.get(j), fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Attribute):
            o = self.rv(self.eval(t.value, fr))
            self.setattr_(o, t.attr, v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def x_If(self, s, fr):
        if self.branch(self.truth(self.eval(s.test, fr))):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        c = self.eval(s.test, fr)
        c = self.truth(c)
        if isinstance(c, bool):
            if not c:
                raise PyExc('AssertionError', ast.unparse(s.test)[:80], s.lineno)
            return
        self.curline = s.lineno
        if self.opaque_ok and T.tainted(c):
            return self.assume_opaque(c, f'the assertion `{ast.unparse(s.test)[:60]}` holds')
        self.prove(c, f'assert at line {s.lineno}')

    def assume_opaque(self, c, what):
        self.assumptions.add(f'{self.opaque_ok}: {what} [{self.curfunc}]')
        self.assume(c)

    def x_Raise(self, s, fr):
        nm = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        raise PyExc(nm, ast.unparse(s.exc)[:80] if s.exc is not None else '', s.lineno)

    def x_FunctionDef(self, s, fr):
        f = self._mkfunc(s, fr.module, fr.scope, None)
        self.setdefaults(f, s.args, fr)
        self.setname(fr, s.name, f)

    def setdefaults(self, f, args, fr):
        f.defaults = tuple(self.eval(d, fr) for d in args.defaults)
        f.kwdefaults = {a.arg: self.eval(d, fr) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.envs[fr.scope.eid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_With(self, s, fr):
        raise Unsupported('with statement')

    def x_Try(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = [e.etype]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if e.etype in names or 'Exception' in names or (
                        e.etype in ('IndexError', 'KeyError') and 'LookupError' in names) or (
                        e.etype in ('ZeroDivisionError',) and 'ArithmeticError' in names):
                    if h.name:
                        self.setname(fr, h.name, Opaque('exception'))
                    self.exec_block(h.body, fr)
                    break
            else:
                self.exec_block(s.finalbody, fr)
                raise
        else:
            self.exec_block(s.orelse, fr)
        self.exec_block(s.finalbody, fr)

    # loops

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        seq = self.seq_of(it)
        n = simp(seq.n)
        if not isinstance(n, int):
            e = self.const_value(n)
            if e is not None and e <= 8:
                n = e
        if isinstance(n, int) and n <= 16:
            for j in range(n):
                self.assign(s.target, self.elem(seq, j), fr)
                try:
                    self.exec_block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            self.exec_block(s.orelse, fr)
            return
        self.sym_loop(s, self.nonneg(n),
                      lambda k: self.assign(s.target, self.elem(seq, k), fr),
                      lambda: self.exec_block(s.body, fr),
                      lambda: self.exec_block(s.orelse, fr))

    def nonneg(self, n):
        if not isinstance(n, int) and self.entails(Iv(n) >= 0, timeout=1000, rounds=1):
            return n
        return imax(n, 0)

    def const_value(self, n):
        """numeral that the path condition forces n to be, or None"""
        r, m = T.solve(self.st.pc, timeout=1000, rounds=1, ext=False, want_model=True)
        if r != 'sat':
            return None
        v = m.eval(n, model_completion=True)
        if not z3.is_int_value(v) or v.as_long() > 8:
            return None
        if T.solve(self.st.pc + [n != v], timeout=1000, rounds=1, ext=False) == 'unsat':
            return v.as_long()
        return None

    def x_While(self, s, fr):
        # concrete conditions are unrolled
        for _ in range(20):
            st, ctr = self.st, self.st.ctr
            c = self.try_concrete(s.test, fr)
            if c is False:
                self.exec_block(s.orelse, fr)
                return
            if c is None:
                break
            try:
                self.exec_block(s.body, fr)
            except ContinueSig:
                continue
            except BreakSig:
                return
        n = self.counted(s, fr)
        if n is not None:
            test = lambda: self.truth(self.eval(s.test, fr))
            self.sym_loop(s, n, lambda k: self.prove(test(), f'loop at line {s.lineno}: the condition holds before iteration k'),
                          lambda: self.exec_block(s.body, fr), None)
            self.prove(Not(test()), f'loop at line {s.lineno}: the condition fails after the last iteration')
            self.exec_block(s.orelse, fr)
            return
        self.sym_loop(s, None, lambda k: None, lambda: self.exec_block(s.body, fr),
                      lambda: self.exec_block(s.orelse, fr),
                      cond=lambda: self.truth(self.eval(s.test, fr)))

    def counted(self, s, fr):
        """number of iterations of a while loop that counts a variable up or down to a fixed bound (the caller proves that
        the condition holds before each of them and fails afterwards), or None"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(t.ops[0]))
        if op is None or any(isinstance(x, (ast.Break, ast.Return, ast.Continue)) for b in s.body for x in ast.walk(b)):
            return None
        stored = {}
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stored[x.id] = stored.get(x.id, 0) + 1
                if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield, ast.NamedExpr)):
                    return None

        def step(v):
            for b in s.body:
                if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == v:
                    o, c = b.op, b.value
                elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and \
                        b.targets[0].id == v and isinstance(b.value, ast.BinOp) and isinstance(b.value.left, ast.Name) and \
                        b.value.left.id == v:
                    o, c = b.value.op, b.value.right
                else:
                    continue
                if isinstance(c, ast.Constant) and type(c.value) is int and c.value > 0:
                    return c.value if isinstance(o, ast.Add) else -c.value if isinstance(o, ast.Sub) else None
            return None
        for var, bound, o in ((t.left, t.comparators[0], op), (t.comparators[0], t.left, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op])):
            if not (isinstance(var, ast.Name) and stored.get(var.id) == 1):
                continue
            if any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(bound)):
                continue
            c = step(var.id)
            if c is None or (c > 0) != (o[0] == '<'):
                continue
            a, b = self.eval(var, fr), self.eval(bound, fr)
            if not (is_int(a) and is_int(b)):
                continue
            d = Iv(b) - Iv(a) if c > 0 else Iv(a) - Iv(b)
            if len(o) == 2:
                d = d + 1
            c = abs(c)
            return self.nonneg(simp(d if c == 1 else T.pydiv(simp(d + c - 1), c)))
        return None

    def try_concrete(self, e, fr):
        if isinstance(e, ast.Constant):
            return None
        saved = self.st.copy()
        self.spec_depth += 1
        try:
            outs = self.explore(lambda: self.truth(self.eval(e, fr)))
        finally:
            self.spec_depth -= 1
            self.st = saved
        if len(outs) == 1 and outs[0].kind == 'normal' and isinstance(outs[0].value, bool):
            return outs[0].value
        return None

    # -------------------------------------------------------------- expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {getattr(e, "lineno", "?")}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, (int, bool, str, type(None))):
            return e.value
        if e.value is Ellipsis:
            return Opaque('...')
        raise Unsupported(f'constant {e.value!r}')

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.setname(fr, e.target.id, v)
        return v

    def e_Tuple(self, e, fr):
        return self.display(e.elts, fr, 'tuple')

    def e_List(self, e, fr):
        return self.new_list(self.display(e.elts, fr, 'list'))

    def e_Set(self, e, fr):
        return self.mkset(self.display(e.elts, fr, 'list'))

    def display(self, elts, fr, kind):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq_of(self.eval(x.value, fr))
                if isinstance(s, CSeq):
                    cur.extend(s.items)
                else:
                    parts += [CSeq(cur), s]
                    cur = []
            else:
                v = self.eval(x, fr)
                cur.append(self.freeze(v) if kind == 'list' else v)
        parts.append(CSeq(cur))
        r = parts[0]
        for p in parts[1:]:
            r = self.concat(r, p)
        return rekind(r, kind)

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.rv(self.eval(v, fr))
                items += list(self.dict_rec(d).items)
                continue
            items.append((self.dkey(self.eval(k, fr)), self.eval(v, fr)))
        return self.alloc(DictRec(dedupe(items)))

    def find_key(self, rec, k):
        """(value,) of the item with the key, or None; a symbolic key is compared with every key of the dictionary"""
        try:
            k = self.dkey(k)
        except Unsupported:
            for kk, v in rec.items:
                if self.branch(self.truth(self.eq(undkey(kk), k))):
                    return (v,)
            return None
        for kk, v in rec.items:
            if kk == k:
                return (v,)
        return None

    def dkey(self, k):
        k = self.rv(k)
        if isinstance(k, (str, int, bool, type(None))):
            return k
        if isinstance(k, CSeq):
            return ('t',) + tuple(self.dkey(x) for x in k.items)
        k = simp(k)
        if isinstance(k, int):
            return k
        raise Unsupported('symbolic dictionary key')

    def e_UnaryOp(self, e, fr):
        v = self.rv(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, int) else simp(-self.num(v))
        if isinstance(e.op, ast.UAdd):
            return self.num(v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def num(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, z3.ExprRef):
            if v.sort() == Int:
                return v
            if v.sort() == Bool:
                return Iv(v)
        if isinstance(v, Abs) and type(v).__name__ in ('Leaf', 'Poison'):
            v.len(self)
        raise PyExc('TypeError', f'number expected, got {v!r}', self.curline)

    def binop(self, op, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(op, ast.Mod) and (isinstance(a, str) or is_str(a)):
            return self.str_format(a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, z3.SeqRef)) and isinstance(b, (str, z3.SeqRef)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return z3.Concat(z3s(a), z3s(b))
            if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
                return Opaque('string')
            sa, sb = self.as_plain_seq(a), self.as_plain_seq(b)
            if sa is not None and sb is not None:
                if isinstance(a, (Ref, Slot)):
                    return self.new_list(self.concat(sa, sb))
                return rekind(self.concat(sa, sb), 'tuple')
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                s = self.as_plain_seq(x)
                if s is not None:
                    r = self.repeat(s, self.num(y))
                    return self.new_list(r) if isinstance(x, (Ref, Slot)) else rekind(r, 'tuple')
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and self.is_set(a):
            return self.set_op(op, a, b)
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if isinstance(op, (ast.Mod, ast.Add, ast.Mult)):
                return Opaque('string')
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return simp(x + y)
        if isinstance(op, ast.Sub):
            return simp(x - y)
        if isinstance(op, ast.Mult):
            return simp(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            y = simp(y)
            if isinstance(y, int):
                if y == 0:
                    raise PyExc('ZeroDivisionError', '', self.curline)
            else:
                # the dividend brings in what is known about its parts
                self.safety(y != 0, 'divisor is not zero', [Iv(x) == Iv(x)] if self.codes is not None else ())
            if self.codes is not None and isinstance(op, ast.Mod):
                return self.small_mod(x, y)
            return pydiv(x, y) if isinstance(op, ast.FloorDiv) else pymod(x, y)
        if isinstance(op, ast.Pow) and isinstance(x, int) and isinstance(y, int):
            return x ** y
        raise Unsupported(f'operator {type(op).__name__}')

    def small_mod(self, x, y):
        """x % y, where x is often inside [-y, y)"""
        if isinstance(x, z3.ExprRef):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                a, b = self.small_mod(x.arg(1), y), self.small_mod(x.arg(2), y)
                if same_val(a, b):
                    return a
                return simp(z3.If(x.arg(0), Iv(a), Iv(b)))
            if self.entails_cheap(And(0 <= x, x < y)):
                return x
            if self.entails_cheap(And(-y <= x, x < 0)):
                return simp(x + y)
        return pymod(x, y)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            if self.branch(t) != is_and:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1 and res is True:
                return c
            c = self.truth(c)
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                if i < len(e.ops) - 1:
                    # short circuit evaluation of the rest
                    if not self.branch(c):
                        return False
                else:
                    res = And(res, c)
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else Not(r)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        sa, sb = self.as_plain_seq(a), self.as_plain_seq(b)
        if sa is not None and sb is not None:
            return self.seq_less(sa, sb, op)
        x, y = self.num(a), self.num(b)
        r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
             ast.GtE: lambda: x >= y}[type(op)]()
        return simp(r) if isinstance(r, z3.ExprRef) else r

    def seq_less(self, a, b, op):
        """lexicographic comparison of sequences with concrete lengths"""
        if not isinstance(simp(a.n), int) or not isinstance(simp(b.n), int):
            raise Unsupported('comparison of sequences of unknown length')
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        n = min(simp(a.n), simp(b.n))
        r = (simp(a.n) < simp(b.n)) if strict else simp(a.n) <= simp(b.n)
        for i in range(n - 1, -1, -1):
            x, y = self.num(a.get(i)), self.num(b.get(i))
            r = Or(x < y, And(x == y, r))
        return r

    def is_same(self, a, b):
        if isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))):
            return a is b
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, z3.ExprRef) and o.sort() == V:
                return o == VNONE
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if a is b:
            return True
        if isinstance(a, (Sent, Cls, TypeVal, Func, Abs)) or isinstance(b, (Sent, Cls, TypeVal, Func, Abs)):
            return False
        if isinstance(a, (str, CSeq)) or isinstance(b, (str, CSeq)):
            raise Unsupported('identity of values')
        return self.eq(a, b)

    def ne(self, a, b):
        a2 = self.obj(a)
        if a2 is not None and a2.cls.lookup('__ne__') is not None:
            return self.truth(self.call_method(a, '__ne__', [b]))
        return Not(self.truth(self.eq(a, b)))

    object_eq = None        # contract of the equality of parts of objects

    def eq(self, a, b):
        a, b = self.rv(a), self.rv(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Abs) and hasattr(x, 'eq'):
                r = x.eq(self, y)
                if r is not NotImplemented:
                    return r
        oa, ob = self.obj(a), self.obj(b)
        if oa is not None and ob is not None and self.object_eq is not None:
            r = self.object_eq(a, b)
            if r is not None:
                return r
        if oa is not None or ob is not None:
            if oa is not None and oa.cls.lookup('__eq__') is not None:
                r = self.call_method(a, '__eq__', [b])
                if not (isinstance(r, Sent) and r.name == 'NotImplemented'):
                    return r
            if ob is not None and ob.cls.lookup('__eq__') is not None:
                r = self.call_method(b, '__eq__', [a])
                if not (isinstance(r, Sent) and r.name == 'NotImplemented'):
                    return r
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if is_int(a) and is_int(b) or (is_bool(a) and is_bool(b)) or (
                (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b))):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return a == b
            if is_bool(a) and is_bool(b):
                return simp(Bv(a) == Bv(b))
            return simp(Iv(a) == Iv(b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if (is_str(a) or isinstance(a, str)) and (is_str(b) or isinstance(b, str)):
            return simp(z3s(a) == z3s(b))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return simp(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, z3.ExprRef) and x.sort() == V and y is None:
                return x == VNONE
        if isinstance(a, SliceVal) and isinstance(b, SliceVal):
            return And(self.eq(a.start, b.start), self.eq(a.stop, b.stop), self.eq(a.step, b.step))
        if a is None or b is None:
            return a is b
        sa, sb = self.as_plain_seq(a), self.as_plain_seq(b)
        if sa is not None and sb is not None:
            la, lb = isinstance(a, (Ref, Slot)) or sa.kind == 'list', isinstance(b, (Ref, Slot)) or sb.kind == 'list'
            if la != lb:
                return False
            return self.seq_eq(sa, sb)
        if self.is_set(a) and self.is_set(b):
            return self.set_eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.st.heap[a.id], self.st.heap[b.id]
            if a != b and (isinstance(ra, LogRec) and is_log(rb) or isinstance(rb, LogRec) and is_log(ra)):
                return self.log_eq(*[r.seq if isinstance(r, LogRec) else CSeq([], 'list') for r in (ra, rb)])
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                da, db = dict(ra.items), dict(rb.items)
                if set(da) != set(db):
                    return False
                return And(*[self.eq(da[k], db[k]) for k in da])
        if isinstance(a, Ref) and a == b:
            return True
        if isinstance(a, (Sent, Cls, TypeVal, Func, Module)) or isinstance(b, (Sent, Cls, TypeVal, Func, Module)):
            return a is b
        ta, tb = self.tykind(a), self.tykind(b)
        if ta != tb and 'val' not in (ta, tb):
            return False
        raise Unsupported(f'equality of {a!r} and {b!r}: {[type(self.st.heap[x.id]).__name__ if isinstance(x, Ref) else None for x in (a, b)]}')

    def tykind(self, v):
        if is_int(v) or is_bool(v):
            return 'int'
        if isinstance(v, str) or is_str(v):
            return 'str'
        if isinstance(v, z3.ExprRef) and v.sort() == V:
            return 'val'
        if v is None:
            return 'none'
        if self.as_plain_seq(v) is not None:
            return 'list' if isinstance(v, (Ref, Slot)) else 'tuple'
        return type(v).__name__

    def seq_eq(self, a, b):
        if same_val(a, b):
            return True
        na, nb = simp(a.n), simp(b.n)
        if isinstance(na, int) and isinstance(nb, int):
            if na != nb:
                return False
            return And(*[self.truth(self.eq(a.get(i), b.get(i))) for i in range(na)])
        lens = simp(Iv(na) == Iv(nb))
        if lens is False:
            return False
        if isinstance(na, int) and na == 0 or isinstance(nb, int) and nb == 0:
            return lens
        n = na if isinstance(na, int) else nb
        if isinstance(n, int):
            if not self.branch(lens):
                return False
            return And(*[self.truth(self.eq(a.get(i), b.get(i))) for i in range(n)])
        # unknown length: decide by a case split with a witness
        c = self.choose(2)
        if c == 0:
            self.assume(lens)
            if not self.spec_depth and self.entails_eq(a, b):
                return True
            kk = z3.Int('q!eq')
            x, y = a.get(kk), b.get(kk)
            body = self.eq_plain(x, y)
            every = z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < Iv(na)), Bv(body)))
            self.assume(every, True)
            self.assume(T.inst_quant([every], self.st.notes.get('witnesses', ())))
            return True
        w = self.fresh('w')
        self.assume(T.inst_quant(self.st.pc, [w]))
        self.st.notes['witnesses'] = tuple(self.st.notes.get('witnesses', ())) + (w,)
        x, y = a.get(w), b.get(w)
        self.assume(Or(Not(lens), And(0 <= w, w < Iv(na), Not(self.eq_plain(x, y)))), True)
        if not self.feasible(True):
            raise PathDead()
        return False

    def entails_eq(self, a, b):
        return False

    def log_eq(self, a, b):
        """equality of dictionaries with symbolic keys: every item of each has an equal one in the other"""
        known = self.st.notes.get('dicteq', ())
        for e in known:
            if same_val(e.a, a) and same_val(e.b, b):
                return e.result
        if self.itervars:
            raise Unsupported('comparison of dictionaries in a loop')
        key, val = [lambda s, k, j=j: s.get(k).items[j] for j in (0, 1)]
        for s in (a, b):
            if simp(s.n) == 0:
                continue
            p, q = self.fresh('p'), self.fresh('q')
            self.safety(Implies(And(0 <= p, p < q, q < Iv(s.n)), Not(self.eq_plain(key(s, p), key(s, q)))), 'the keys of a dictionary are distinct')
        e = LogEq()
        e.a, e.b = a, b

        def match(s, k, t, m):
            return And(0 <= m, m < Iv(t.n), self.eq_plain(key(s, k), key(t, m)), self.eq_plain(val(s, k), val(t, m)))
        c = self.choose(3)
        e.result = c == 0
        self.st.notes['dicteq'] = tuple(known) + (e,)
        if c == 0:
            for nm, s, t in (('fact_a', a, b), ('fact_b', b, a)):
                f = self.fresh_fn('match', Int, Int)
                if simp(s.n) == 0:
                    fact = lambda k: True
                elif simp(t.n) == 0:
                    fact = lambda k, s=s: Iv(s.n) <= 0
                    self.assume(fact(0))
                else:
                    fact = lambda k, s=s, t=t, f=f: Implies(And(0 <= Iv(k), Iv(k) < Iv(s.n)), match(s, Iv(k), t, f(Iv(k))))
                setattr(e, nm, fact)
            return True
        s, t = (a, b) if c == 1 else (b, a)
        w = e.witness = self.fresh('w')
        self.assume(And(0 <= w, w < Iv(s.n)))
        e.side, e.item = c - 1, s.get(w)
        e.fact = (lambda k: True) if simp(t.n) == 0 else lambda k: Not(match(s, w, t, Iv(k)))
        if not self.feasible(True):
            raise PathDead()
        return False

    def eq_plain(self, x, y):
        """equality of scalar values as one formula"""
        if isinstance(x, U) or isinstance(y, U):
            raise Unsupported('equality of conditional values inside a sequence')
        r = self.eq(x, y)
        return Bv(r) if isinstance(r, bool) else r

    def contains(self, c, x):
        c = self.rv(c)
        if isinstance(c, Abs) and hasattr(c, 'contains'):
            return c.contains(self, x)
        if isinstance(c, str) or is_str(c):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(z3s(c), z3s(x))
        if isinstance(c, Ref):
            rec = self.st.heap[c.id]
            if isinstance(rec, DictRec):
                return self.find_key(rec, x) is not None
            if isinstance(rec, SetRec):
                if rec.mem is not None:
                    return rec.mem(x)
                c = rec.seq
        s = self.seq_of(c)
        n = simp(s.n)
        if isinstance(n, int):
            r = False
            for i in range(n):
                r = Or(r, self.truth(self.eq(s.get(i), x)))
            return r
        return self.exists(s, lambda v: self.truth(self.eq(v, x)))

    def exists(self, s, test):
        """some item of s satisfies test? (case split with witness)"""
        if self.choose(2) == 0:
            w = self.fresh('ex')
            self.assume([0 <= w, w < Iv(s.n)], True)
            c = test(self.elem(s, w))
            self.assume(c, True)
            if not self.feasible(True):
                raise PathDead()
            return True
        kk = self.fresh('q')
        base = len(self.st.pc)
        # generic item
        self.itervars.append(z3.Int('k@q%d' % self.st.ctr))
        q = self.itervars[-1]
        try:
            st = self.st.copy()
            c = self.generic(lambda: test(self.elem(s, q)), [0 <= q, q < Iv(s.n)])
        finally:
            self.itervars.pop()
        self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < Iv(s.n)), z3.Not(Bv(c)))), True)
        if not self.feasible(True):
            raise PathDead()
        return False

    def generic(self, fn, conds):
        """value of fn() merged over all paths (no side effects)"""
        st = self.st
        self.st = st.copy()
        for c in conds:
            self.assume(c)
        n = len(self.st.dec)
        outs = self.explore(fn)
        ctr = self.st.ctr
        self.st = st
        self.st.ctr = max(ctr, st.ctr)
        r = None
        for o in reversed(outs):
            if o.kind != 'normal':
                raise Unsupported('exit from a generic item')
            g = And(*o.state.dec[n:])
            r = o.value if r is None else ite_val(g, o.value, r)
        if r is None:
            raise PathDead()
        return r

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, str):
            return v != ''
        if isinstance(v, z3.ExprRef):
            if v.sort() == Bool:
                return simp(v)
            if v.sort() == Int:
                return simp(v != 0)
            if is_str(v):
                return simp(v != z3.StringVal(''))
            raise Unsupported(f'truth value of an array element')
        s = self.as_plain_seq(v)
        if s is not None:
            n = simp(s.n)
            return n != 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, Abs) and hasattr(v, 'truth'):
            return v.truth(self)
        if isinstance(v, Ref):
            rec = self.st.heap[v.id]
            if isinstance(rec, DictRec):
                return len(rec.items) > 0
            if isinstance(rec, ObjRec):
                if rec.cls.lookup('__bool__') is not None:
                    return self.truth(self.call_method(v, '__bool__', []))
                if rec.cls.lookup('__len__') is not None:
                    return self.truth(self.call_method(v, '__len__', []))
                return True
            if isinstance(rec, SetRec) and rec.seq is not None:
                n = simp(rec.seq.n)
                return n != 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, (Func, Bound, Cls, Builtin, Sent, SliceVal, TypeVal)):
            return True
        raise Unsupported(f'truth value of {v!r}')

    def rv(self, v):
        """resolve a conditional value by case split"""
        while isinstance(v, U):
            for i, (c, x) in enumerate(v.alts):
                if i == len(v.alts) - 1:
                    if not isinstance(c, bool):
                        pass
                    v = x
                    break
                if self.branch(c if isinstance(c, bool) else c):
                    v = x
                    break
        return v

    def e_IfExp(self, e, fr):
        if self.branch(self.truth(self.eval(e.test, fr))):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        f = Func(e, fr.module, fr.scope, '<lambda>', None)
        self.setdefaults(f, e.args, fr)
        return f

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if isinstance(v.value, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript)) and \
                        v.conversion == -1 and (v.format_spec is None or ast.unparse(v.format_spec) in ("f'd'", 'f"d"', "f''", 'f"s"', "f's'")):
                    try:
                        x = self.rv(self.eval(v.value, fr))
                    except Unsupported:
                        return Opaque('message')
                    parts.append(self.to_str(x))
                else:
                    # formatted messages: the expression is evaluated, its text is not modelled
                    try:
                        self.eval(v.value, fr)
                    except Unsupported:
                        pass
                    return Opaque('message')
        r = ''
        for p in parts:
            if isinstance(p, Opaque):
                return p
            r = r + p if isinstance(r, str) and isinstance(p, str) else z3.Concat(z3s(r), z3s(p))
        return r

    def to_str(self, x):
        if isinstance(x, str) or is_str(x):
            return x
        if is_int(x):
            return str(x) if isinstance(x, int) else STR_OF_INT(x)
        return Opaque('text')

    def str_format(self, f, args):
        if not isinstance(f, str):
            return Opaque('formatted')
        if not isinstance(args, Seq):
            args = CSeq([args])
        out, i, k = '', 0, 0
        while i < len(f):
            if f[i] == '%':
                c = f[i + 1:i + 2]
                if c == '%':
                    p = '%'
                elif c in 'ds':
                    x = self.rv(args.get(k))
                    k += 1
                    p = self.to_str(x) if x is not None else 'None'
                    if isinstance(p, Opaque):
                        return p
                else:
                    return Opaque('formatted')
                i += 2
            else:
                p = f[i]
                i += 1
            out = out + p if isinstance(out, str) and isinstance(p, str) else z3.Concat(z3s(out), z3s(p))
        return out

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.getitem(o, i)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)  # noqa
            return SliceVal(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr)
        return rekind(self.st.heap[r.id].seq, 'gen')

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        return self.mkset(self.st.heap[r.id].seq)

    def e_DictComp(self, e, fr):
        d = self.alloc(DictRec(()))
        self.comp(e, fr, lambda fr2: self.setitem(d, self.eval(e.key, fr2), self.freeze(self.eval(e.value, fr2))))
        return d

    def comp(self, e, fr, put=None):
        """comprehension: a loop that appends to a hidden list"""
        out = self.new_list(CSeq([], 'list'))
        scope = Scope(self.newenv(), fr.scope)
        fr2 = Frame(fr.func, scope, fr.module, fr.gen)

        def level(i):
            if i == len(e.generators):
                if put is not None:
                    return put(fr2)
                v = self.freeze(self.eval(e.elt, fr2))
                self.list_append(out, v)
                return
            g = e.generators[i]
            seq = self.seq_of(self.eval(g.iter, fr2 if i else fr))

            def body():
                for c in g.ifs:
                    if not self.branch(self.truth(self.eval(c, fr2))):
                        return
                level(i + 1)
            self.loop_over((e, i), seq, lambda v: self.assign(g.target, v, fr2), body)
        level(0)
        return out

    def loop_over(self, node, seq, bind, body):
        n = simp(seq.n)
        if not isinstance(n, int):
            c = self.const_value(n) if not (isinstance(seq, SSeq) and seq.meta is not None) else None
            if c is not None:
                n = c
        if isinstance(n, int) and n <= 16:
            for j in range(n):
                bind(self.elem(seq, j))
                body()
            return
        self.sym_loop(node, self.nonneg(n), lambda k: bind(self.elem(seq, k)), body, None)

    def map_seq(self, fn, seq, node='map'):
        """sequence of fn(item)"""
        out = self.new_list(CSeq([], 'list'))
        cell = {}

        def bind(v):
            cell['v'] = v

        def body():
            self.list_append(out, self.freeze(fn(cell['v'])))
        self.loop_over((node, id(seq)), seq, bind, body)
        return self.st.heap[out.id].seq

    # -------------------------------------------------------------- sequences

    def obj(self, v):
        if isinstance(v, Ref):
            r = self.st.heap[v.id]
            if isinstance(r, ObjRec):
                return r
        return None

    def is_list(self, v):
        return isinstance(v, Slot) or (isinstance(v, Ref) and type(self.st.heap[v.id]) is ListRec)

    def is_set(self, v):
        return isinstance(v, Ref) and isinstance(self.st.heap[v.id], SetRec)

    def as_plain_seq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ref):
            r = self.st.heap[v.id]
            if type(r) is ListRec:
                return r.seq
        if isinstance(v, Slot):
            return self.slot_seq(v)
        return None

    def slot_seq(self, s):
        p = self.slot_seq(s.parent) if isinstance(s.parent, Slot) else self.st.heap[s.parent.id].seq
        return p.get(s.idx)

    def seq_of(self, v):
        v = self.rv(v)
        s = self.as_plain_seq(v)
        if s is not None:
            return s
        if isinstance(v, Abs) and hasattr(v, 'iter'):
            return v.iter(self)
        if isinstance(v, str):
            return CSeq(list(v))
        if isinstance(v, Ref):
            rec = self.st.heap[v.id]
            if isinstance(rec, DictRec):
                return CSeq([undkey(k) for k, _ in rec.items])
            if isinstance(rec, SetRec) and rec.seq is not None:
                return rec.seq
            if isinstance(rec, ObjRec):
                if rec.cls.lookup('__iter__') is not None:
                    return self.seq_of(self.call_method(v, '__iter__', []))
                if rec.cls.lookup('__getitem__') is not None:
                    n = self.num(self.call_method(v, '__len__', []))
                    raise Unsupported('iteration by __getitem__')
        raise PyExc('TypeError', f'{v!r} is not iterable', self.curline)

    def freeze(self, v):
        """value to be stored in a list: lists created here become owned items"""
        return v

    def concat(self, a, b):
        kind = a.kind if a.kind in ('tuple', 'list') else 'tuple'
        if isinstance(b, CSeq) and not b.items:
            return rekind(a, kind)
        if isinstance(a, CSeq) and not a.items:
            return rekind(b, kind)
        if isinstance(a, CSeq) and isinstance(b, CSeq):
            return CSeq(a.items + b.items, kind)
        pa = list(a.parts) if isinstance(a, CatSeq) else [a]
        pb = list(b.parts) if isinstance(b, CatSeq) else [b]
        if isinstance(pa[-1], CSeq) and isinstance(pb[0], CSeq):
            pa = pa[:-1] + [CSeq(pa[-1].items + pb[0].items)]
            pb = pb[1:]
        return CatSeq(pa + pb, kind)

    def repeat(self, s, n):
        n = simp(n)
        if isinstance(n, int) and isinstance(s, CSeq) and n * len(s.items) <= 64:
            return CSeq(s.items * max(n, 0), s.kind)
        if isinstance(s, CSeq) and len(s.items) == 1:
            v = s.items[0]
            return SSeq(imax(n, 0), lambda k, v=v: v, 0, s.kind)
        if isinstance(s, CSeq) and len(s.items) == 0:
            return s
        m = s.n
        if isinstance(m, int):
            return SSeq(simp(Iv(imax(n, 0)) * m), lambda k: s.get(pymod(k, m)), 0, s.kind)
        raise Unsupported('repetition')

    def elem(self, seq, k):
        """item for iteration (0 <= k < n known)"""
        return seq.get(k)

    def item(self, seq, i, name='index in range', parent=None):
        """seq[i] with bounds obligation"""
        i = simp(self.num(i))
        n = simp(seq.n)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise PyExc('IndexError', f'index {i} of {n}', self.curline)
            return seq.get(i if i >= 0 else i + n)
        if isinstance(i, int) and i < 0:
            self.safety(Iv(n) >= -i, name)
            return seq.get(simp(Iv(n) + i))
        if isinstance(i, int):
            self.safety(Iv(n) > i, name)
            return seq.get(i)
        self.safety(And(-Iv(n) <= i, i < Iv(n)), name)
        if self.known_nonneg(i):
            return seq.get(i)
        if self.branch(i >= 0):
            return seq.get(i)
        return seq.get(simp(i + Iv(n)))

    def known_nonneg(self, i):
        c = simp(i >= 0)
        if isinstance(c, bool):
            return c
        if self.st.atoms.get(c.get_id()):
            return True
        return self.entails_cheap(c)

    def subseq(self, seq, lo, hi):
        """seq[lo:hi] for 0 <= lo, lo <= hi <= n"""
        lo, hi = simp(lo), simp(hi)
        if isinstance(seq, CSeq) and isinstance(lo, int) and isinstance(hi, int):
            return CSeq(seq.items[lo:hi], seq.kind)
        n = simp(Iv(hi) - Iv(lo))
        if isinstance(n, int) and n <= 16:
            return CSeq([seq.get(simp(Iv(lo) + j)) for j in range(n)], seq.kind)
        if isinstance(seq, SSeq):
            return SSeq(n, seq.base, simp(Iv(seq.off) + Iv(lo)), seq.kind if seq.kind != 'range' else 'range', None)
        if isinstance(lo, int) and lo == 0:
            return SSeq(n, seq.get, 0, seq.kind)
        return SSeq(n, seq.get, lo, seq.kind)

    def slice_seq(self, seq, s):
        n = seq.n
        step = self.rv(s.step)
        start, stop = self.rv(s.start), self.rv(s.stop)
        step = 1 if step is None else simp(self.num(step))
        if isinstance(n, int) and all(isinstance(x, (int, type(None))) for x in (start, stop)) and isinstance(step, int):
            if isinstance(seq, CSeq):
                return CSeq(seq.items[slice(start, stop, step)], seq.kind)
        if not isinstance(step, int):
            raise Unsupported('slice with a symbolic step')
        if step == 1:
            lo = self.clamp(start, n, 0)
            hi = self.clamp(stop, n, n)
            if not (isinstance(lo, int) and lo == 0) and not self.entails_cheap(Iv(lo) <= Iv(hi)):
                if not self.branch(simp(Iv(lo) <= Iv(hi))):
                    return CSeq([], seq.kind)
            return self.subseq(seq, lo, hi)
        if step == -1 and start is None and stop is None:
            return SSeq(n, lambda k: seq.get(simp(Iv(n) - 1 - Iv(k))), 0, seq.kind)
        raise Unsupported('slice with a step')

    def entails_cheap(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.entails(c, timeout=150, rounds=0) or self.entails(c, timeout=1500, rounds=2)

    def clamp(self, v, n, default):
        """slice bound as a position in 0..n"""
        if v is None:
            return default
        v = simp(self.num(v))
        if isinstance(v, int) and isinstance(n, int):
            return max(0, min(n, v if v >= 0 else v + n))
        if isinstance(v, int) and v == 0:
            return 0
        c = And(0 <= Iv(v), Iv(v) <= Iv(n))
        if self.entails_cheap(c):
            return v
        if self.branch(simp(Iv(v) >= 0)):
            return v if self.branch(simp(Iv(v) <= Iv(n))) else n
        w = simp(Iv(v) + Iv(n))
        return w if self.branch(simp(Iv(w) >= 0)) else 0

    def getitem(self, o, i):
        o = self.rv(o)
        if isinstance(o, Abs):
            return o.getitem(self, i)
        s = self.as_plain_seq(o)
        if s is not None:
            i = self.rv(i)
            if isinstance(i, SliceVal):
                r = self.slice_seq(s, i)
                return self.new_list(r) if isinstance(o, (Ref, Slot)) else rekind(r, 'tuple')
            if i is None or isinstance(i, (Seq, str)):
                raise PyExc('TypeError', 'sequence index', self.curline)
            v = self.item(s, i)
            if isinstance(v, Seq) and v.kind == 'list':
                if isinstance(o, (Ref, Slot)):
                    i = simp(self.num(i))
                    if isinstance(i, int) and i < 0:
                        i = simp(Iv(s.n) + i)
                    return Slot(o, i)
            return v
        if isinstance(o, Ref):
            rec = self.st.heap[o.id]
            if isinstance(rec, DictRec):
                f = self.find_key(rec, i)
                if f is not None:
                    return f[0]
                raise PyExc('KeyError', str(i), self.curline)
            if isinstance(rec, OpaqueRec):
                return self.fresh('opq')
            if isinstance(rec, ObjRec):
                return self.call_method(o, '__getitem__', [i])
        if isinstance(o, str):
            i = simp(self.num(i))
            if isinstance(i, int):
                return o[i]
        raise PyExc('TypeError', f'{o!r} is not subscriptable', self.curline)

    def setitem(self, o, i, v):
        o = self.rv(o)
        i = self.rv(i)
        if isinstance(o, Abs):
            return o.setitem(self, i, v)
        if self.is_list(o):
            s = self.as_plain_seq(o)
            if isinstance(i, SliceVal):
                raise Unsupported('slice assignment')
            i = simp(self.num(i))
            n = simp(s.n)
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n:
                    raise PyExc('IndexError', 'assignment index', self.curline)
                i = i if i >= 0 else i + n
            else:
                self.safety(And(-Iv(n) <= Iv(i), Iv(i) < Iv(n)), 'assignment index in range')
                if isinstance(i, int):
                    i = i if i >= 0 else simp(Iv(n) + i)
                elif not self.known_nonneg(i):
                    if not self.branch(i >= 0):
                        i = simp(i + Iv(n))
            v = self.freeze(v)
            if isinstance(s, CSeq) and isinstance(i, int):
                items = list(s.items)
                items[i] = v
                new = CSeq(items, 'list')
            else:
                new = UpdSeq(s, i, v, 'list')
            self.set_list(o, new)
            return
        if isinstance(o, Ref):
            rec = self.st.heap[o.id]
            if isinstance(rec, OpaqueRec) or self.opaque_ok and isinstance(rec, DictRec) and not concrete_key(i):
                if not is_int(v) or isinstance(rec, DictRec) and not all(is_int(x) for _, x in rec.items):
                    raise Unsupported('dictionary with symbolic keys')
                self.assumptions.add(f'{self.opaque_ok}: the keys that are read are in the table [{self.curfunc}]')
                self.st.heap[o.id] = OPQ
                return
            if isinstance(rec, LogRec) or isinstance(rec, DictRec) and not rec.items and not concrete_key(i):
                seq = rec.seq if isinstance(rec, LogRec) else CSeq([])
                self.st.heap[o.id] = LogRec(self.concat(rekind(seq, 'list'), CSeq([CSeq([self.freeze(i), self.freeze(v)])], 'list')))
                return
            if isinstance(rec, DictRec):
                k = self.dkey(i)
                self.st.heap[o.id] = DictRec(dedupe(list(rec.items) + [(k, v)]))
                return
            if isinstance(rec, ObjRec):
                self.call_method(o, '__setitem__', [i, v])
                return
        raise PyExc('TypeError', f'{o!r} does not support item assignment', self.curline)

    def set_list(self, o, seq):
        if isinstance(o, Slot):
            p = self.slot_seq(o.parent) if isinstance(o.parent, Slot) else self.st.heap[o.parent.id].seq
            seq = rekind(seq, 'list')
            if isinstance(p, CSeq) and isinstance(o.idx, int):
                items = list(p.items)
                items[o.idx] = seq
                new = CSeq(items, 'list')
            else:
                new = UpdSeq(p, o.idx, seq, 'list')
            self.set_list(o.parent, new)
            return
        if type(self.st.heap[o.id]) is not ListRec:
            raise Unsupported('list with two owners')
        self.st.heap[o.id] = ListRec(seq)

    def list_append(self, o, v):
        s = self.as_plain_seq(o)
        self.set_list(o, self.concat(s, CSeq([self.own(v, o)])))

    def list_extend(self, o, seq):
        self.set_list(o, self.concat(self.as_plain_seq(o), seq))

    def own(self, v, o):
        """a list stored inside another list by the loop that created it becomes an owned item"""
        if isinstance(v, Ref) and type(self.st.heap.get(v.id)) is ListRec and self.owning():
            seq = self.st.heap[v.id].seq
            self.st.heap[v.id] = Moved()     # the list has one owner from here on
            return seq
        return v

    def owning(self):
        return bool(self.itervars)

    # -------------------------------------------------------------- sets

    def mkset(self, seq):
        return self.alloc(SetRec(seq))

    def set_op(self, op, a, b):
        ra, rb = self.st.heap[a.id], self.st.heap[self.rv(b).id]
        if isinstance(op, ast.BitOr) and ra.seq is not None and rb.seq is not None:
            return self.mkset(self.concat(ra.seq, rb.seq))
        raise Unsupported('set operation')

    def set_eq(self, a, b):
        ra, rb = self.st.heap[a.id], self.st.heap[b.id]
        h = self.ext_hooks.get('set_eq')
        if h is not None:
            r = h(self, ra, rb)
            if r is not None:
                return r
        na, nb = simp(ra.seq.n), simp(rb.seq.n)
        if isinstance(na, int) and isinstance(nb, int):
            r = True
            for x, y in ((ra.seq, rb.seq), (rb.seq, ra.seq)):
                for i in range(simp(x.n)):
                    r = And(r, Or(*[self.truth(self.eq(x.get(i), y.get(j))) for j in range(simp(y.n))]))
            return r
        raise Unsupported('equality of symbolic sets')

    def dict_rec(self, d):
        r = self.st.heap[d.id]
        if not isinstance(r, DictRec):
            raise Unsupported('dictionary expected')
        return r

    # -------------------------------------------------------------- attributes and calls

    def getattr_(self, o, name):
        o = self.rv(o)
        from .builtins_ import method_of
        if isinstance(o, Abs):
            return o.getattr(self, name)
        if isinstance(o, Module):
            return self.global_lookup(o, name)
        if isinstance(o, Sent) and o.name.startswith('module '):
            full = f'{o.name[7:]}.{name}'
            b = self.builtins.get('mod:' + full)
            if b is not None:
                return b
            return Sent('module ' + full)
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            v = o.lookup(name)
            if v is None:
                raise PyExc('AttributeError', f'{o.name}.{name}', self.curline)
            if isinstance(v, Func) and v.kind == 'classmethod':
                return Bound(o, v)
            return v
        if isinstance(o, SliceVal):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            m = method_of(self, o, name)
            if m is not None:
                return m
        if isinstance(o, Ref):
            rec = self.st.heap[o.id]
            if isinstance(rec, ObjRec):
                if name == '__class__':
                    return rec.cls
                v = rec.cls.lookup(name)
                if isinstance(v, Func) and v.kind == 'property':
                    return self.call_func(v, [o], {})
                if name in rec.attrs:
                    return rec.attrs[name]
                if v is None:
                    raise PyExc('AttributeError', f'{rec.cls.name}.{name}', self.curline)
                if isinstance(v, Func):
                    if v.kind == 'classmethod':
                        return Bound(rec.cls, v)
                    if v.kind == 'staticmethod':
                        return v
                    return Bound(o, v)
                return v
        m = method_of(self, o, name)
        if m is not None:
            return m
        raise PyExc('AttributeError', f'{o!r}.{name}', self.curline)

    def setattr_(self, o, name, v):
        rec = self.obj(o)
        if rec is None:
            if isinstance(o, Abs) and hasattr(o, 'setattr'):
                return o.setattr(self, name, v)
            raise Unsupported(f'attribute assignment on {o!r}')
        a = dict(rec.attrs)
        a[name] = v
        self.st.heap[o.id] = ObjRec(rec.cls, a)

    def call_method(self, o, name, args, kwargs=None):
        return self.call(self.getattr_(o, name), args, kwargs or {})

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        f = self.rv(f)
        if isinstance(f, Builtin) and f.name in ('print', 'warnings.warn'):
            for a in e.args:
                try:
                    self.eval(a.value if isinstance(a, ast.Starred) else a, fr)
                except Unsupported:
                    pass
            return None
        args, cur = [], []
        symbolic = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq_of(self.eval(a.value, fr))
                n = simp(s.n)
                if isinstance(n, int):
                    args.extend(s.get(i) for i in range(n))
                else:
                    c = self.const_value(n)
                    if c is not None:
                        args.extend(s.get(i) for i in range(c))
                    else:
                        if symbolic is not None:
                            raise Unsupported('several symbolic star arguments')
                        symbolic = (len(args), s)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for kw in e.keywords:
            v = self.eval(kw.value, fr)
            if kw.arg is None:
                d = self.rv(v)
                for k, x in self.dict_rec(d).items:
                    kwargs[k] = x
            else:
                kwargs[kw.arg] = v
        self.curline = e.lineno
        if symbolic is not None:
            i, s = symbolic
            seq = s
            if args[:i]:
                seq = self.concat(CSeq(args[:i]), seq)
            if args[i:]:
                seq = self.concat(seq, CSeq(args[i:]))
            if isinstance(f, Builtin) and getattr(f.fn, 'star', None):
                return f.fn.star(seq, kwargs)
            if isinstance(f, (Func, Bound)):
                fn = f.fn if isinstance(f, Bound) else f
                a = fn.node.args
                npos = len(a.args) - (1 if isinstance(f, Bound) else 0)
                if a.vararg is not None and npos == 0:
                    return self.call(f, [], kwargs, star=seq)
            raise Unsupported('call with a symbolic number of arguments')
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None, star=None):
        kwargs = kwargs or {}
        f = self.rv(f)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs, star)
            return f.fn(*args, **kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs, star)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, TypeVal):
            if f.fn is None:
                raise Unsupported(f'call of {f.name}')
            return f.fn(*args, **kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Abs) and hasattr(f, 'call'):
            return f.call(self, args, kwargs)
        if isinstance(f, Sent) and f.name.startswith('module '):
            raise Unsupported(f'call of external function {f.name[7:]}')
        raise PyExc('TypeError', f'{f!r} is not callable', self.curline)

    def instantiate(self, c, args, kwargs):
        h = self.contracts.get(f'{c.module.name}.{c.name}')
        if h is not None and h.applies(self, args, kwargs):
            self.used_contracts.add(h.target)
            return h.apply(self, args, kwargs)
        o = self.alloc(ObjRec(c, {}))
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + args, kwargs)
        return o

    def bind_args(self, f, args, kwargs, star=None):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', f'{f.name}: too many arguments', self.curline)
            env[a.vararg.arg] = CSeq(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = rekind(star, 'tuple') if star is not None else CSeq([])
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyExc('TypeError', f'{f.name}: duplicate argument {k}', self.curline)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', f'{f.name}: unexpected argument {k}', self.curline)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(DictRec(tuple(extra.items())))
        d = f.defaults
        if f.env is None and a.defaults and not d:
            # module level function: defaults are constants
            fr = Frame(None, Scope(self.newenv(), None), f.module)
            d = tuple(self.eval(x, fr) for x in a.defaults)
        if f.env is None and a.kwonlyargs:
            fr = Frame(None, Scope(self.newenv(), None), f.module)
            for x, dv in zip(a.kwonlyargs, a.kw_defaults):
                if dv is not None and x.arg not in env:
                    env[x.arg] = self.eval(dv, fr)
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in env:
                env[n] = v
        for k, v in f.kwdefaults.items():
            env.setdefault(k, v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise PyExc('TypeError', f'{f.name}: missing argument {n}', self.curline)
        return env

    def call_func(self, f, args, kwargs, star=None):
        q = f.qualname
        c = self.contracts.get(q) if f.env is None else None
        if c is not None and star is None:
            env = self.bind_args(f, args, kwargs)
            vals = [self.rv(env[x.arg]) for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
            if c.applies(self, vals, {}):
                self.used_contracts.add(c.target)
                line = self.curline
                r = c.apply(self, vals, {})
                self.curline = line
                return r
        if f.kind == 'decorated':
            raise Unsupported(f'decorated function {q}')
        return self.run_body(f, args, kwargs, star)

    def run_body(self, f, args, kwargs, star=None):
        self.calldepth += 1
        if self.calldepth > 40:
            self.calldepth -= 1
            raise Unsupported(f'recursion of {f.qualname} without a contract')
        if f.env is None:
            self.inlined.add(f.qualname)
        env = self.bind_args(f, args, kwargs, star)
        scope = Scope(self.newenv(), f.env)
        self.st.envs[scope.eid].update(env)
        fr = Frame(f, scope, f.module)
        line, func = self.curline, self.curfunc
        self.curfunc = f.qualname
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if has_yield(f.node):
                fr.gen = self.new_list(CSeq([], 'list'))
                try:
                    self.exec_block(f.node.body, fr)
                except ReturnSig:
                    pass
                return rekind(self.st.heap[fr.gen.id].seq, 'gen')
            try:
                self.exec_block(f.node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.calldepth -= 1
            self.curline, self.curfunc = line, func

    # -------------------------------------------------------------- symbolic loops
    from .loops import sym_loop, _summarize, _extract  # noqa
    from .seqops import fold, minmax, isinst, box, box_sym, set_union, set_union_star, as_facts  # noqa


def concrete_key(i):
    if isinstance(i, CSeq):
        return all(concrete_key(x) for x in i.items)
    return not isinstance(conc(i), z3.ExprRef)


class Moved:
    pass


class LogEq:
    """the outcome of a comparison of dictionaries with symbolic keys"""


def is_log(rec):
    return isinstance(rec, LogRec) or isinstance(rec, DictRec) and not rec.items


class Q:
    """Universally quantified statement over integers."""

    def __init__(self, names, fn, patterns=None, hints=None):
        self.names, self.fn, self.patterns, self.hints = names, fn, patterns, hints

    def z3(self):
        vs = [z3.Int(f'{n}!q') for n in self.names]
        body = self.fn(*vs)
        if isinstance(body, bool):
            return z3.BoolVal(body)
        if self.patterns:
            return z3.ForAll(vs, body, patterns=self.patterns(*vs))
        return z3.ForAll(vs, body)


def dedupe(items):
    out = {}
    for k, v in items:
        out[k] = v
    return tuple(out.items())


def undkey(k):
    if isinstance(k, tuple):
        return CSeq([undkey(x) for x in k[1:]])
    return k


def is_str(v):
    return isinstance(v, z3.SeqRef) and v.sort() == z3.StringSort()


def z3s(v):
    return z3.StringVal(v) if isinstance(v, str) else v


STR_OF_INT = z3.Function('str_of_int', Int, z3.StringSort())


def _load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
    for n in ast.walk(t2):
        if not hasattr(n, 'lineno'):
            n.lineno = t.lineno
    return t2


_HY = {}


def has_yield(node):
    if id(node) in _HY:
        return _HY[id(node)]

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)) or walk(c):
                return True
        return False
    _HY[id(node)] = r = walk(node)
    return r
