"""Builtin functions, methods and the parts of the standard library that the code uses.

Each entry is the assumed contract of that builtin (listed in the evidence as trusted).
"""
import z3
from .terms import *  # noqa
from .terms import Int, Bool
from .values import *  # noqa
from . import terms as T


def range_seq(start, n, step):
    def base(k):
        if isinstance(step, int) and step == 1:
            return simp(Iv(start) + Iv(k)) if not (isinstance(start, int) and start == 0) else k
        return simp(Iv(start) + Iv(k) * Iv(step))
    if isinstance(n, int) and isinstance(start, int) and isinstance(step, int) and n <= 16:
        return CSeq([start + k * step for k in range(n)], 'range')
    return SSeq(n, base, 0, 'range')


class BoxMeta:
    """Marks the sequence of all indices of a box (itertools.product of ranges)."""

    def __init__(self, dims):
        self.dims = dims      # Seq of lengths


def make_builtins(E):
    b = {}

    def bi(name, fn, star=None):
        if star is not None:
            fn.star = star
        b[name] = Builtin(name, fn)

    def ty(name, fn):
        b[name] = TypeVal(name, fn)

    def f_len(x):
        x = E.rv(x)
        if isinstance(x, Abs):
            return x.len(E)
        s = E.as_plain_seq(x)
        if s is not None:
            return simp(s.n)
        if isinstance(x, str):
            return len(x)
        if isinstance(x, Ref):
            rec = E.st.heap[x.id]
            tn = type(rec).__name__
            if tn == 'DictRec':
                return len(rec.items)
            if tn == 'ObjRec':
                return E.call_method(x, '__len__', [])
            if tn == 'SetRec' and rec.seq is not None and isinstance(rec.seq.n, int) and rec.seq.n <= 1:
                return rec.seq.n
        from .engine import PyExc
        if is_int(x) or x is None or isinstance(x, SliceVal):
            raise PyExc('TypeError', 'len()', E.curline)
        raise Unsupported(f'len of {x!r}')
    bi('len', f_len)

    def f_range(*a):
        a = [simp(E.num(x)) for x in a]
        if len(a) == 1:
            start, stop, step = 0, a[0], 1
        elif len(a) == 2:
            start, stop, step = a[0], a[1], 1
        else:
            start, stop, step = a
        if not isinstance(step, int) or step == 0:
            raise Unsupported('range with a symbolic step')
        if step == 1:
            d = simp(Iv(stop) - Iv(start))
        elif step > 0:
            d = simp(pydiv(Iv(stop) - Iv(start) + step - 1, step))
        else:
            d = simp(pydiv(Iv(start) - Iv(stop) - step - 1, -step))
        n = simp(imax(d, 0))
        if not isinstance(n, int):
            if E.entails(Iv(d) >= 0, timeout=1500, rounds=2):
                n = d
        return range_seq(start, n, step)
    bi('range', f_range)

    def f_zip(*seqs):
        ss = [E.seq_of(x) for x in seqs]
        if not ss:
            return CSeq([], 'gen')
        ns = [simp(s.n) for s in ss]
        if all(isinstance(n, int) for n in ns):
            m = min(ns)
            return CSeq([CSeq([s.get(i) for s in ss]) for i in range(m)], 'gen')
        n = ns[0]
        for m in ns[1:]:
            if same_val(m, n):
                continue
            if E.entails(Iv(m) == Iv(n), timeout=1500, rounds=2):
                if isinstance(m, int):
                    n = m
                continue
            n = simp(imin(n, m))
        return SSeq(n, lambda k: CSeq([s.get(k) for s in ss]), 0, 'gen')

    def zip_star(seq, kw):
        # transpose of a sequence of sequences of equal length
        h = E.ext_hooks.get('transpose')
        if h is not None:
            r = h(E, seq)
            if r is not None:
                return r
        n = simp(seq.n)
        if not E.entails(Iv(n) >= 1, timeout=1500, rounds=2):
            raise Unsupported('zip of a symbolic number of sequences')
        row = lambda i: E.as_plain_seq(E.rv(seq.get(i)))
        m = simp(row(0).n)
        i = E.fresh('row')
        if not E.entails(z3.Implies(z3.And(0 <= i, i < Iv(n)), Iv(row(i).n) == Iv(m)), timeout=2000, rounds=2):
            raise Unsupported('zip of a symbolic number of sequences of different lengths')
        return SSeq(m, lambda j: SSeq(n, lambda i: row(i).get(j), 0, 'tuple'), 0, 'gen')
    bi('zip', f_zip, zip_star)

    def f_enumerate(x, start=0):
        s = E.seq_of(x)
        if isinstance(s.n, int):
            return CSeq([CSeq([simp(Iv(start) + i), s.get(i)]) for i in range(s.n)], 'gen')
        return SSeq(s.n, lambda k: CSeq([simp(Iv(start) + Iv(k)), s.get(k)]), 0, 'gen')
    bi('enumerate', f_enumerate)

    def f_map(f, *seqs):
        if len(seqs) == 1:
            r = E.map_seq(lambda v: E.call(f, [v]), E.seq_of(seqs[0]))
        else:
            z = f_zip(*seqs)
            r = E.map_seq(lambda v: E.call(f, list(v.items)), z)
        return rekind(r, 'gen')
    bi('map', f_map)

    def f_filter(f, x):
        out = E.new_list(CSeq([], 'list'))
        cell = {}

        def body():
            v = cell['v']
            c = E.truth(v) if f is None else E.truth(E.call(f, [v]))
            if E.branch(c):
                E.list_append(out, v)
        E.loop_over('filter', E.seq_of(x), lambda v: cell.__setitem__('v', v), body)
        return rekind(E.st.heap[out.id].seq, 'gen')
    bi('filter', f_filter)

    def f_sum(x, start=0):
        s = E.seq_of(x)
        start = E.rv(start)
        ss = E.as_plain_seq(start)
        if ss is not None:
            h = E.ext_hooks.get('sum_lists')
            n = simp(s.n)
            if isinstance(n, int):
                r = ss
                for i in range(n):
                    r = E.concat(r, E.as_plain_seq(E.rv(s.get(i))))
                return E.new_list(r) if isinstance(start, (Ref, Slot)) else r
            from .loops import flat_seq
            r = flat_seq(E, n, lambda k: E.as_plain_seq(s.get(k)))
            r = E.concat(ss, r)
            return E.new_list(r) if isinstance(start, (Ref, Slot)) else r
        r = E.fold('sum', s)
        return simp(E.num(start) + r)
    bi('sum', f_sum)

    def f_prod(x, start=1):
        return simp(E.num(start) * E.fold('prod', E.seq_of(x)))
    bi('mod:math.prod', f_prod)

    def f_reduce(f, x, *init):
        raise Unsupported('functools.reduce')
    bi('mod:functools.reduce', f_reduce)

    def f_minmax(which):
        def fn(*a, key=None, default=None):
            if key is not None:
                raise Unsupported('key argument')
            if len(a) == 1:
                s = E.seq_of(a[0])
                if not isinstance(simp(s.n), int):
                    return E.minmax(which, s)
                a = [s.get(i) for i in range(simp(s.n))]
                if not a:
                    from .engine import PyExc
                    raise PyExc('ValueError', f'{which} of an empty sequence', E.curline)
            r = E.num(a[0])
            for x in a[1:]:
                r = imin(r, E.num(x)) if which == 'min' else imax(r, E.num(x))
            return simp(r)
        return fn
    bi('min', f_minmax('min'))
    bi('max', f_minmax('max'))

    def f_abs(x):
        x = simp(E.num(x))
        return abs(x) if isinstance(x, int) else (x if E.branch(x >= 0) else simp(-x))
    bi('abs', f_abs)

    def f_divmod(a, c):
        import ast
        q = E.binop(ast.FloorDiv(), a, c)
        return CSeq([q, E.binop(ast.Mod(), a, c)])
    bi('divmod', f_divmod)

    def f_all(x):
        s = E.seq_of(x)
        n = simp(s.n)
        if isinstance(n, int):
            for i in range(n):
                if not E.branch(E.truth(s.get(i))):
                    return False
            return True
        return Not(E.exists(s, lambda v: Not(E.truth(v))))
    bi('all', f_all)

    def f_any(x):
        s = E.seq_of(x)
        n = simp(s.n)
        if isinstance(n, int):
            for i in range(n):
                if E.branch(E.truth(s.get(i))):
                    return True
            return False
        return E.exists(s, lambda v: E.truth(v))
    bi('any', f_any)

    def f_reversed(x):
        s = E.seq_of(x)
        n = simp(s.n)
        if isinstance(s, CSeq):
            return CSeq(s.items[::-1], 'gen')
        return SSeq(n, lambda k: s.get(simp(Iv(n) - 1 - Iv(k))), 0, 'gen')
    bi('reversed', f_reversed)

    def f_sorted(x, key=None, reverse=False):
        if key is not None or reverse is not False:
            raise Unsupported('sorted with options')
        s = E.seq_of(x)
        n = simp(s.n)
        if isinstance(n, int) and n <= 1:
            return E.new_list(s)
        h = E.ext_hooks.get('sorted')
        if h is not None:
            r = h(E, s)
            if r is not None:
                return E.new_list(r)
        raise Unsupported('sorted')
    bi('sorted', f_sorted)

    def f_iter(x):
        return rekind(E.seq_of(x), 'gen')
    bi('iter', f_iter)

    def f_print(*a, **k):
        return None
    bi('print', f_print)
    bi('repr', lambda x: Opaque('repr'))
    bi('mod:warnings.warn', lambda *a, **k: None)
    bi('id', lambda x: Opaque('id'))

    def f_getattr(o, name, *d):
        from .engine import PyExc
        try:
            return E.getattr_(o, name)
        except PyExc as e:
            if e.etype == 'AttributeError' and d:
                return d[0]
            raise
    bi('getattr', f_getattr)

    def f_hasattr(o, name):
        from .engine import PyExc
        try:
            E.getattr_(o, name)
            return True
        except PyExc as e:
            if e.etype == 'AttributeError':
                return False
            raise
    bi('hasattr', f_hasattr)
    bi('setattr', lambda o, n, v: E.setattr_(o, n, v))
    bi('callable', lambda x: isinstance(x, (Func, Bound, Cls, Builtin, TypeVal)))

    def f_isinstance(x, t):
        x = E.rv(x)
        t = E.rv(t)
        if isinstance(t, CSeq):
            r = False
            for y in t.items:
                r = Or(r, f_isinstance(x, y))
            return r
        return E.isinst(x, t)
    bi('isinstance', f_isinstance)

    def f_issubclass(a, c):
        if isinstance(a, Cls) and isinstance(c, Cls):
            return a.issub(c)
        return a is c
    bi('issubclass', f_issubclass)

    # types
    ty('int', lambda x=0: E.num(x))
    ty('bool', lambda x=False: E.truth(x))
    ty('str', lambda x='': E.to_str(E.rv(x)))
    ty('float', None)
    ty('object', lambda: Sent(f'object@{E.curline}'))
    ty('slice', lambda *a: SliceVal(None, a[0], None) if len(a) == 1 else SliceVal(a[0], a[1], a[2] if len(a) > 2 else None))
    ty('tuple', lambda x=CSeq([]): rekind(E.seq_of(x), 'tuple'))

    def f_list(x=CSeq([])):
        return E.new_list(E.seq_of(x))
    ty('list', f_list)
    ty('set', lambda x=CSeq([]): E.mkset(E.seq_of(x)))
    ty('frozenset', lambda x=CSeq([]): E.mkset(E.seq_of(x)))

    def f_dict(x=None, **kw):
        from .engine import DictRec, dedupe
        items = []
        if x is not None:
            x = E.rv(x)
            if isinstance(x, Ref):
                items += list(E.dict_rec(x).items)
            else:
                s = E.seq_of(x)
                n = simp(s.n)
                if not isinstance(n, int) or any(not _concrete_key(E.seq_of(s.get(i)).get(0)) for i in range(n)):
                    d = E.alloc(DictRec(()))
                    E.map_seq(lambda p: E.setitem(d, E.seq_of(p).get(0), E.seq_of(p).get(1)), s, 'dict')
                    return d
                for i in range(n):
                    p = E.seq_of(s.get(i))
                    items.append((E.dkey(p.get(0)), p.get(1)))
        items += list(kw.items())
        return E.alloc(DictRec(dedupe(items)))
    ty('dict', f_dict)

    def f_type(x):
        x = E.rv(x)
        r = E.obj(x)
        if r is not None:
            return r.cls
        if isinstance(x, Abs) and x.pytype is not None:
            return x.pytype
        for nm in ('bool', 'int', 'str', 'slice', 'tuple', 'list', 'dict', 'set'):
            if f_isinstance(x, b[nm]) is True:
                return b[nm]
        return Opaque('type')
    bi('type', f_type)

    b['NotImplemented'] = Sent('NotImplemented')
    b['Ellipsis'] = Sent('Ellipsis')
    b['__name__'] = 'module'
    for e in ('Exception', 'ValueError', 'IndexError', 'TypeError', 'KeyError', 'AssertionError', 'NotImplementedError',
              'ZeroDivisionError', 'AttributeError', 'StopIteration', 'RuntimeError', 'LookupError'):
        b[e] = TypeVal(e, lambda *a: Opaque('exception'))

    # itertools
    def f_product(*seqs, repeat=1):
        return E.box([E.seq_of(s) for s in seqs] * repeat)

    def product_star(seq, kw):
        if kw:
            raise Unsupported('itertools.product with repeat')
        return E.box_sym(seq)
    bi('mod:itertools.product', f_product, product_star)

    def f_chain(*seqs):
        r = CSeq([], 'gen')
        for s in seqs:
            r = E.concat(r, E.seq_of(s))
        return rekind(r, 'gen')
    bi('mod:itertools.chain', f_chain)

    b['mod:sys.version_info'] = CSeq([3, 12, 0, 'final', 0])
    b['mod:math.inf'] = Opaque('inf')

    def f_gcd(*a):
        raise Unsupported('math.gcd')
    bi('mod:math.gcd', f_gcd)
    import ast as _ast

    def op2(op):
        return lambda x, y: E.binop(op, x, y)
    bi('mod:operator.mul', op2(_ast.Mult()))
    bi('mod:operator.add', op2(_ast.Add()))
    bi('mod:operator.sub', op2(_ast.Sub()))
    bi('mod:operator.floordiv', op2(_ast.FloorDiv()))
    bi('mod:operator.mod', op2(_ast.Mod()))
    return b


def method_of(E, o, name):
    """bound builtin method, or None"""
    def B(fn):
        return Builtin(name, fn)
    if isinstance(o, TypeVal):
        if o.name == 'set' and name == 'union':
            fn = lambda *a: E.set_union(list(a))  # noqa
            fn2 = lambda *a: fn(*a)  # noqa
            fn2.star = lambda seq, kw: E.set_union_star(seq)
            return Builtin('set.union', fn2)
        if name == '__name__':
            return o.name
        if o.name == 'dict' and name == 'fromkeys':
            return None
    if isinstance(o, Func) and name == '__name__':
        return o.name
    if E.is_list(o):
        if name == 'append':
            return B(lambda v: E.list_append(o, E.freeze(v)))
        if name == 'extend':
            return B(lambda v: E.list_extend(o, E.seq_of(v)))
        if name == 'copy':
            return B(lambda: E.new_list(E.as_plain_seq(o)))
        if name == 'insert':
            def ins(i, v):
                i = simp(i)
                s = E.as_plain_seq(o)
                if isinstance(i, int) and i == 0:
                    E.set_list(o, E.concat(CSeq([v]), s))
                elif isinstance(s, CSeq) and isinstance(i, int):
                    items = list(s.items)
                    items.insert(i, v)
                    E.set_list(o, CSeq(items))
                else:
                    raise Unsupported('list.insert')
            return B(ins)
        if name == 'pop':
            def pop(i=-1):
                s = E.as_plain_seq(o)
                if isinstance(s, CSeq) and isinstance(i, int) and s.items:
                    items = list(s.items)
                    v = items.pop(i)
                    E.set_list(o, CSeq(items))
                    return v
                raise Unsupported('list.pop')
            return B(pop)
        if name == 'reverse':
            def rev():
                s = E.as_plain_seq(o)
                if isinstance(s, CSeq):
                    E.set_list(o, CSeq(s.items[::-1]))
                else:
                    raise Unsupported('list.reverse')
            return B(rev)
        if name == 'sort':
            def sort():
                r = E.builtins['sorted'].fn(o)
                E.set_list(o, E.as_plain_seq(r))
            return B(sort)
    if isinstance(o, (Seq, Ref, Slot)):
        s = E.as_plain_seq(o)
        if s is not None:
            if name == '__getitem__':
                return B(lambda i: E.getitem(o, i))
            if name == '__len__':
                return B(lambda: simp(s.n))
            if name == 'index':
                def index(x):
                    if not isinstance(simp(s.n), int):
                        raise Unsupported('sequence.index')
                    for i in range(simp(s.n)):
                        if E.branch(E.truth(E.eq(s.get(i), x))):
                            return i
                    from .engine import PyExc
                    raise PyExc('ValueError', 'not in the sequence', E.curline)
                return B(index)
            if name == 'count':
                def count(x):
                    if not isinstance(simp(s.n), int):
                        raise Unsupported('sequence.count')
                    r = 0
                    for i in range(simp(s.n)):
                        c = E.truth(E.eq(s.get(i), x))
                        r = r + (int(c) if isinstance(c, bool) else z3.If(c, 1, 0))
                    return simp(r)
                return B(count)
    if isinstance(o, Ref):
        rec = E.st.heap[o.id]
        tn = type(rec).__name__
        if tn == 'DictRec':
            from .engine import DictRec, dedupe, undkey
            if name == 'get':
                def get(k, d=None):
                    f = E.find_key(rec, k)
                    return d if f is None else f[0]
                return B(get)
            if name == 'items':
                return B(lambda: CSeq([CSeq([undkey(k), v]) for k, v in rec.items], 'gen'))
            if name == 'keys':
                return B(lambda: CSeq([undkey(k) for k, v in rec.items], 'gen'))
            if name == 'values':
                return B(lambda: CSeq([v for k, v in rec.items], 'gen'))
            if name == 'copy':
                return B(lambda: E.alloc(DictRec(rec.items)))
            if name == 'update':
                def upd(x=None, **kw):
                    items = list(rec.items)
                    if x is not None:
                        items += list(E.dict_rec(E.rv(x)).items)
                    E.st.heap[o.id] = DictRec(dedupe(items + list(kw.items())))
                return B(upd)
        if tn == 'SetRec':
            if name == 'add':
                def add(v):
                    from .engine import SetRec
                    E.st.heap[o.id] = SetRec(E.concat(rec.seq, CSeq([v])))
                return B(add)
    if isinstance(o, str) or (isinstance(o, z3.SeqRef)):
        if isinstance(o, str):
            if name == 'format':
                return B(lambda *a, **k: brace_format(E, o, a, k))
            if name == 'join':
                def join(x):
                    s = E.seq_of(x)
                    if not isinstance(simp(s.n), int):
                        return Opaque('joined')
                    r = ''
                    for i in range(simp(s.n)):
                        p = E.rv(s.get(i))
                        if isinstance(p, Opaque):
                            return p
                        if i:
                            r = E.binop(_add(), r, o)
                        r = E.binop(_add(), r, p)
                    return r
                return B(join)
            if name in ('lower', 'upper', 'strip', 'replace', 'count', 'split', 'rstrip', 'lstrip', 'isdigit'):
                def conc_str(*a):
                    if not all(isinstance(x, (str, int)) for x in a):
                        raise Unsupported(f'str.{name} of symbolic text')
                    r = getattr(o, name)(*a)
                    return E.new_list(CSeq(r)) if isinstance(r, list) else r
                return B(conc_str)
        if name in ('startswith', 'endswith'):
            def affix(x):
                x = E.rv(x)
                if isinstance(x, CSeq):
                    return Or(*[affix(y) for y in x.items])
                if isinstance(o, str) and isinstance(x, str):
                    return getattr(o, name)(x)
                return (z3.PrefixOf if name == 'startswith' else z3.SuffixOf)(_z3s(x), _z3s(o))
            return B(affix)
    if isinstance(o, SliceVal) and name == 'indices':
        def indices(n):
            from .contracts.slices import py_bounds
            step = 1 if E.rv(o.step) is None else E.num(E.rv(o.step))
            E.safety(Iv(step) != 0, 'the step of a slice is not zero')
            E.safety(Iv(E.num(n)) >= 0, 'the length given to slice.indices is not negative')
            b, e, st = py_bounds(E.rv(o.start), E.rv(o.stop), step, E.num(n))
            return CSeq([b, e, st])
        return B(indices)
    return None


def _concrete_key(k):
    from .engine import concrete_key
    return isinstance(k, (str, int, CSeq)) and concrete_key(k)


def _z3s(v):
    return z3.StringVal(v) if isinstance(v, str) else v


def brace_format(E, f, args, kw):
    import string
    out, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        ps = [lit]
        if field is not None:
            if spec not in ('', 'd', 's') or conv not in (None, 's'):
                return Opaque('formatted')
            if field == '':
                field, auto = str(auto), auto + 1
            if field.isdigit() and int(field) < len(args):
                x = E.rv(args[int(field)])
            elif field in kw:
                x = E.rv(kw[field])
            else:
                return Opaque('formatted')
            ps.append('None' if x is None else E.to_str(x))
        for p in ps:
            if isinstance(p, Opaque):
                return p
            out = out + p if isinstance(out, str) and isinstance(p, str) else z3.Concat(_z3s(out), _z3s(p))
    return out


def _add():
    import ast
    return ast.Add()
