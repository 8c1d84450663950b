"""Contracts for buffers and their windows (C16): any size, offset and contents."""
from .base import *  # noqa
from ..engine import Module
from ..values import ObjRec, ListRec, Ref, Cls, Sent, Bound, Builtin

STORE = 'gcs.storage.'


def cls(E, name):
    return E.func(STORE + name)


def obj(E, name, **attrs):
    return E.alloc(ObjRec(cls(E, name), attrs))


def attr(E, o, name):
    return E.rv(E.getattr_(o, name))


def method(E, o, name, *args, **kw):
    return E.call_method(o, name, list(args), kw)


def items_of(E, o):
    """the list behind a list reference"""
    return E.as_plain_seq(o)


class Buf:
    """An arbitrary valid buffer: a window of `size` items that starts at `offset` of a list of n values."""

    def __init__(self, E, name='', sort=V, offset=None, n=None, size=None):
        self.n = E.fresh(name + 'n') if n is None else n
        self.size = E.fresh(name + 'size') if size is None else size
        self.offset = E.fresh(name + 'offset') if offset is None else offset
        self.f = E.fresh_fn(name + 'item', Int, sort)
        self.u = E.fresh(name + 'u', V)
        E.assume([Iv(self.size) >= 0, Iv(self.offset) >= 0, Iv(self.offset) + Iv(self.size) <= Iv(self.n)])
        self.data = E.new_list(fn_seq(self.n, lambda k: self.f(Iv(k)), 'list'))
        self.ref = obj(E, 'Buffer', shape=CSeq([self.size]), size=self.size, offset=self.offset, data=self.data,
                       _unspecified=self.u)

    def entry(self, i):
        return self.f(Iv(i))


def kinds(E):
    out = []
    for a in (False, True):
        for b in (False, True):
            for c in (False, True):
                out.append(('[' + ('start' if a else '') + ':' + ('stop' if b else '') + (':step' if c else '') + ']', (a, b, c)))
    return out


@contract('C16')
class BufferWindow(Contract):
    """slicing a buffer: refused, or a window of the same data"""
    target = STORE + 'Buffer.__getitem__'

    def cases(self, E):
        return [(l, lambda k=k: self.build(E, k)) for l, k in kinds(E)]

    def build(self, E, k):
        self.B = B = Buf(E)
        self.a, self.b, self.c = (E.fresh(x) if y else None for x, y in zip(('start', 'stop', 'step'), k))
        if self.c is not None:
            E.assume(self.c != 0)
        self.start = B.offset if self.a is None else B.offset + self.a
        self.stop = B.offset + B.size if self.b is None else B.offset + self.b
        return [B.ref, SliceVal(self.a, self.b, self.c)]

    def outside(self):
        n = self.B.n
        return z3.Or(self.start < 0, self.start >= n, self.stop <= 0, self.stop > n)

    def exc(self, E, args, e):
        if e.etype != 'IndexError':
            return False
        return z3.Or(self.outside(), self.c != 1) if self.c is not None else self.outside()

    def post(self, E, args, r):
        B = self.B
        yield 'start and stop are inside the data', Not(self.outside())
        yield 'a buffer', E.obj(r) is not None and E.obj(r).cls is cls(E, 'Buffer')
        n = simp(z3.If(self.stop > self.start, self.stop - self.start, 0))
        if self.c is not None:
            # with a step other than 1 only windows without or with a single selected item are given
            yield 'the step is 1 when two items would be selected', z3.Or(
                self.c == 1, n == 0, self.c < 0, z3.And(self.c > 1, n <= self.c))
            if E.branch(self.c != 1):
                return
        size, off, data = attr(E, r, 'size'), attr(E, r, 'offset'), attr(E, r, 'data')
        yield 'the data is shared', isinstance(data, Ref) and data == B.data
        yield 'size', Iv(size) == n
        yield 'starts at the start', z3.Implies(n > 0, Iv(off) == self.start)
        yield 'inside the data', z3.And(Iv(off) >= 0, Iv(off) + Iv(size) <= B.n)
        sh = E.seq_of(attr(E, r, 'shape'))
        yield 'shape', z3.And(z3.BoolVal(simp(sh.n) == 1), Iv(E.num(sh.get(0))) == n)
        yield 'the unspecified value is kept', E.truth(E.eq(attr(E, r, 'unspecified'), B.u))
        yield 'length', Iv(E.num(E.builtins['len'].fn(r))) == n
        yield 'the original is unchanged', z3.And(
            Iv(attr(E, B.ref, 'size')) == B.size, Iv(attr(E, B.ref, 'offset')) == B.offset)


def pos_cases(E):
    return ['position', '1-tuple']


@contract('C16')
class BufferGet(Contract):
    """item i is the value at offset + i of the shared data (Python position, counted from the end when negative)"""
    target = STORE + 'Buffer.__getitem__'

    def cases(self, E):
        return [(l, lambda l=l: self.build(E, l)) for l in ('position', '1-tuple', 'None')]

    def build(self, E, kind):
        self.B = B = Buf(E)
        self.kind = kind
        self.i = i = E.fresh('i')
        p = B.offset + i
        E.assume([-B.n <= p, p < B.n])
        return [B.ref, i if kind == 'position' else CSeq([i]) if kind == '1-tuple' else None]

    def post(self, E, args, r):
        B, p = self.B, self.B.offset + self.i
        if self.kind == 'None':
            yield 'the buffer itself', isinstance(r, Ref) and r == B.ref
            return
        yield 'value', E.truth(E.eq(r, B.entry(z3.If(p >= 0, p, p + B.n))))


@contract('C16')
class BufferSet(Contract):
    """writing item i changes that item of the shared data only"""
    target = STORE + 'Buffer.__setitem__'

    def cases(self, E):
        return [(l, lambda l=l: self.build(E, l)) for l in ('position', '1-tuple')]

    def build(self, E, kind):
        self.B = B = Buf(E)
        self.i, self.v = i, v = E.fresh('i'), E.fresh('v', V)
        p = B.offset + i
        E.assume([-B.n <= p, p < B.n])
        return [B.ref, i if kind == 'position' else CSeq([i]), v]

    def post(self, E, args, r):
        B, p = self.B, self.B.offset + self.i
        at = z3.If(p >= 0, p, p + B.n)
        yield 'the data is the same list', attr(E, B.ref, 'data') == B.data
        s = items_of(E, B.data)
        yield 'length', Iv(s.n) == B.n
        j = E.fresh('j')
        E.assume([0 <= j, j < B.n])
        yield 'items', E.truth(E.eq(s.get(j), z3.If(j == at, self.v, B.entry(j))))
        yield 'offset and size are unchanged', z3.And(
            Iv(attr(E, B.ref, 'size')) == B.size, Iv(attr(E, B.ref, 'offset')) == B.offset)


@contract('C16')
class BufferItems(Contract):
    """iteration and elements() list exactly the items of the window, in order"""
    target = STORE + 'Buffer.__iter__'

    def cases(self, E):
        return [(l, lambda l=l: self.build(E, l)) for l in ('iteration', 'elements')]

    def build(self, E, kind):
        self.kind = kind
        self.B = B = Buf(E)
        return [B.ref]

    def call(self, E, args):
        if self.kind == 'iteration':
            return E.seq_of(args[0])
        return E.seq_of(method(E, args[0], 'elements'))

    def post(self, E, args, r):
        B = self.B
        yield 'as many as the size', Iv(r.n) == B.size
        yield 'len()', Iv(E.num(E.builtins['len'].fn(B.ref))) == B.size
        j = E.fresh('j')
        E.assume([0 <= j, j < B.size])
        v = r.get(j)
        if self.kind == 'elements':
            v = E.seq_of(v)
            yield 'position', E.truth(E.eq(v.get(0), j))
            v = v.get(1)
        yield 'item', E.truth(E.eq(v, B.entry(B.offset + j)))


@contract('C16')
class BufferInit(Contract):
    """a buffer refers to the given data; a window beyond the data is refused"""
    target = STORE + 'Buffer.__init__'

    def build(self, E):
        self.n, self.size, self.offset, self.u = E.fresh('n'), E.fresh('size'), E.fresh('offset'), E.fresh('u', V)
        f = E.fresh_fn('item', Int, V)
        E.assume([self.n >= 0, self.offset + self.size <= self.n])
        self.data = E.new_list(fn_seq(self.n, lambda k: f(Iv(k)), 'list'))
        return [self.size, self.offset, self.data, self.u]

    def call(self, E, args):
        return E.instantiate(cls(E, 'Buffer'), args, {})

    def post(self, E, args, r):
        yield 'data', attr(E, r, 'data') == self.data
        yield 'size', Iv(attr(E, r, 'size')) == self.size
        yield 'offset', Iv(attr(E, r, 'offset')) == self.offset
        yield 'unspecified', E.truth(E.eq(attr(E, r, 'unspecified'), self.u))
        sh = E.seq_of(attr(E, r, 'shape'))
        yield 'shape', z3.And(z3.BoolVal(simp(sh.n) == 1), Iv(E.num(sh.get(0))) == self.size)
