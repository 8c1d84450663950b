"""Contracts for row compression (C05)."""
from .base import *  # noqa


class _Compress(Contract):
    """indices: any sorted sequence of n integers in [0, size).

    cnt(a) is the number of indices smaller than a: the unique value with ind(i) < a for i < cnt(a) and
    ind(i) >= a for i >= cnt(a) (it exists because the indices are sorted).
    """
    timeout = 4000

    def build(self, E):
        n, size = E.fresh('n'), E.fresh('size')
        ind = E.fresh_fn('ind', Int, Int)
        cnt = E.fresh_fn('cnt', Int, Int)
        p, q = z3.Ints('p!s q!s')
        E.assume([n >= 0, size >= 0])
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), ind(p) <= ind(q)),
                           patterns=[T.mpat(ind(p), ind(q))]))
        E.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= ind(p), ind(p) < size)), patterns=[ind(p)]))
        E.assume(z3.ForAll([p], z3.And(0 <= cnt(p), cnt(p) <= n, z3.Implies(cnt(p) > 0, ind(cnt(p) - 1) < p),
                                       z3.Implies(cnt(p) < n, ind(cnt(p)) >= p)), patterns=[cnt(p)]))
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= q, q < n), (ind(q) < p) == (q < cnt(p))),
                           patterns=[T.mpat(cnt(p), ind(q))]))
        self.n, self.size, self.ind, self.cnt = n, size, ind, cnt
        return [SSeq(n, ind, 0, 'tuple'), size]

    def selectors(self, E, args):
        return [lambda E, a: [self.cnt(a)]]

    def post(self, E, args, r):
        r = E.seq_of(r)
        yield 'the result has size + 1 entries', Iv(r.n) == self.size + 1
        yield 'entry a is the number of indices smaller than a', Q(
            ['a'], lambda a: Implies(z3.And(0 <= a, a <= self.size), E.truth(E.eq(r.get(a), self.cnt(a)))))
        yield 'the first entry is 0', E.truth(E.eq(r.get(0), 0))
        yield 'the last entry is the number of indices', E.truth(E.eq(r.get(self.size), self.n))
        yield 'the entries do not decrease', Q(
            ['a', 'b'], lambda a, b: Implies(z3.And(0 <= a, a <= b, b <= self.size), Iv(E.num(r.get(a))) <= Iv(E.num(r.get(b)))))


@contract('C05')
class CompressStorage(_Compress):
    target = 'gcs.storage.compress_indices'


@contract('C05')
class CompressBasics(_Compress):
    target = 'gcs_basics.compress_indices'


@contract('C05')
class Uncompress(Contract):
    """The compressed form of a sorted sequence is uncompressed to that sequence."""
    target = 'gcs.storage.uncompress_indices'
    timeout = 4000

    def build(self, E):
        n, size = E.fresh('n'), E.fresh('size')
        ind = E.fresh_fn('ind', Int, Int)
        crow = E.fresh_fn('crow', Int, Int)
        p, q = z3.Ints('p!s q!s')
        E.assume([n >= 0, size >= 0, crow(0) == 0, crow(size) == n])
        E.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < size), crow(p) <= crow(p + 1)), patterns=[crow(p)]))
        # row ind(q) of item q: crow(ind(q)) <= q < crow(ind(q) + 1)
        E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= q, q < n, 0 <= p, p <= size), (ind(q) < p) == (q < crow(p))),
                           patterns=[T.mpat(ind(q), crow(p))]))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= ind(q), ind(q) < size)), patterns=[ind(q)]))
        self.n, self.size, self.ind, self.crow = n, size, ind, crow
        return [SSeq(size + 1, crow, 0, 'list')]

    def closed(self, E, args):
        return [('sum', self.crow, self.size)]

    def post(self, E, args, r):
        r = E.seq_of(r)
        yield 'as many items as were compressed', Iv(r.n) == self.n
        yield 'every item is the row it came from', Q(
            ['q'], lambda q: Implies(z3.And(0 <= q, q < self.n), E.truth(E.eq(r.get(q), self.ind(q)))))
