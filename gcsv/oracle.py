"""Concrete oracles: one executable reading of every property, run on the real code of /repo.

They are *not* the deciding step of a check.  They (1) replay the verifier's counterexamples, (2) look
for a concrete failing input when an obligation is not discharged, (3) cross-check the verifier against
CPython on every run.  Every oracle is written from the property statement, in terms of plain Python
indexing, dictionaries and itertools; none uses the code under test to compute an expected value.

A case is a JSON value; run(prop, case) returns None or a message.
"""
import itertools
import math
import os
import random
import signal
import sys
import warnings

warnings.simplefilter('ignore')

REPO = os.environ.get('GCSV_REPO', '/repo')


class CaseTimeout(Exception):
    pass


def load():
    """Import the real modules (idempotent)."""
    global ST, SG, GB, VER
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import gcs.slice_tools as ST
    import gcs.storage as SG
    import gcs_basics as GB
    import gcs._version as VER
    globals().update(ST=ST, SG=SG, GB=GB, VER=VER)


# ------------------------------------------------------------------ helpers

def enc(ix):
    if isinstance(ix, slice):
        return {'s': [ix.start, ix.stop, ix.step]}
    if isinstance(ix, (tuple, list)):
        return [enc(i) for i in ix]
    return ix


def dec(ix):
    if isinstance(ix, dict):
        return slice(*ix['s'])
    if isinstance(ix, list):
        return tuple(dec(i) for i in ix)
    return ix


def prod(seq):
    r = 1
    for i in seq:
        r *= i
    return r


def cstrides(shape):
    return tuple(prod(shape[i + 1:]) for i in range(len(shape)))


def box(shape):
    return iter(()) if 0 in shape else itertools.product(*[range(n) for n in shape])


def dotp(a, b):
    return sum(x * y for x, y in zip(a, b))


def complete(index, rank):
    """index (int, slice, None or tuple) -> full tuple of items"""
    if not isinstance(index, tuple):
        index = (index,)
    return index + (None,) * (rank - len(index))


def sel_axis(item, n):
    """('int', position) or ('many', [positions]) selected by Python indexing."""
    if item is None:
        return 'many', list(range(n))
    if isinstance(item, slice):
        return 'many', list(range(n))[item]
    return 'int', list(range(n))[item]


def select(shape, index):
    """-> (result shape, function result index -> original index)"""
    items = [sel_axis(i, n) for i, n in zip(complete(index, len(shape)), shape)]
    rshape = tuple(len(v) for k, v in items if k == 'many')

    def orig(j):
        j = iter(j)
        return tuple(v if k == 'int' else v[next(j)] for k, v in items)
    return rshape, orig


class Ref:
    """Reference array: shape, dictionary of specified elements, unspecified value."""

    def __init__(self, shape, values, unspecified=None):
        self.shape, self.values, self.unspecified = tuple(shape), values, unspecified

    def __getitem__(self, index):
        return self.values.get(index, self.unspecified)

    def at(self, index):
        rshape, orig = select(self.shape, index)
        return Ref(rshape, {j: self.values[orig(j)] for j in box(rshape) if orig(j) in self.values},
                   self.unspecified)

    def nested(self, placeholder=None):
        def rec(prefix, shape):
            if not shape:
                return self.values.get(prefix, placeholder)
            return [rec(prefix + (i,), shape[1:]) for i in range(shape[0])]
        return rec((), self.shape)


def ref_of(arr):
    """arr: {'shape': [...], 'vals': [[index, value]...], 'unspec': u}"""
    return Ref(arr['shape'], {tuple(i): v for i, v in arr['vals']}, arr.get('unspec'))


def fmt_class(name):
    return getattr(SG, name)


def build(fmt, ref, via=None):
    """Build the storage for reference array with format description fmt:
    'Strided' | 'COO' | 'FlatCOO' | 'CSR' | 'Buffer' | {'DM': [dimensions, partitioning, cls]}"""
    seq = ref.nested(None)
    kw = {}
    if ref.unspecified is not None:
        kw['unspecified'] = ref.unspecified
    if isinstance(fmt, dict):
        dims, part, cls = fmt['DM']
        return SG.DM.fromobject(seq, dimensions=None if dims is None else tuple(dims),
                                partitioning=None if part is None else tuple(part),
                                storage_class=None if cls is None else fmt_class(cls), **kw)
    return fmt_class(fmt).fromobject(seq, **kw)


def is_sparse(fmt):
    if isinstance(fmt, dict):
        return is_sparse(fmt['DM'][2] or 'Strided')
    return fmt in ('COO', 'FlatCOO', 'CSR')


def read_all(s, ref, what='', negative=False):
    """Compare all element reads of storage s with the reference array."""
    if tuple(s.shape) != ref.shape:
        return f'{what}: shape is {s.shape}, expected {ref.shape}'
    for k, j in enumerate(box(ref.shape)):
        ind = j
        if negative and (k % 3 == 1 or k % 5 == 2):
            ind = tuple(i - n if (k + a) % 2 else i for a, (i, n) in enumerate(zip(j, ref.shape)))
        if len(ref.shape) == 0:
            continue
        v = s[ind if len(ind) > 1 or k % 2 else ind[0]]
        if not same(v, ref[j]):
            return f'{what}: element {ind} reads {v!r}, expected {ref[j]!r}'
    return None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SG.Storage) or isinstance(b, SG.Storage):
        return False
    return type(a) is type(b) and a == b


def valid_sparse(s, what=''):
    """Structure of sparse index data: sorted, in range, no duplicates, consistent lengths."""
    if isinstance(s, SG.DM):
        return valid_sparse(s.data, what + '.data')
    shape = tuple(s.shape)
    if isinstance(s, SG.COO):
        cols = [[s.indices.data.data[s.indices.data.offset + j * s.indices.strides[0]
                                     + q * s.indices.strides[1]]
                 for q in range(s.indices.shape[1])] for j in range(s.indices.shape[0])]
        if len(cols) != len(shape):
            return f'{what}: index rows {len(cols)} for rank {len(shape)}'
        idx = list(zip(*cols))
    elif isinstance(s, SG.FlatCOO):
        flat = list(s.findices)
        if any(not 0 <= f < prod(shape) for f in flat):
            return f'{what}: flat index out of range: {flat}'
        idx = [tuple(f // st % n for st, n in zip(cstrides(shape), shape)) for f in flat]
    elif isinstance(s, SG.CSR):
        crow, col = list(s.crow_indices), list(s.col_indices)
        if len(crow) != shape[0] + 1 or crow[0] != 0 or crow[-1] != len(col) or any(
                a > b for a, b in zip(crow, crow[1:])):
            return f'{what}: bad row pointers {crow}'
        idx = [(r, col[q]) for r in range(shape[0]) for q in range(crow[r], crow[r + 1])]
    else:
        return None
    if len(idx) != s.data.size or s.size != len(idx):
        return f'{what}: {len(idx)} indices for {s.data.size} values, size {s.size}'
    if any(not all(0 <= i < n for i, n in zip(ix, shape)) for ix in idx):
        return f'{what}: index out of range in {idx}'
    if any(not a < b for a, b in zip(idx, idx[1:])):
        return f'{what}: indices are not sorted and distinct: {idx}'
    return None


def elements_ok(s, ref, fmt, what=''):
    """elements(): specified elements once each, row-major; sparse formats list nothing else."""
    got = list(s.elements())
    if isinstance(s, SG.Buffer):
        got = [((i,), v) for i, v in got]
    got = [(tuple(i), v) for i, v in got]
    idx = [i for i, v in got]
    if any(not a < b for a, b in zip(idx, idx[1:])):
        return f'{what}: elements() is not in row-major order: {idx}'
    if any(i not in ref.values for i in idx) and is_sparse(fmt) and not isinstance(fmt, dict):
        return f'{what}: elements() lists unspecified elements: {got}'
    for i, v in got:
        if len(i) != len(ref.shape) or not all(0 <= a < n for a, n in zip(i, ref.shape)):
            return f'{what}: elements() lists index {i} outside of shape {ref.shape}'
        if not same(v, ref[i]):
            return f'{what}: elements() gives {v!r} at {i}, expected {ref[i]!r}'
    missing = [i for i in ref.values if i not in set(idx)]
    if missing:
        return f'{what}: elements() misses {missing}'
    return None


# ------------------------------------------------------------------ generators

class Gen:
    """Random inputs; `consts` are integers found in the source that also serve as sizes and bounds."""

    def __init__(self, rng, consts=()):
        self.r = rng
        self.consts = [c for c in consts if abs(c) <= 10 ** 7]
        self.small_consts = [c for c in self.consts if 0 <= c <= 400]

    def int_(self, lo, hi):
        return self.r.randint(lo, hi)

    def bigint(self, scale=20):
        k = self.r.random()
        if k < 0.5:
            return self.r.randint(-scale, scale)
        if k < 0.65 and self.consts:
            return self.r.choice(self.consts) * self.r.choice([1, 1, -1]) + self.r.randint(-2, 2)
        if k < 0.8:
            return self.r.randint(-10 * scale, 10 * scale)
        return self.r.choice([1, -1]) * self.r.randint(0, 10 ** self.r.randint(1, 12))

    def dim(self, maxn=6, zero=0.05):
        if self.r.random() < zero:
            return 0
        if self.small_consts and self.r.random() < 0.05:
            return max(1, min(self.r.choice(self.small_consts) + self.r.randint(-1, 1), 130))
        return self.r.randint(1, maxn)

    def shape(self, rank=None, maxrank=4, limit=150, zero=0.03, maxn=6):
        if rank is None:
            rank = self.r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8][:2 * maxrank])
            rank = min(rank, maxrank)
        while True:
            s = [self.dim(maxn, zero) for _ in range(rank)]
            while prod([max(1, n) for n in s]) > limit:
                i = self.r.randrange(rank)
                s[i] = max(1, s[i] // 2)
            return s

    def slice_(self, n):
        r = self.r

        def bound():
            k = r.random()
            if k < .3:
                return None
            if k < .85:
                return r.randint(-n - 2, n + 2)
            return self.bigint(n + 3)
        step = r.choice([None, 1, 2, 3, -1, -2, -3, None, -1])
        if r.random() < .15:
            step = self.bigint(n + 2) or 1
        return slice(bound(), bound(), step)

    def item(self, n, pint=.35):
        k = self.r.random()
        if k < pint and n > 0:
            return self.r.randint(-n, n - 1)
        if k < .55:
            return None
        return self.slice_(n)

    def index(self, shape, full=False, pint=.35):
        rank = len(shape)
        m = rank if full else self.r.randint(1, rank) if rank else 0
        t = [self.item(n, pint) for n in shape[:m]]
        if m > 1 and self.r.random() < .2:
            # the same item on several axes
            i = self.r.randrange(m)
            for j in range(m):
                if self.r.random() < .6 and (not isinstance(t[i], int) or -shape[j] <= t[i] < shape[j]):
                    t[j] = t[i]
        t = tuple(t)
        if len(t) == 1 and self.r.random() < .5:
            return t[0]
        return t

    def array(self, rank=None, maxrank=3, limit=60, zero=0.03, dens=None):
        r = self.r
        shape = self.shape(rank, maxrank, limit, 0)
        if zero and r.random() < zero:
            shape[-1] = 0
        if dens is None:
            dens = r.choice([0, .15, .4, .6, .85, 1, 1])
        unspec = r.choice([None, None, 0, -1, 'u'])
        vals = []
        for k, j in enumerate(box(shape)):
            if r.random() < dens:
                v = k + 1 if r.random() < .8 else r.choice([10 ** 6 + k, 'x%d' % k, k + 0.5, True, 3, 3])
                vals.append([list(j), v])
        if r.random() < .3 and len(shape) > 1 and shape[0] > 0:
            # empty leading / trailing / inner rows
            rows = set(r.sample(range(shape[0]), r.randint(0, shape[0])))
            vals = [iv for iv in vals if iv[0][0] not in rows]
        return {'shape': shape, 'vals': vals, 'unspec': unspec}

    def fmt(self, rank, dm=True, buffer=False):
        c = ['Strided', 'COO', 'FlatCOO']
        if rank == 2:
            c += ['CSR', 'CSR']
        if buffer and rank == 1:
            c += ['Buffer']
        if dm:
            c += ['DM', 'DM']
        f = self.r.choice(c)
        if f == 'DM':
            return self.dmfmt(rank)
        return f

    def dmfmt(self, rank):
        r = self.r
        dims = list(range(rank))
        r.shuffle(dims)
        m = r.randint(1, rank)
        part = sorted(r.sample(range(1, rank), m - 1))
        cls = ['Strided', 'COO', 'FlatCOO']
        if m == 1:
            cls.append('Buffer')
        if m == 2:
            cls += ['CSR', 'CSR']
        return {'DM': [dims, part, r.choice(cls)]}

    def convertible(self, rank):
        c = ['Strided', 'COO', 'FlatCOO', 'DM']
        if rank == 2:
            c += ['CSR', 'CSR']
        if rank == 1:
            c += ['Buffer']
        return self.r.choice(c)

    def sub(self, shape, n):
        """a chain of n index operations that keep at least one axis; -> list, final shape"""
        chain = []
        for _ in range(n):
            if not shape:
                break
            ix = self.index(shape)
            rs, _o = select(shape, ix)
            if not rs:
                continue
            chain.append(ix)
            shape = rs
        return chain, shape


PROPS = {}


def prop(cls):
    PROPS[cls.__name__] = cls
    return cls


# ------------------------------------------------------------------ C01

@prop
class C01:
    @staticmethod
    def gen(g):
        n = g.r.choice([0, 1, 2, 3, 5, 8, 13, abs(g.bigint(30)) % 3000])
        s = g.slice_(n)
        return [n, enc(s)]

    @staticmethod
    def small():
        opts = [None] + list(range(-6, 7))
        for n in range(0, 5):
            for a in opts:
                for b in opts:
                    for c in [None, 1, 2, 3, 5, 6, -1, -2, -3, -5, -6]:
                        yield [n, {'s': [a, b, c]}]

    @staticmethod
    def run(case):
        n, s = case[0], dec(case[1])
        x = range(n)
        want = x[s]
        red = ST.reduced(s, n)
        if x[red] != want:
            return f'range({n})[reduced({s})] with reduced={red}: {x[red]} != {want}'
        for c, v in [('nitems(s)', ST.nitems(s, n)), ('nitems(reduced)', ST.nitems(red, n)),
                     ('nitems(reduced, reduce=False)', ST.nitems(red, n, reduce=False))]:
            if v != len(want):
                return f'{c} is {v}, expected {len(want)} for {s} on length {n}'
        ks = range(len(want)) if len(want) < 50 else (0, 1, 2, len(want) // 2, len(want) - 2, len(want) - 1)
        for k in ks:
            p = red.start + k * red.step
            if p < 0:
                p += n
            if p != want[k]:
                return f'item {k} of {red} on length {n} is {p}, expected {want[k]}'
        return None


# ------------------------------------------------------------------ C02

@prop
class C02:
    @staticmethod
    def gen(g):
        shape = g.shape(maxrank=8, limit=400, zero=.05, maxn=8)
        strides = [g.bigint(9) for _ in shape] if g.r.random() < .5 else list(cstrides(shape))
        return [shape, strides, enc(g.index(shape, pint=.3)), g.r.choice([0, 0, g.bigint(9)])]

    @staticmethod
    def small():
        sl = [None, 0, -1, 1] + [slice(a, b, c) for a in (None, 0, 1, -1) for b in (None, 0, 2, -1)
                                 for c in (None, 2, -1, -2)]
        for n in range(0, 4):
            for it in sl:
                if isinstance(it, int) and not -n <= it < n:
                    continue
                yield [[n], [1], enc((it,)), 0]
                yield [[n], [1], enc(it), 0]
                yield [[2, n], [5, -3], enc((slice(None, None, -1), it)), 0]
                yield [[n, 3], [4, 7], enc(it), 2]
                yield [[2, n, 2], [9, -3, 2], enc((None, it)), 0]

    @staticmethod
    def run(case):
        shape, strides, index, off0 = tuple(case[0]), tuple(case[1]), dec(case[2]), case[3]
        rshape, orig = select(shape, index)
        norm = ST.normalize_index(index, shape)
        if len(norm) != len(shape):
            return f'normalize_index({index}, {shape}) = {norm}'
        if ST.shape_strided(norm, shape) != rshape:
            return f'shape_strided({norm}, {shape}) = {ST.shape_strided(norm, shape)}, expected {rshape}'
        runs = [('index_strided', lambda: ST.index_strided(norm, shape, strides), 0),
                ('index_strided with offset', lambda: ST.index_strided(norm, shape, strides, off0), off0),
                ('index_strided of twice normalized',
                 lambda: ST.index_strided(ST.normalize_index(norm, shape), shape, strides), 0),
                ('apply_slices', lambda: ST.apply_slices(complete(index, len(shape)), shape, strides), 0)]
        for name, f, base in runs:
            ns, nst, no = f()
            if ns != rshape or len(nst) != len(ns):
                return f'{name}{(index, shape, strides)}: shape {ns}, expected {rshape}'
            for j in itertools.islice(box(rshape), 500):
                p, w = no + dotp(j, nst), base + dotp(orig(j), strides)
                if p != w:
                    return f'{name}{(index, shape, strides)}: element {j} is at {p}, expected {w}'
        return None


# ------------------------------------------------------------------ C03

@prop
class C03:
    @staticmethod
    def gen(g):
        return g.shape(maxrank=7, limit=600, zero=.02, maxn=7) if g.r.random() < .9 else \
            [g.r.choice([1, 1, 2, 3, abs(g.bigint())]) for _ in range(g.r.randint(1, 5))]

    @staticmethod
    def small():
        yield []
        for rank in range(1, 5):
            for s in itertools.product(range(0, 4), repeat=rank):
                yield list(s)

    @staticmethod
    def run(case):
        shape = tuple(case)
        if SG.product(shape) != prod(shape) or SG.product(list(shape)) != prod(shape) \
                or GB.product(shape) != prod(shape):
            return f'product({shape}) = {SG.product(shape)}, {GB.product(shape)}'
        st = SG.make_strides(shape)
        if tuple(st) != cstrides(shape):
            return f'make_strides({shape}) = {st}'
        if prod(shape) > 5000:
            for k in range(200):
                r = random.Random(k)
                j = tuple(r.choice([0, n - 1, r.randrange(n)]) for n in shape)
                if SG.get_position(j, shape, st) != dotp(j, cstrides(shape)):
                    return f'get_position({j}, {shape}, {st})'
            return None
        for k, j in enumerate(box(shape)):
            p = SG.get_position(j, shape, st)
            if p != k:
                return f'get_position({j}, {shape}, {st}) = {p}, expected {k}'
            w = tuple((3, -2, 7, 1, -5, 11, 13)[i % 7] for i in range(len(shape)))
            if SG.get_position(j, shape, w) != dotp(j, w):
                return f'get_position({j}, {shape}, {w}) = {SG.get_position(j, shape, w)}'
        return None


# ------------------------------------------------------------------ C04

@prop
class C04:
    @staticmethod
    def gen(g):
        rank = g.r.choice([1, 2, 3, 3, 4, 5, 6])
        shape = g.shape(rank, limit=300, zero=0, maxn=6)
        f = g.dmfmt(rank)['DM']
        return [shape, f[0], f[1], [g.r.choice([0, g.bigint(5)]) for _ in range(rank)]]

    @staticmethod
    def small():
        for shape in [(1,), (3,), (2, 3), (1, 2), (2, 3, 2), (3, 1, 2), (2, 3, 2, 2)]:
            n = len(shape)
            for d in itertools.permutations(range(n)):
                for m in range(n):
                    for part in itertools.combinations(range(1, n), m):
                        yield [list(shape), list(d), list(part), [0] * n]
                        yield [list(shape), list(d), list(part), [3, -2, 5, 1][:n]]

    @staticmethod
    def run(case):
        shape, dims, part, offs = tuple(case[0]), tuple(case[1]), tuple(case[2]), case[3]
        md = GB.create_reduction_metadata(shape, dims, part)
        cuts = (0,) + part + (len(shape),)
        groups = tuple(dims[a:b] for a, b in zip(cuts, cuts[1:]))
        rshape = tuple(prod(shape[i] for i in gr) for gr in groups)
        if tuple(md['reduction_shape']) != rshape:
            return f'reduction shape {md["reduction_shape"]}, expected {rshape}'
        seen = set()
        for j in box(shape):
            r = GB.reduction(md, j)
            if not all(0 <= a < n for a, n in zip(r, rshape)) or len(r) != len(rshape):
                return f'reduction({j}) = {r} outside {rshape} for {case}'
            seen.add(r)
            if GB.promotion(md, r) != j:
                return f'promotion(reduction({j})) = {GB.promotion(md, r)} for {case}'
        if len(seen) != prod(shape):
            return f'reduction is not one-to-one for {case}'
        for r in box(rshape):
            if GB.reduction(md, GB.promotion(md, r)) != r:
                return f'reduction(promotion({r})) differs for {case}'
        s_rshape, rshapes, rstrides = SG.make_reduction(shape, groups)
        if tuple(s_rshape) != rshape:
            return f'make_reduction shape {s_rshape}, expected {rshape}'
        off = tuple(offs[:len(groups)])
        for k, j in enumerate(box(shape)):
            r = SG.reduce_index(rshapes, groups, rstrides, off, j)
            if not all(0 <= a - o < n for a, o, n in zip(r, off, rshape)):
                return f'reduce_index({j}) = {r} for {case}'
            if SG.promote_index(rshapes, groups, rstrides, off, r) != j:
                return f'promote_index(reduce_index({j})) = {SG.promote_index(rshapes, groups, rstrides, off, r)} for {case}'
            if len(groups) == 1 and SG.promote_index(rshapes, groups, rstrides, off, r[0]) != j:
                return f'promote_index(int {r[0]}) differs from {j} for {case}'
            if SG.reduce_index(rshapes, groups, rstrides, (0,) * len(groups), j) != GB.reduction(md, j):
                return f'reduce_index and reduction differ at {j} for {case}'
        for r in box(rshape):
            ro = tuple(a + o for a, o in zip(r, off))
            if SG.reduce_index(rshapes, groups, rstrides, off,
                               SG.promote_index(rshapes, groups, rstrides, off, ro)) != ro:
                return f'reduce_index(promote_index({ro})) differs for {case}'
        return None


# ------------------------------------------------------------------ C05

@prop
class C05:
    @staticmethod
    def gen(g):
        size = g.dim(12, .05) if g.r.random() < .9 else g.int_(20, 200)
        n = g.r.choice([0, 1, 2, 5, 9, 20, 40]) if size else 0
        pool = g.r.sample(range(size), g.r.randint(1, size)) if size else []
        return [sorted(g.r.choice(pool) for _ in range(n)), size]

    @staticmethod
    def small():
        for size in range(0, 5):
            for n in range(0, 5):
                for rows in itertools.combinations_with_replacement(range(size), n):
                    yield [list(rows), size]

    @staticmethod
    def run(case):
        rows, size = case
        want = [sum(1 for x in rows if x < r) for r in range(size + 1)]
        for name, f in [('storage', SG.compress_indices), ('basics', GB.compress_indices)]:
            got = f(list(rows), size)
            if list(got) != want:
                return f'{name} compress_indices({rows}, {size}) = {got}, expected {want}'
            back = SG.uncompress_indices(got)
            if list(back) != rows:
                return f'uncompress_indices({got}) = {back}, expected {rows}'
        if list(SG.compress_indices(tuple(rows), size)) != want:
            return f'compress_indices({tuple(rows)}, {size})'
        return None


# ------------------------------------------------------------------ C06

class Guarded(list):
    """Index data that refuses negative (wrapped-around) reads."""

    def __getitem__(self, i):
        if isinstance(i, int) and not 0 <= i < len(self):
            raise IndexError(f'read outside the index data: {i} of {len(self)}')
        return list.__getitem__(self, i)


class Guarded2D:
    def __init__(self, cols, rank):
        self.cols, self.shape = cols, (rank, len(cols))

    def __getitem__(self, jp):
        j, p = jp
        if not (0 <= j < self.shape[0] and 0 <= p < self.shape[1]):
            raise IndexError(f'read outside the index data: {jp} of {self.shape}')
        return self.cols[p][j]


@prop
class C06:
    @staticmethod
    def gen(g):
        shape = g.shape(maxrank=4, limit=200, zero=0, maxn=9)
        cells = list(box(shape))
        k = g.r.randint(0, len(cells))
        return [shape, [list(x) for x in sorted(g.r.sample(cells, k))]]

    @staticmethod
    def small():
        for shape in [(1,), (4,), (2, 2), (1, 3), (3, 2), (1, 1, 2), (2, 1, 2)]:
            cells = list(box(shape))
            for k in range(len(cells) + 1):
                for c in itertools.combinations(cells, k):
                    yield [list(shape), [list(x) for x in c]]

    @staticmethod
    def run(case):
        shape = tuple(case[0])
        idx = [tuple(x) for x in case[1]]
        st = cstrides(shape)
        flat = Guarded(dotp(i, st) for i in idx)
        g2 = Guarded2D(idx, len(shape))
        real = SG.Strided.fromobject([[i[a] for i in idx] for a in range(len(shape))]) if idx else None
        for j in box(shape):
            want = idx.index(j) if j in idx else None
            for name, f in [('get_coo_position', lambda: SG.get_coo_position(j, shape, g2)),
                            ('get_flatcoo_position', lambda: SG.get_flatcoo_position(dotp(j, st), shape, flat))]:
                got = f()
                if got != want or (got is None) != (want is None):
                    return f'{name} of {j} in {idx}, shape {shape}: {got}, expected {want}'
            if real is not None and SG.get_coo_position(j, shape, real) != want:
                return f'get_coo_position (Strided) of {j} in {idx}: {SG.get_coo_position(j, shape, real)}'
            if len(shape) == 2:
                crow = Guarded(sum(1 for i in idx if i[0] < r) for r in range(shape[0] + 1))
                col = Guarded(i[1] for i in idx)
                got = SG.get_csr_position(j, shape, crow, col)
                if got != want or (got is None) != (want is None):
                    return f'get_csr_position of {j} in {idx}, shape {shape}: {got}, expected {want}'
        return None


# ------------------------------------------------------------------ C07

@prop
class C07:
    @staticmethod
    def gen(g):
        n = g.r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        m = g.r.choice([3, 10, 100, 10 ** 6])
        a = [g.r.choice([1, -1]) * g.r.choice([1, g.int_(1, m)]) for _ in range(n)]
        if g.r.random() < .5:
            k = g.int_(2, 12)
            a = [k * x for x in a]
        if g.r.random() < .1:
            a[g.r.randrange(n)] = g.bigint() or 1
        c = g.bigint(40)
        if g.r.random() < .5:
            c = dotp(a, [g.int_(-5, 5) for _ in a])
        return [a, c, g.int_(0, 10 ** 6)]

    @staticmethod
    def small():
        nz = [x for x in range(-4, 5) if x]
        for n in (1, 2, 3):
            for a in itertools.product(nz if n < 3 else [x for x in nz if abs(x) < 4], repeat=n):
                for c in (0, 1, 2, 3, 6, -4):
                    yield [list(a), c, 1]

    @staticmethod
    def run(case):
        a, c, seed = tuple(case[0]), case[1], case[2]
        g = math.gcd(*a)
        if len(a) >= 2:
            for x, y in [(a[0], a[1]), (a[1], a[0]), (0, a[0])]:
                d, u, v = ST.extgcd(x, y)
                if abs(d) != math.gcd(x, y) or u * x + v * y != d:
                    return f'extgcd({x}, {y}) = {(d, u, v)}'
        d, z0, zs, D, b, s = ST.init_diophantine(a)
        if abs(d) != g or dotp(z0, a) != d or len(z0) != len(a) or len(zs) != len(a) - 1 or any(
                dotp(z, a) or len(z) != len(a) for z in zs):
            return f'init_diophantine({a}) = {(d, z0, zs)}'
        x0, zs = ST.diophantine(a, c)
        if (x0 is None) != (c % g != 0):
            return f'diophantine({a}, {c}) = {(x0, zs)}, gcd is {g}'
        if x0 is None:
            return None
        if len(x0) != len(a) or len(zs) != len(a) - 1 or any(len(z) != len(a) for z in zs):
            return f'diophantine({a}, {c}) = {(x0, zs)}'
        r = random.Random(seed)
        for k in range(4):
            t = [0 if k == 0 else r.randint(-9, 9) for _ in zs]
            x = [x0[i] + sum(tj * z[i] for tj, z in zip(t, zs)) for i in range(len(a))]
            if dotp(x, a) != c:
                return f'diophantine({a}, {c}): parameters {t} give {x}, sum {dotp(x, a)}'
        return None


# ------------------------------------------------------------------ C08

@prop
class C08:
    @staticmethod
    def gen(g):
        shape = g.shape(maxrank=5, limit=400, zero=.03, maxn=9)
        return [shape, enc(g.index(shape, full=True, pint=.25)), g.int_(0, 10 ** 6)]

    @staticmethod
    def small():
        items = [None, 0, slice(None, None, -1), slice(None, None, 2), slice(1, None, -2), slice(1, 1)]
        for shape in [(1,), (4,), (2, 3), (1, 1), (3, 1), (2, 2, 2), (3, 2, 4), (1, 3, 2)]:
            for it in itertools.product(items, repeat=len(shape)):
                yield [list(shape), enc(it), 1]

    @staticmethod
    def run(case):
        shape, index, seed = tuple(case[0]), dec(case[1]), case[2]
        rshape, orig = select(shape, index)
        if 0 in shape:
            st = cstrides(shape)
            ss, nst, off = (rshape, None, 0)
        st = cstrides(shape)
        items = complete(index, len(shape))
        # the slice of the row-major array: strides and offset from the selected positions
        nst, off = [], 0
        for it, n, s in zip(items, shape, st):
            k, v = sel_axis(it, n)
            if k == 'int':
                off += s * v
            else:
                step = (it.step or 1) if isinstance(it, slice) else 1
                nst.append(s * (v[1] - v[0] if len(v) > 1 else step))
                off += s * (v[0] if v else 0)
        nst = tuple(nst)
        img = {off + dotp(j, nst): j for j in box(rshape)}
        total = prod(shape)
        ps = list(range(-3, total + 3))
        r = random.Random(seed)
        if len(ps) > 60:
            ps = r.sample(ps, 60) + [-1, 0, total - 1, total] + r.sample(sorted(img), min(20, len(img)))
        data = ST.get_solve_index_data(nst, shape=rshape)
        for p in ps:
            want = img.get(p)
            for name, kw in [('solve_index', {}), ('solve_index with data', {'data': data})]:
                if name == 'solve_index' and r.random() < .7 and len(ps) > 20:
                    continue
                got = ST.solve_index(p - off, rshape, nst, **kw)
                if got is not None:
                    got = tuple(got)
                if got != want:
                    return f'{name}({p - off}, {rshape}, {nst}) = {got}, expected {want}'
        for p in ps[:6]:
            if 0 <= p < total:
                o = tuple(p // s % n for s, n in zip(st, shape))
                if SG.get_index(p, shape, st) != o:
                    return f'get_index({p}, {shape}, {st}) = {SG.get_index(p, shape, st)}, expected {o}'
                got = SG.get_slice_index(o, shape, st, rshape, nst, off)
                if got != img.get(p):
                    return f'get_slice_index({o}, {shape}, {st}, {rshape}, {nst}, {off}) = {got}, expected {img.get(p)}'
                if p in img and SG.get_index_slice(img[p], shape, st, rshape, nst, off) != o:
                    return f'get_index_slice({img[p]}) differs from {o}'
        return None


# ------------------------------------------------------------------ C09

ARR_SHAPES = [(1,), (3,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 1, 2)]


def small_arrays(maxcells=6, shapes=ARR_SHAPES):
    for shape in shapes:
        cells = list(box(shape))
        if len(cells) > maxcells:
            continue
        for mask in range(2 ** len(cells)):
            yield {'shape': list(shape), 'unspec': None,
                   'vals': [[list(c), k + 1] for k, c in enumerate(cells) if mask >> k & 1]}


def fmts_for(rank, dm=True, buffer=False):
    f = ['Strided', 'COO', 'FlatCOO'] + (['CSR'] if rank == 2 else []) + (['Buffer'] if buffer and rank == 1 else [])
    if dm:
        f += [{'DM': [None, None, None]}]
        if rank == 2:
            f += [{'DM': [[1, 0], [1], 'CSR']}, {'DM': [[1, 0], [], 'FlatCOO']}]
        if rank == 3:
            f += [{'DM': [[2, 0, 1], [1], 'COO']}, {'DM': [[1, 2, 0], [1, 2], 'Strided']}]
    return f


@prop
class C09:
    @staticmethod
    def gen(g):
        arr = g.array()
        return [arr, g.fmt(len(arr['shape']), dm=False, buffer=True)]

    @staticmethod
    def small():
        for arr in small_arrays():
            for f in fmts_for(len(arr['shape']), dm=False, buffer=True):
                yield [arr, f]

    @staticmethod
    def run(case):
        ref, fmt = ref_of(case[0]), case[1]
        s = build(fmt, ref)
        if fmt == 'Buffer':
            want = [ref[j] for j in box(ref.shape)]
            if s.size != len(want) or list(s) != want or any(not same(s[i], v) for i, v in enumerate(want)):
                return f'Buffer.fromobject gives {s!r}, expected {want}'
            return elements_ok(s, ref, fmt, 'Buffer')
        if fmt == 'Strided' and ref.unspecified is None and 0 not in ref.shape:
            s0 = SG.Strided.fromobject(ref.nested(), shape=ref.shape)
            if s0 != s:
                return f'Strided.fromobject with explicit shape differs: {s0!r}, {s!r}'
        return (valid_sparse(s, fmt) or read_all(s, ref, fmt) or read_all(s, ref, fmt, negative=True)
                or elements_ok(s, ref, fmt, fmt)
                or (None if s.unspecified == ref.unspecified else f'{fmt}: unspecified value is {s.unspecified!r}'))


# ------------------------------------------------------------------ C10

def convert(s, fmt, u):
    kw = {} if u is None else {'unspecified': u}
    if isinstance(fmt, dict):
        d, p, c = fmt['DM']
        return s.as_DM(dimensions=None if d is None else tuple(d), partitioning=None if p is None else tuple(p),
                       storage_class=None if c is None else fmt_class(c), **kw)
    return getattr(s, 'as_' + fmt)(**kw)


@prop
class C10:
    @staticmethod
    def gen(g):
        arr = g.array(limit=40)
        rank = len(arr['shape'])
        chain = [[g.fmt(rank, buffer=rank == 1), None] for _ in range(g.int_(1, 4))]
        if g.r.random() < .3:
            chain[g.r.randrange(len(chain))][1] = g.r.choice([0, -7, 'new'])
        return [arr, g.fmt(rank, buffer=True), chain]

    @staticmethod
    def small():
        for arr in small_arrays(4):
            fs = fmts_for(len(arr['shape']), buffer=True)
            for a in fs:
                for b in fs:
                    yield [arr, a, [[b, None]]]
                    yield [arr, a, [[b, 0], [a, None]]]

    @staticmethod
    def run(case):
        ref, fmt, chain = ref_of(case[0]), case[1], case[2]
        s = build(fmt, ref)
        before = [same(s[j if len(j) > 1 else j[0]], ref[j]) for j in box(ref.shape)]
        if not all(before):
            return None  # construction is broken: C09's or C11's business
        u, path = ref.unspecified, [fmt]
        for f, nu in chain:
            src, srcu, srcf = s, u, path[-1]
            s = convert(s, f, nu)
            path.append(f)
            if nu is not None:
                u = nu
            want = Ref(ref.shape, ref.values, u)
            e = read_all(s, want, f'{path}') or valid_sparse(s, f'{path}')
            if e:
                return e
            if s.unspecified != u:
                return f'{path}: unspecified value is {s.unspecified!r}, expected {u!r}'
            if is_sparse(f) and not isinstance(f, dict) and s.size != len(ref.values):
                return f'{path}: {s.size} stored elements for {len(ref.values)} specified ones'
            e = read_all(src, Ref(ref.shape, ref.values, srcu), f'source of {path}') if s is not src else None
            if e:
                return e
        return None


# ------------------------------------------------------------------ C11

@prop
class C11:
    @staticmethod
    def gen(g):
        arr = g.array(maxrank=4, limit=60, zero=.02)
        f = g.dmfmt(len(arr['shape']))
        if g.r.random() < .15:
            f = {'DM': [None, None, g.r.choice(['Strided', 'COO', 'FlatCOO', None])]}
        elif g.r.random() < .1 and len(f['DM'][1]) == 1:
            f['DM'][1] = f['DM'][1]
        return [arr, f]

    @staticmethod
    def small():
        for arr in small_arrays(4, [(1,), (2,), (2, 2), (1, 3), (3, 1), (2, 1, 2)]):
            n = len(arr['shape'])
            for d in itertools.permutations(range(n)):
                for m in range(n):
                    for part in itertools.combinations(range(1, n), m):
                        for c in ['Strided', 'COO', 'FlatCOO'] + (['Buffer'] if m == 0 else ['CSR'] if m == 1 else []):
                            yield [arr, {'DM': [list(d), list(part), c]}]

    @staticmethod
    def run(case):
        ref, fmt = ref_of(case[0]), case[1]
        s = build(fmt, ref)
        dims, part, cls = fmt['DM']
        n = len(ref.shape)
        e = read_all(s, ref, f'{fmt}') or read_all(s, ref, f'{fmt}', negative=True) or valid_sparse(s, f'{fmt}') \
            or elements_ok(s, ref, fmt, f'{fmt}')
        if e:
            return e
        if dims is None:
            dims = list(range(n))
        if part is None:
            part = [] if n == 1 or cls == 'Buffer' else [n - 1]
        cuts = [0] + list(part) + [n]
        rshape = tuple(prod(ref.shape[i] for i in dims[a:b]) for a, b in zip(cuts, cuts[1:]))
        if tuple(s.data.shape) != rshape:
            return f'{fmt}: storage shape {s.data.shape}, expected {rshape}'
        if cls is not None and type(s.data) is not fmt_class(cls):
            return f'{fmt}: storage is {type(s.data).__name__}'
        seen = set()
        for j in box(ref.shape):
            r = tuple(s.get_data_position(j))
            if r in seen or not all(0 <= a < m for a, m in zip(r, rshape)):
                return f'{fmt}: element {j} maps to {r}'
            seen.add(r)
            v = s.data[r]
            if not same(v, ref[j]):
                return f'{fmt}: storage element {r} is {v!r}, expected {ref[j]!r}'
        if len(seen) != prod(rshape):
            return f'{fmt}: storage is not covered'
        if is_sparse(fmt) and s.size != len(ref.values):
            return f'{fmt}: {s.size} stored elements, {len(ref.values)} specified'
        return None


# ------------------------------------------------------------------ C12 / C13

def small_chains(shape):
    items = [0, -1, None, slice(None, None, -1), slice(1, None), slice(0, 0), slice(None, None, 2), slice(-1, None, -2)]
    if len(shape) == 1:
        for a in items[2:]:
            for b in items[2:]:
                yield [a, b]
    else:
        for a in items:
            for b in items:
                if isinstance(a, int) and isinstance(b, int):
                    continue
                yield [(a, b)]
        for a in items[:5]:
            for b in items[3:6]:
                yield [a, b]
        for a in items[:2]:
            for b in items[3:6]:
                yield [b, a]
                yield [(None, b), (None, a)]


def chain_valid(ref, chain):
    """Integers are in range of their axes and every result is an array."""
    shape = ref.shape
    for ix in chain:
        for i, n in zip(complete(ix, len(shape)), shape):
            if isinstance(i, int) and not -n <= i < n:
                return False
        shape = select(shape, ix)[0]
        if not shape:
            return False
    return True


def run_chain(case, sparse_check=True):
    ref, fmt, chain = ref_of(case[0]), case[1], [dec(c) for c in case[2]]
    if not chain_valid(ref, chain):
        return None
    s = build(fmt, ref)
    desc = f'{fmt}'
    for ix in chain:
        desc += f'[{ix}]'
        ref = ref.at(ix)
        s = s[ix]
        if not isinstance(s, SG.Storage):
            return f'{desc} is {s!r}, expected an array of shape {ref.shape}'
        e = read_all(s, ref, desc)
        if not e and sparse_check and not isinstance(fmt, dict):
            e = valid_sparse(s, desc) or elements_ok(s, ref, fmt, desc)
        if not e and not s.unspecified == ref.unspecified:
            e = f'{desc}: unspecified value {s.unspecified!r}'
        if e:
            return e
    return None


@prop
class C12:
    @staticmethod
    def gen(g):
        arr = g.array(limit=80, zero=.02)
        shape = arr['shape']
        chain, _ = g.sub(shape, g.r.choice([1, 1, 2, 3]))
        return [arr, g.fmt(len(shape), dm=False), [enc(c) for c in chain]]

    @staticmethod
    def small():
        for k, arr in enumerate(small_arrays(4, [(3,), (2, 2), (1, 3), (3, 1)])):
            for f in fmts_for(len(arr['shape']), dm=False):
                for i, chain in enumerate(small_chains(arr['shape'])):
                    if (i + k) % 4 == 0:
                        yield [arr, f, [enc(c) for c in chain]]

    @staticmethod
    def run(case):
        return run_chain(case)


@prop
class C13:
    @staticmethod
    def gen(g):
        arr = g.array(limit=80, zero=.02, maxrank=4)
        shape = arr['shape']
        chain, _ = g.sub(shape, g.r.choice([1, 2, 2, 3]))
        return [arr, g.dmfmt(len(shape)), [enc(c) for c in chain]]

    @staticmethod
    def small():
        for k, arr in enumerate(small_arrays(4, [(3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)])):
            n = len(arr['shape'])
            for f in fmts_for(n)[3 + (n == 2):]:
                for i, chain in enumerate(small_chains(arr['shape'])):
                    if (i + k) % 4 == 0:
                        yield [arr, f, [enc(c) for c in chain]]

    @staticmethod
    def run(case):
        e = run_chain(case)
        if e:
            return e
        ref, fmt, chain = ref_of(case[0]), case[1], [dec(c) for c in case[2]]
        if not chain_valid(ref, chain):
            return None
        s0 = s = build(fmt, ref)
        orig = lambda j: j  # noqa
        # groups of original dimensions that are still free
        fixed = [None] * len(ref.shape)
        axes = list(range(len(ref.shape)))
        cur = ref
        maps = []
        for ix in chain:
            rshape, o = select(cur.shape, ix)
            maps.append(o)
            items = complete(ix, len(cur.shape))
            for a, it in zip(list(axes), items):
                if isinstance(it, int):
                    fixed[a] = it
            axes = [a for a, it in zip(axes, items) if not isinstance(it, int)]
            cur = cur.at(ix)
            s = s[ix]
        if all(any(fixed[a] is None for a in grp) for grp in s0.rdimensions):
            if s.data is not s0.data:
                return f'{fmt}{chain}: the slice does not share the storage of the array'
            stored = [j for j in box(cur.shape) if j in cur.values or not is_sparse(fmt)]
            if stored and cur.shape:
                j = stored[len(stored) // 2]
                s[j] = 'changed'
                i = j
                for o in reversed(maps):
                    i = o(i)
                want = Ref(ref.shape, dict(ref.values), ref.unspecified)
                want.values[i] = 'changed'
                return read_all(s0, want, f'{fmt} after assigning to {j} of slice {chain}')
        return None


# ------------------------------------------------------------------ C14

def setitem(s, ref, fmt, ix, val, desc, mode):
    """Assign through the real code and the reference; -> error or None."""
    rshape, orig = select(ref.shape, ix)
    sparse = is_sparse(fmt)
    if not rshape:
        if val == 'U':       # the value that unspecified elements read as
            val = ref.unspecified
        s[ix] = val
        j = orig(())
        if j in ref.values or not sparse:
            ref.values[j] = val
    else:
        src = Ref(rshape, {j: ref.unspecified if val == 'U' and k % 2 else f'{val}{k}' for k, j in enumerate(box(rshape))})
        obj = src.nested()
        if mode == 'storage' and 0 not in rshape:
            obj = SG.Strided.fromobject(obj)
        s[ix] = obj
        for j in box(rshape):
            i = orig(j)
            if i in ref.values or not sparse:
                ref.values[i] = src.values[j]
    return None


@prop
class C14:
    @staticmethod
    def gen(g):
        arr = g.array(limit=60, zero=0)
        shape = arr['shape']
        ops = []
        for _ in range(g.int_(1, 3)):
            if g.r.random() < .4:
                ops.append([enc(tuple(g.int_(-n, n - 1) for n in shape)), g.r.choice([99, 'v', 5, 'U']), 'list'])
            else:
                ops.append([enc(g.index(shape)), g.r.choice(['a', 'b', 'b', 'U']), g.r.choice(['list', 'list', 'storage'])])
        fmt = g.fmt(len(shape))
        view = None
        if (fmt == 'Strided' or isinstance(fmt, dict)) and g.r.random() < .4:
            view, vs = g.sub(shape, 1)
            if view and 0 not in vs:
                ops = [[enc(g.index(vs)), 'w', 'list']]
                view = [enc(v) for v in view]
            else:
                view = None
        return [arr, fmt, ops, view]

    @staticmethod
    def small():
        for k, arr in enumerate(small_arrays(4, [(3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)])):
            rank = len(arr['shape'])
            for f in fmts_for(rank):
                for j in box(arr['shape']):
                    yield [arr, f, [[list(j), 'v', 'list']], None]
                    if k % 3 == 0:
                        yield [arr, f, [[list(j), 'U', 'list'], [enc(slice(None)), 'U', 'list']], None]
                for ix in [0, -1, slice(None, None, -1), slice(0, 1), (None,) * (rank - 1) + (slice(None, None, 2),),
                           (None,) * (rank - 1) + (0,)]:
                    yield [arr, f, [[enc(ix), 'v', 'list']], None]
        for ix in [1, -1, slice(None, None, -1), (None, slice(None, None, -2)), (None, 1), (0, slice(1, None))]:
            for f in ['Strided', {'DM': [[1, 0], [1], 'Strided']}, {'DM': [[1, 0], [], 'Buffer']}]:
                arr = {'shape': [2, 3], 'unspec': None, 'vals': [[list(c), k + 1] for k, c in enumerate(box((2, 3)))]}
                rs, _ = select((2, 3), ix)
                yield [arr, f, [[[0] * len(rs), 'w', 'list']], [enc(ix)]]
                yield [arr, f, [[enc(slice(None, None, -1)), 'w', 'list']], [enc(ix)]]

    @staticmethod
    def run(case):
        ref, fmt, ops, view = ref_of(case[0]), case[1], case[2], case[3]
        s = build(fmt, ref)
        if read_all(s, ref) or not ref.shape:
            return None
        stored = [tuple(i) if not isinstance(i, int) else (i,) for i, v in s.elements()]
        if view:
            ix = dec(view[0])
            if isinstance(fmt, dict):
                items = complete(ix, len(ref.shape))
                if any(all(isinstance(items[a], int) for a in grp) for grp in s.rdimensions):
                    if fmt['DM'][2] not in ('Strided',):
                        return None
            vref = ref.at(ix)
            v = s[ix]
            rshape, orig = select(ref.shape, ix)
            old = dict(vref.values)
            for jx, val, mode in ops:
                setitem(v, vref, fmt, dec(jx), val, '', mode)
            e = read_all(v, vref, f'{fmt}[{ix}] after assignments {ops}')
            if e:
                return e
            for j in box(rshape):
                if j in vref.values and vref.values[j] is not old.get(j, ref):
                    ref.values[orig(j)] = vref.values[j]
            return read_all(s, ref, f'{fmt} after assignments {ops} to its slice [{ix}]')
        for jx, val, mode in ops:
            setitem(s, ref, fmt, dec(jx), val, '', mode)
            e = read_all(s, ref, f'{fmt} after assigning {val!r} to [{dec(jx)}]')
            if e:
                return e
        now = [tuple(i) if not isinstance(i, int) else (i,) for i, v in s.elements()]
        if now != stored and not any(o[1] == 'U' for o in ops):
            return f'{fmt}: stored elements changed from {stored} to {now}'
        return None


# ------------------------------------------------------------------ C15

@prop
class C15:
    @staticmethod
    def gen(g):
        arr = g.array(limit=50, zero=.02)
        shape = arr['shape']
        fmt = g.fmt(len(shape), buffer=True)
        chain, fs = g.sub(shape, g.r.choice([0, 0, 1, 1, 2])) if fmt != 'Buffer' else ([], shape)
        return [arr, fmt, [enc(c) for c in chain], g.r.choice([None, None, 0, 'nu', 3]), g.int_(0, 1)]

    @staticmethod
    def small():
        for k, arr in enumerate(small_arrays(4, [(3,), (2, 2), (1, 3), (3, 1)])):
            for f in fmts_for(len(arr['shape']), buffer=True):
                for w in (0, 1):
                    for u in (None, 0):
                        yield [arr, f, [], u, w]
                        if f != 'Buffer':
                            yield [arr, f, [enc(slice(None, None, -1))], u, w]
                            yield [arr, f, [enc(slice(1, None))], u, w]
                            if len(arr['shape']) == 2:
                                yield [arr, f, [enc((None, 0))], u, w]
                                yield [arr, f, [enc((0, None))], u, w]

    @staticmethod
    def run(case):
        ref, fmt, chain, u, who = ref_of(case[0]), case[1], [dec(c) for c in case[2]], case[3], case[4]
        s = build(fmt, ref)
        if read_all(s, ref):
            return None
        for ix in chain:
            s, ref = s[ix], ref.at(ix)
            if not isinstance(s, SG.Storage) or read_all(s, ref):
                return None  # slicing is C12/C13
        c = s.copy() if u is None else s.copy(unspecified=u)
        desc = f'copy of {fmt}{chain}'
        if type(c) is not type(s):
            return f'{desc}: {type(c).__name__}'
        if any(v == u for v in ref.values.values()) and u is not None:
            return None
        cref = Ref(ref.shape, dict(ref.values), ref.unspecified if u is None else u)
        e = read_all(c, cref, desc) or read_all(s, ref, f'source of {desc}') or (
            valid_sparse(c, desc) if is_sparse(fmt) and not isinstance(fmt, dict) else None)
        if e:
            return e
        if c.unspecified != cref.unspecified:
            return f'{desc}: unspecified is {c.unspecified!r}, expected {cref.unspecified!r}'
        if u is None and type(s) in (SG.Buffer, SG.COO, SG.FlatCOO, SG.CSR) and not c == s:
            return f'{desc} does not equal its source'
        a, b, aref, bref = (c, s, cref, ref) if who else (s, c, ref, cref)
        for j in box(ref.shape):
            if j in aref.values or not is_sparse(fmt):
                a[j] = 'chg%s' % (j,)
                aref.values[j] = 'chg%s' % (j,)
        return read_all(b, bref, f'{desc}: after changing the {"copy" if who else "source"}, the other one') \
            or read_all(a, aref, f'{desc}: after changing every element')


# ------------------------------------------------------------------ C16

@prop
class C16:
    @staticmethod
    def gen(g):
        n = g.dim(9, .05)
        wins = []
        for _ in range(g.int_(1, 3)):
            def b():
                return g.r.choice([None, g.int_(-n - 1, n + 1), g.int_(0, n)])
            wins.append([b(), b(), g.r.choice([None, None, 1, 2, -1])])
        return [n, wins, g.int_(-n - 2, n + 2)]

    @staticmethod
    def small():
        for n in range(0, 4):
            o = [None] + list(range(-4, 5))
            for a in o:
                for b in o:
                    for c in (None, 1, 2, -1):
                        yield [n, [[a, b, c]], 0]
                    if n == 3:
                        yield [n, [[1, 2, None], [a, b, None]], 1]
                        yield [n, [[2, None, None], [a, b, None]], -1]

    @staticmethod
    def run(case):
        n, wins, pos = case
        base = [10 + i for i in range(n)]
        data = list(base)
        buf = SG.Buffer(n, 0, data, unspecified='U')
        off, size = 0, n
        for a, b, c in wins:
            start = off if a is None else off + a
            stop = off + size if b is None else off + b
            bad = start < 0 or start >= n or stop <= 0 or stop > n
            if not bad and c not in (None, 1):
                if len(base[start:stop:c]) == 0 or abs(c) >= n:
                    return None  # nothing or one item selected: the statement does not fix this case
                bad = True
            try:
                w = buf[a:b:c]
            except IndexError:
                if bad:
                    return None
                return f'Buffer of {n} (offset {off}, size {size}): [{a}:{b}:{c}] refused'
            if bad:
                return f'Buffer of {n} (offset {off}, size {size}): [{a}:{b}:{c}] gives {w!r}'
            want = base[start:stop]
            if (w.size, len(w), w.shape) != (len(want), len(want), (len(want),)) or list(w) != want or \
                    [v for _, v in w.elements()] != want or [i for i, _ in w.elements()] != list(range(len(want))):
                return f'window [{a}:{b}] of Buffer(offset {off}, size {size}) is {list(w)}, expected {want}'
            if w.unspecified != 'U':
                return 'window lost the unspecified value'
            for i in range(-start, n - start):
                if want and w[i] != base[start + i]:
                    return f'item {i} of window [{a}:{b}] is {w[i]}, expected {base[start + i]}'
                if want and w[(i,)] != base[start + i]:
                    return f'item ({i},) of window [{a}:{b}] is {w[(i,)]}'
            if not want:
                return None
            if w.data is not data or w[None] is not w:
                return 'window does not share the data'
            k = pos % n - start
            old = base[start + k]
            w[k] = base[start + k] = 'new'
            if data != base or buf[start + k - off] != 'new':
                return f'write to item {k} of window [{a}:{b}]: data is {data}'
            buf[start + k - off] = base[start + k] = old
            if w[k] != old or data != base:
                return f'write to the buffer is not seen through window [{a}:{b}]'
            buf, off, size = w, start, len(want)
        return None


# ------------------------------------------------------------------ C17

@prop
class C17:
    @staticmethod
    def gen(g):
        a = g.array(limit=30, zero=0)
        a['unspec'] = None
        b = {'shape': list(a['shape']), 'vals': [list(v) for v in a['vals']], 'unspec': None}
        k = g.r.random()
        if k < .3 and b['vals']:
            b['vals'][g.r.randrange(len(b['vals']))][1] = 'other'
        elif k < .5 and b['vals']:
            b['vals'].pop(g.r.randrange(len(b['vals'])))
        elif k < .6:
            b['shape'][g.r.randrange(len(b['shape']))] += 1
        rank = len(a['shape'])
        f1 = g.fmt(rank)
        return [a, f1, b, g.r.choice([f1, g.fmt(rank)])]

    @staticmethod
    def small():
        arrs = [x for x in small_arrays(4, [(1,), (2,), (2, 1), (1, 2), (2, 2)])]
        for i, a in enumerate(arrs):
            for b in arrs[max(0, i - 5):i + 6]:
                if len(a['shape']) != len(b['shape']):
                    continue
                fs = fmts_for(len(a['shape']))
                for k, f in enumerate(fs):
                    yield [a, f, b, fs[(i + k) % len(fs)]]
                    yield [a, f, b, f]

    @staticmethod
    def run(case):
        ra, rb, fa, fb = ref_of(case[0]), ref_of(case[2]), case[1], case[3]
        a, b = build(fa, ra), build(fb, rb)
        if read_all(a, ra) or read_all(b, rb):
            return None
        want = ra.shape == rb.shape and ra.values == rb.values
        for x, y, n in [(a, b, 'equal'), (b, a, 'equal (swapped)')]:
            got = quiet(lambda: x.equal(y))
            if bool(got) != want:
                return f'{n} of {fa} {ra.shape}{ra.values} and {fb} {rb.shape}{rb.values} is {got}'
        if not quiet(lambda: a.equal(a)):
            return f'{fa} is not equal to itself'
        if ra.values and quiet(lambda: a.equal(rb.nested())) != want and 0 not in rb.shape:
            return f'{fa} {ra.values} equal to nested sequence {rb.nested()} is {not want}'
        a2 = build(fa, ra)
        if not (a == a) or not (a == a2) or a != a2:
            return f'{fa} {ra.values} does not equal itself or its twin'
        if fa == fb:
            e1, e2, ne = a == b, b == a, a != b
            if e1 != e2 or ne == e1:
                return f'== is {e1}/{e2}, != is {ne} for {fa} {ra.values}, {rb.values}'
            if e1 and not want:
                return f'{fa}: {ra.shape}{ra.values} == {rb.shape}{rb.values}'
            if want and not e1:
                return f'{fa}: twins are not equal'
        for v in (a[0:1], a[::-1]) if ra.shape else ():
            if not (v == v) or (v != v):
                return f'slice of {fa} does not equal itself'
        # the same view of both arrays
        if ra.shape and ra.shape == rb.shape and fa == fb:
            for i in (slice(None, None, -1), slice(1, None), slice(None, None, 2)):
                x, y, rx, ry = a[i], b[i], ra.at(i), rb.at(i)
                e1, e2, ne = x == y, y == x, x != y
                if e1 and rx.values != ry.values or e1 != e2 or ne == e1:
                    return f'{fa} {ra.values} and {rb.values}, slices {i}: == is {e1}/{e2}, != is {ne}'
        # the same specified elements, other unspecified values
        if ra.shape and len(ra.values) < prod(ra.shape):
            for u1, u2 in [(0, -1), (None, 0)]:
                qa, qb = ref_of(dict(case[0], unspec=u1)), ref_of(dict(case[0], unspec=u2))
                x, y = build(fa, qa), build(fa, qb)
                if read_all(x, qa) is None and read_all(y, qb) is None and (x == y or y == x or not (x != y)):
                    return f'{fa} {ra.shape}{ra.values} with unspecified values {u1} == with {u2}'
        # views that share data but differ in elements
        if ra.shape and ra.shape[0] > 1 and fa == fb:
            for i1, i2 in [(slice(0, 1), slice(1, 2)), (slice(None), slice(None, None, -1))]:
                x, y = a[i1], a[i2]
                rx, ry = ra.at(i1), ra.at(i2)
                if (x == y) and rx.values != ry.values:
                    return f'{fa} {ra.values}: slice {i1} == slice {i2}'
                if quiet(lambda: x.equal(y)) != (rx.values == ry.values):
                    return f'{fa} {ra.values}: slice {i1} equal slice {i2} is wrong'
        return None


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# ------------------------------------------------------------------ C18

STYLES = ['pep440', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe', 'git-describe-long', 'default', '', None]


def version_spec(tag, dist, short, dirty, style):
    style = style or 'pep440'
    if style == 'default':
        style = 'pep440'
    plus = '.' if tag and '+' in tag else '+'
    if style == 'pep440':
        if tag:
            if not dist and not dirty:
                return tag
            return f'{tag}{plus}{dist}.g{short}' + ('.dirty' if dirty else '')
        return f'0+untagged.{dist}.g{short}' + ('.dirty' if dirty else '')
    if style == 'pep440-pre':
        if tag:
            return tag + (f'.post.dev{dist}' if dist else '')
        return f'0.post.dev{dist}'
    if style == 'pep440-post':
        if tag:
            if not dist and not dirty:
                return tag
            return f'{tag}.post{dist}' + ('.dev0' if dirty else '') + f'{plus}g{short}'
        return f'0.post{dist}' + ('.dev0' if dirty else '') + f'+g{short}'
    if style == 'pep440-old':
        if tag:
            if not dist and not dirty:
                return tag
            return f'{tag}.post{dist}' + ('.dev0' if dirty else '')
        return f'0.post{dist}' + ('.dev0' if dirty else '')
    if style == 'git-describe':
        r = (tag + (f'-{dist}-g{short}' if dist else '')) if tag else short
        return r + ('-dirty' if dirty else '')
    if style == 'git-describe-long':
        r = f'{tag}-{dist}-g{short}' if tag else short
        return r + ('-dirty' if dirty else '')
    return ValueError


@prop
class C18:
    @staticmethod
    def gen(g):
        if g.r.random() < .6:
            return C18.gen_source(g)
        tag = g.r.choice([None, '', '1.0', 'v2.3+local', '+', 'a-b', '0.%d' % g.int_(0, 50)])
        return [tag, g.r.choice([0, 0, 1, 7, abs(g.bigint())]), g.r.choice(['abc123', 'f', '']),
                g.r.choice([True, False]), g.r.choice(STYLES + ['nostyle', 'pep441']), g.r.choice([None, None, 'err']),
                g.r.choice([None, '2020'])]

    @staticmethod
    def small():
        for tag in [None, '', '1.0', '1+x']:
            for d in (0, 1, 12):
                for dirty in (False, True):
                    for st in STYLES + ['nope']:
                        yield [tag, d, 'abc', dirty, st, None, 'D']
                        yield [tag, d, 'abc', dirty, st, 'E', None]

                for dirty in (False, True):
                    for tg in [None, '1.0', '1-2-g3', '-', '1.0-dirty', '0-1-gabc', '7']:
                        yield ['git', 'v', 'v' if tg is not None else '', tg, d, 'abc1234', dirty, 'pep440', '2020-01-02 03:04:05 +0100', False]
                    yield ['git', 'v', '', '1.0', d, 'abc1234', dirty, 'pep440', '2020-01-02 03:04:05 +0100', False]
        for refs in ['HEAD -> master, tag: v1.0', 'tag: v2.0rc1, tag: v2.0', 'tag: x1', 'HEAD, master', 'v3, master', '']:
            yield ['keywords', refs, 'v']

    @staticmethod
    def gen_source(g):
        r = g.r
        piece = lambda: ''.join(r.choice('0123456789abcdefg-.+rvdirty') for _ in range(r.randint(1, 9)))
        if r.random() < .25:
            refs = [r.choice(['HEAD', 'HEAD -> master', 'master', 'tag: v' + piece(), 'tag: v%d.%d' % (r.randint(0, 30), r.randint(0, 30)),
                              'tag: ' + piece(), 'v' + piece(), 'release', piece()]) for _ in range(r.randint(0, 5))]
            return ['keywords', ', '.join(refs), r.choice(['v', '', 'rel-'])]
        tag = r.choice([None, '1.0', '%d.%d' % (r.randint(0, 40), r.randint(0, 40)), piece(), piece() + '-%d-g%x' % (r.randint(0, 9), r.randint(0, 99)),
                        piece() + '-dirty', '1.0+l', '1.0-rc1'])
        hx = ''.join(r.choice('0123456789abcdef') for _ in range(r.choice([7, 7, 8, 12, 40])))
        pre = r.choice(['v', 'v', '', 'rel-'])
        return ['git', pre, pre if r.random() < .9 else r.choice(['', 'x', 'V']), tag, r.choice([0, 0, 1, 9, 10, 11, r.randint(0, 10 ** r.randint(1, 8))]), hx,
                r.random() < .5, r.choice(STYLES), '20%02d-01-0%d 1%d:00:00 %s' % (r.randint(0, 99), r.randint(1, 9), r.randint(0, 9), r.choice(['+0000', '-0730'])),
                r.random() < .05]

    @staticmethod
    def run_keywords(case):
        _, refs, prefix = case
        kw = {'refnames': f' ({refs})', 'full': ' 0123abcd ', 'date': '2021-02-03 04:05:06 +0200'}
        got = VER.git_versions_from_keywords(dict(kw), prefix, False)
        names = {x.strip() for x in refs.split(',')}
        tags = sorted(x[5:] for x in names if x.startswith('tag: ')) or sorted(x for x in names if any(c.isdigit() for c in x))
        tags = [t[len(prefix):] for t in tags if t.startswith(prefix)]
        want = {'version': tags[0], 'full-revisionid': '0123abcd', 'dirty': False, 'error': None, 'date': '2021-02-03T04:05:06+0200'} if tags else \
            {'version': '0+unknown', 'full-revisionid': '0123abcd', 'dirty': False, 'error': 'no suitable tags', 'date': None}
        if got['error'] is not None and want['error'] is not None:
            want['error'] = got['error']
        return None if got == want else f'git_versions_from_keywords({kw}, {prefix!r}) = {got}, expected {want}'

    @staticmethod
    def run_git(case):
        _, prefix, tprefix, tag, dist, hx, dirty, style, date, outside = case
        full = (hx * 6)[:40]
        desc = (hx if tag is None else f'{tprefix}{tag}-{dist}-g{hx}') + ('-dirty' if dirty else '')

        def git(commands, args, cwd=None, verbose=False, hide_stderr=False, env=None):
            if outside:
                return None, 128
            if args[0] == 'rev-parse':
                return (full if 'HEAD' in args else '.git'), 0
            return {'describe': desc, 'rev-list': str(dist), 'show': date, 'log': date}[args[0]], 0
        try:
            pieces = VER.git_pieces_from_vcs(prefix, '/nowhere', False, run_command=git)
        except VER.NotThisMethod:
            return None if outside else f'git_pieces_from_vcs refuses {desc!r}'
        if outside:
            return 'git_pieces_from_vcs answers outside a repository'
        got = VER.render(pieces, style)
        if tag is not None and not (tprefix + tag).startswith(prefix):
            ok = got['version'] == 'unknown' and got['error'] and got['full-revisionid'] == full and got['dirty'] is None
            return None if ok else f'git describe {desc!r}, prefix {prefix!r}: {got}'
        want = {'version': version_spec(None if tag is None else (tprefix + tag)[len(prefix):], dist, full[:7] if tag is None else hx, dirty, style),
                'full-revisionid': full, 'dirty': dirty, 'error': None, 'date': date.replace(' ', 'T', 1).replace(' ', '', 1)}
        return None if got == want else f'git describe {desc!r}, distance {dist}, prefix {prefix!r}, style {style}: {got}, expected {want}'

    @staticmethod
    def run(case):
        if case[0] == 'git':
            return C18.run_git(case)
        if case[0] == 'keywords' and len(case) == 3:
            return C18.run_keywords(case)
        tag, dist, short, dirty, style, err, date = case
        pieces = {'closest-tag': tag, 'distance': dist, 'short': short, 'dirty': dirty, 'error': err,
                  'long': 'LONG' + short, 'date': date}
        before = dict(pieces)
        want = version_spec(tag, dist, short, dirty, style)
        try:
            got = VER.render(pieces, style)
        except ValueError:
            if err is None and want is ValueError:
                return None
            return f'render({before}, {style!r}) raised ValueError'
        if err is not None:
            if got != {'version': 'unknown', 'full-revisionid': pieces['long'], 'dirty': None, 'error': err, 'date': None}:
                return f'render({before}, {style!r}) = {got}'
            return None
        if want is ValueError:
            return f'render with style {style!r} gives {got}'
        exp = {'version': want, 'full-revisionid': pieces['long'], 'dirty': dirty, 'error': None, 'date': date}
        if got != exp:
            return f'render({before}, {style!r}) = {got}, expected {exp}'
        if pieces != before:
            return 'render changed its input'
        return None


# ------------------------------------------------------------------ running

def _alarm(*_):
    raise CaseTimeout()


def run_case(prop_id, case, cpu=20.0):
    """-> None or message; exceptions of the code under test are failures."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        return PROPS[prop_id].run(case)
    except CaseTimeout:
        return f'no answer within {cpu:g} s of processor time'
    except RecursionError as e:
        return f'RecursionError: {e}'
    except Exception as e:  # noqa
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{f.filename}:{f.lineno}' for f in tb if f.filename.startswith(REPO)]
        if not where and not isinstance(e, (TypeError, AttributeError, ValueError, IndexError, AssertionError, KeyError)):
            raise
        return f'{type(e).__name__}: {e} at {where[-1] if where else "the call"}'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
