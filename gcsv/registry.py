"""Which contracts decide which property."""
import importlib

MODULES = ['slices', 'version', 'search', 'compress', 'strided', 'layout', 'reduction', 'dioph', 'buffer', 'solve', 'access', 'arrays', 'dm', 'equality']

# property -> (level, note, technique)
LEVEL = {
    'C01': ('proof', 'all integers, no bound'),
    'C02': ('proof', 'any rank, sizes, strides and index'),
    'C03': ('proof', 'any rank and sizes'),
    'C04': ('proof', 'any rank, sizes, permutation, partitioning, offsets and indices'),
    'C05': ('proof', 'sequences of any length, any size'),
    'C06': ('proof', 'index data of any length, any rank'),
    'C07': ('proof', 'any number of non-zero coefficients, any right-hand side and parameters; the elimination table of init_diophantine (used only by C08) is a bounded stand-in'),
    'C08': ('proof', 'any rank, shape and non-zero strides: an index that is reported is the right one; for rank 0 and 1, empty arrays and '
                     'positions that are no multiple of the common divisor absence is right too. For rank 2 and more that no index is '
                     'missed is a bounded stand-in (exhaustive over small shapes and slices, sampled beyond)'),
    'C09': ('proof', 'ranks 1 to 3 (CSR: 2), any sizes, contents and index'),
    'C10': ('proof', 'ranks 1 to 3 (CSR: 2), any valid array (also a slice), any sizes and contents; with DM on one side: all mappings up '
                     'to rank 2 and, in the quick tier, one permutation per partitioning of rank 3 (thorough: all)'),
    'C11': ('proof', 'ranks 1 to 3, all permutations, partitionings and formats (quick tier: COO and CSR storage of rank 3 with one '
                     'permutation per partitioning), any sizes and contents'),
    'C12': ('proof', 'ranks 1 to 3 (CSR: 2), any valid array (also a slice of a slice), any sizes, contents and index; that solving a '
                     'position of rank 2 and more misses no index is the bounded stand-in of C08'),
    'C13': ('proof', 'ranks 1 to 3, all permutations and partitionings, any valid DM array (also a slice of a slice), any sizes, contents '
                     'and index (quick tier: a part of the index patterns and formats of rank 3)'),
    'C14': ('proof', 'ranks 1 to 3 (CSR: 2), any valid array (also a slice), any sizes, contents, index and values; DM: all mappings up to '
                     'rank 2, one permutation per partitioning and a part of the index patterns of rank 3 in the quick tier'),
    'C15': ('proof', 'ranks 1 to 3 (CSR: 2), any valid array (also a slice), any sizes and contents; DM: all mappings up to rank 2, one '
                     'permutation per partitioning of rank 3 in the quick tier'),
    'C16': ('proof', 'buffers of any size and offset, any window bounds and steps'),
    'C17': ('proof', 'ranks 1 to 3 (CSR: 2), any pair of valid arrays (also slices), any sizes and contents; DM: all mappings up to '
                     'rank 2, one permutation per partitioning of rank 3 in the quick tier; element values are assumed to compare with '
                     'an equivalence'),
    'C18': ('proof', 'rendering: all strings, all distances, all styles; reading the pieces from git describe and from archive keywords '
                     '(git_pieces_from_vcs, git_versions_from_keywords: regular expressions and sets of strings) is a bounded stand-in '
                     '(generated descriptions, with a function in place of git)'),
}


def load():
    from .contracts import base
    for m in MODULES:
        importlib.import_module('gcsv.contracts.' + m)
    return base.ALL


def contracts_for(pid):
    """The contracts that name the property, and the contracts their callers rely on."""
    from .contracts import base
    allc = load()
    out = [c for c in allc if pid in c.props]
    seen = set(out)
    todo = list(out)
    while todo:
        c = todo.pop()
        for d in getattr(c, 'lemmas', ()):
            if d not in seen:
                seen.add(d)
                out.append(d)
                todo.append(d)
        for t in c.requires:
            r = base.REGISTRY.get(t)
            if r is not None:
                for d in allc:
                    if d.target == t and (d is r or getattr(d, 'part_of', None) is r) and d not in seen:
                        seen.add(d)
                        out.append(d)
                        todo.append(d)
    return out


TECHNIQUE = ('contracts on the real functions, discharged function by function: verification conditions generated from the '
             'current source by symbolic execution with loop summaries, decided by z3')
TRUST = ('Every obligation is generated from the current source on every run and discharged by z3. Trusted: the verification '
         'condition generator gcsv, the assumed contracts of Python builtins, z3. A seeded concrete cross-check on CPython runs '
         'beside the proof and supplies failing inputs.')
NA = {}
