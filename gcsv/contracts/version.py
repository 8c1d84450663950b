"""Contracts for the version rendering (C18)."""
from .base import *  # noqa
from ..engine import STR_OF_INT, z3s, DictRec

STYLES = ['pep440', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe', 'git-describe-long']


def cat(*parts):
    r = None
    for p in parts:
        p = z3s(p)
        r = p if r is None else z3.Concat(r, p)
    return r


def expected(tag, dist, short, dirty, style):
    """The documented form, from the property statement; tag is None or a string term."""
    d = STR_OF_INT(dist)
    if tag is None:
        has = z3.BoolVal(False)
        tag = z3s('')
    else:
        has = tag != z3s('')
    plus = z3.If(z3.And(has, z3.Contains(tag, z3s('+'))), z3s('.'), z3s('+'))
    clean = z3.And(dist == 0, z3.Not(dirty))
    mark = lambda s: z3.If(dirty, z3s(s), z3s(''))  # noqa
    if style == 'pep440':
        return z3.If(has, z3.If(clean, tag, cat(tag, plus, d, '.g', short, mark('.dirty'))),
                     cat('0+untagged.', d, '.g', short, mark('.dirty')))
    if style == 'pep440-pre':
        return z3.If(has, z3.If(dist == 0, tag, cat(tag, '.post.dev', d)), cat('0.post.dev', d))
    if style == 'pep440-post':
        return z3.If(has, z3.If(clean, tag, cat(tag, '.post', d, mark('.dev0'), plus, 'g', short)),
                     cat('0.post', d, mark('.dev0'), '+g', short))
    if style == 'pep440-old':
        return z3.If(has, z3.If(clean, tag, cat(tag, '.post', d, mark('.dev0'))), cat('0.post', d, mark('.dev0')))
    if style == 'git-describe':
        return z3.If(has, cat(z3.If(dist == 0, tag, cat(tag, '-', d, '-g', short)), mark('-dirty')),
                     cat(short, mark('-dirty')))
    if style == 'git-describe-long':
        return z3.If(has, cat(tag, '-', d, '-g', short, mark('-dirty')), cat(short, mark('-dirty')))


@contract('C18')
class Render(Contract):
    target = 'gcs._version.render'

    def cases(self, E):
        S = z3.StringSort()
        out = []
        for tagc in ('no tag', 'tag'):
            for err in ('', 'error '):
                for style in STYLES + ['default', '', None, '?']:
                    def build(tagc=tagc, err=err, style=style):
                        tag = E.fresh('tag', S) if tagc == 'tag' else None
                        dist = E.fresh('distance')
                        E.assume(dist >= 0)
                        p = [('closest-tag', tag), ('distance', dist), ('short', E.fresh('short', S)),
                             ('dirty', E.fresh('dirty', Bool)), ('error', E.fresh('error', S) if err else None),
                             ('long', E.fresh('long', S)), ('date', E.fresh('date', S))]
                        if err:
                            E.assume(dict(p)['error'] != z3s(''))
                        d = E.alloc(DictRec(tuple(p)))
                        st = style
                        if style == '?':
                            st = E.fresh('style', S)
                            for x in STYLES + ['default', '']:
                                E.assume(st != z3s(x))
                        self.p = dict(p)
                        return [d, st]
                    out.append((f'{err}{tagc}, style {style!r}', build))
        return out

    def exc(self, E, args, e):
        p, style = self.p, args[1]
        if e.etype == 'ValueError' and p['error'] is None and isinstance(style, z3.ExprRef):
            return True
        return False

    may_fail = True

    def post(self, E, args, r):
        p, style = self.p, args[1]
        pieces = dict(E.st.heap[args[0].id].items)
        yield 'the input is not changed', all(same_val(pieces.get(k), v) for k, v in p.items()) and len(pieces) == len(p)
        rec = E.st.heap[r.id] if isinstance(r, Ref) else None
        if not isinstance(rec, DictRec):
            yield 'a dictionary is returned', False
            return
        d = dict(rec.items)
        yield 'keys', set(d) == {'version', 'full-revisionid', 'dirty', 'error', 'date'}
        yield 'full revision', E.eq(d['full-revisionid'], p['long'])
        if p['error'] is not None:
            yield 'unknown version', E.eq(d['version'], 'unknown')
            yield 'error is passed on', E.eq(d['error'], p['error'])
            yield 'no dirty flag', d['dirty'] is None
            yield 'no date', d['date'] is None
            return
        if isinstance(style, z3.ExprRef):
            yield 'an unsupported style is refused', False
            return
        st = style if style in STYLES else 'pep440'
        want = expected(p['closest-tag'], p['distance'], p['short'], p['dirty'], st)
        yield 'no error', d['error'] is None
        yield 'version', E.eq(d['version'], want)
        yield 'dirty flag', E.eq(d['dirty'], p['dirty'])
        yield 'date', E.eq(d['date'], p['date'])
