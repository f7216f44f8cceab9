"""C21: URIs compare, hash, resolve and validate per RFC 3986."""
import itertools
import re

import rfc3986
from jschon import URI
from jschon.exc import URIError

import evalcheck
import refuri

MEANING = ('states: distinct (resolved) URI texts; transitions: operations of the RFC 3986 reference model; traces: results of '
           'the real URI class compared with the model')
BOUNDS = {
    'quick': 'every reference of 4 schemes x 3 authorities x 33 paths x 3 queries x 3 fragments resolved against every base of 2 schemes '
             'x 3 authorities x 33 paths x 2 queries (legal combinations); all pairs of some 560 spellings for equality and hashing; 4^5 copy() arguments and '
             'all 16 validate() option sets for each of 120 URIs; every spelling of 40 identifiers as catalog key',
    'thorough': 'as quick, with 5 x 5 x 33 x 3 x 4 components for references and 4 x 5 x 33 x 3 for bases'}
ASSUMPTIONS = ['URI texts contain only characters RFC 3986 allows, and no empty authority (the rfc3986 library drops it)',
               'a reference whose scheme equals that of the base may be resolved as a reference without scheme (RFC 3986 5.2.2, '
               'backward compatibility), or strictly']

S = [None, 'http', 'urn', 'HTTP', 'tag', 'x+1.a-b']
A = [None, 'h', 'H:8', 'u@h', '[::1]', '1.2.3.4']
P = ['', '/', 'a', 'a/b', '/a', '/a/', './a', '../a', 'a/..', '.', '..', './', '../', '/..', '/a/../b', 'a/./b', '/a/b/c', 'a%2fb',
     'a%2Fb', '%41', '/a//b', 'a/', '../../g', '/a/b;p', 'a:b', '~a.b', '/.a', '/..a', 'a..', '...', '/@:$&+,=', '/a/b/..', 'A']
Q = [None, '', 'q', 'q=/?x', 'a/../b']
F = [None, '', 'f', '/a/b', '%2f', '%2F', 'a/../b']


def legal(s, a, p):
    if a is not None:
        return p == '' or p[0] == '/'
    if p.startswith('//'):
        return False
    return not (s is None and ':' in p.split('/')[0])


def texts(ns, na, nq, nf, absolute=False):
    for s in S[absolute:ns]:
        for a in A[:na]:
            for p in P:
                if legal(s, a, p):
                    for q in Q[:nq]:
                        for f in F[:nf]:
                            yield refuri.join(s, a, p, q, f)


def cases(tier):
    deep = tier == 'thorough'
    r = (5, 5, 3, 4) if deep else (4, 3, 3, 3)
    for b in texts(5 if deep else 3, 5 if deep else 3, 3 if deep else 2, 1, True):
        yield ['resolve', b, r]
    for b in RFC_BASES:
        yield ['rfc', b]
    n = len(spellings())
    for i in range(0, n, 7):
        yield ['eq', i]
    for u in few():
        yield ['copy', u]
        yield ['validate', u]
        yield ['parts', u]
    yield ['other']
    for i in range(len(IDS)):
        yield ['key', i]


RFC_BASES = ['http://a/b/c/d;p?q', 'http://a', 'http://a/', 'http://a/b', 'http://a/b/', 'http://a/b/c/d;p', 'http://a?q',
             'file:/a/b/c', 'http://a/b/c/d;p?q=1/2', 'http://a/b/c//d;p?q', 'https://u:p@h.example:8080/a/b', 'x://[::1]/a/b']
RFC_REFS = ['g:h', 'g', './g', 'g/', '/g', '//g', '?y', 'g?y', '#s', 'g#s', 'g?y#s', ';x', 'g;x', 'g;x?y#s', '', '.', './', '..', '../',
            '../g', '../..', '../../', '../../g', '../../../g', '../../../../g', '/./g', '/../g', 'g.', '.g', 'g..', '..g',
            './../g', './g/.', 'g/./h', 'g/../h', 'g;x=1/./y', 'g;x=1/../y', 'g?y/./x', 'g?y/../x', 'g#s/./x', 'g#s/../x', 'http:g',
            'http://h/../x', '//h/a/../x', '?', '#', '?#', 'g?', 'g#', './g:h', '%2e%2e/g', 'g/%2E/h']


# --- the deviations of the rfc3986 library that are recorded as findings ------------------------------------
def lib_dots(s):
    out = []
    for seg in s.split('/'):
        if seg == '..':
            del out[-1:]
        elif seg != '.':
            out.append(seg)
    if s.startswith('/') and (not out or out[0]):
        out.insert(0, '')
    if s.endswith(('/.', '/..')):
        out.append('')
    return '/'.join(out)


def lib_resolve(base, ref, lenient):
    """Resolution with the two known deviations only: dot segments that climb to the root, or in a rootless path, and merging
    with a base that has neither authority nor slash."""
    bs, ba, bp, bq, _ = refuri.split(base)
    s, a, p, q, f = refuri.split(ref)
    bp = lib_dots(bp)
    keys = []

    def dots(path):
        got = lib_dots(path)
        if got != refuri.remove_dots(path):
            keys.append('rootless-dots' if not path.startswith('/') else 'dots-to-root')
        return got
    if s is not None and not (lenient and s.lower() == bs.lower()):
        return refuri.join(s, a, dots(p), q, f), keys
    if a is not None:
        return refuri.join(bs, a, dots(p), q, f), keys
    if p == '':
        if bp != refuri.remove_dots(refuri.split(base)[2]):
            keys.append('rootless-dots')
        return refuri.join(bs, ba, bp, q if q is not None else bq, f), keys
    if not p.startswith('/'):
        if ba is None and '/' not in bp:
            keys.append('merge-without-slash')
            p = re.sub('%..', lambda m: m.group().upper(), bp)[:-1] + '/' + p
        elif ba is not None and bp == '':
            p = '/' + p
        else:
            p = bp[:bp.rfind('/') + 1] + p
    return refuri.join(bs, ba, dots(p), q, f), keys


def resolve(base, B, ref, ctx):
    got = str(URI(ref).resolve(B))
    ctx.step()
    ctx.trace()
    n = refuri.normalize(got)
    if n == refuri.normalize(refuri.resolve(base, ref)):
        return got
    # the base may be normalized first (RFC 3986 5.2.1), and the scheme be disregarded
    b2 = refuri.normalize(base)
    same = refuri.split(ref)[0] is not None and refuri.split(ref)[0].lower() == refuri.split(base)[0].lower()
    alts = [refuri.resolve(b2, ref)]
    if same:
        alts += [refuri.resolve(b, (None,) + refuri.split(ref)[1:]) for b in (base, b2)]
    if any(n == refuri.normalize(x) for x in alts):
        return got
    key = None
    for lenient in ([True, False] if same else [False]):
        dev, keys = lib_resolve(base, ref, lenient)
        if keys and refuri.normalize(dev) == n:
            key = keys[0]
            break
    ctx.violation(f'{ref!r} resolved against {base!r} gives {got!r}, RFC 3986 says {refuri.resolve(base, ref)!r}', key)
    return got


def spellings():
    out = []
    for s in (None, 'http', 'HTTP', 'urn'):
        for a in (None, 'h', 'H', 'h:8', 'u@h', 'U@h'):
            if s == 'urn' and a or s is None and a not in (None, 'h', 'H'):
                continue
            for p in ('', '/', '/a', '/A', '/a/./b', '/a/b', '/a%2fb', '/a%2Fb', 'a'):
                if not legal(s, a, p):
                    continue
                for q in (None, 'q'):
                    for f in (None, '', 'f', '%2f', '%2F'):
                        if q and f in ('%2F', '') or a in ('U@h', 'h:8') and f or p in ('/', '/A') and f:
                            continue
                        out.append(refuri.join(s, a, p, q, f))
    return list(dict.fromkeys(out))


def normal_form(t):
    s, a, p, q, f = refuri.split(t)
    return refuri.normalize(refuri.join(s, a, refuri.remove_dots(p) if p.startswith('/') else p, q, f))


def few():
    out = []
    for s in (None, 'http', 'urn'):
        for a in (None, 'h', 'u@H:8'):
            for p in ('', '/', '/a/b', '/a/../b', 'a'):
                if legal(s, a, p):
                    for q in (None, '', 'q'):
                        for f in (None, '', '/f%2f'):
                            out.append(refuri.join(s, a, p, q, f))
    return out


IDS = [('http://h/a', ['HTTP://h/a', 'http://H/a', 'http://h/./a', 'http://h/b/../a'], ['http://h/A', 'http://h/a/', 'http://h/a?', 'http://h/a#',
                                                                                    'http://h/a#f', 'http://h:8/a', 'https://h/a',
                                                                                    'http://u@h/a', 'http://h/a%2F', '/a', 'a']),
       ('http://h/a%2fb', ['http://h/a%2Fb', 'HTTP://H/a%2Fb'], ['http://h/a/b', 'http://h/a%2Eb', 'http://h/a%252fb']),
       ('urn:x:y', ['URN:x:y'], ['urn:X:y', 'urn:x:y#', 'urn:x:y?', 'urn:x', 'urn:x:', 'tag:x:y']),
       ('http://h/a#f', ['http://H/a#f'], ['http://h/a#F', 'http://h/a', 'http://h/a#', 'http://h/a?f', 'http://h/a#f%20']),
       ('http://h/?q=%c3%a9', ['http://h/?q=%C3%A9', 'Http://h/?q=%C3%a9'], ['http://h?q=%c3%a9', 'http://h/?q=%c3%a8', 'http://h/?Q=%c3%a9'])]


def parts_of(text):
    s, a, p, q, f = refuri.split(text)
    return s, a, p or None, q, f


def parts(text, ctx):
    u = URI(text)
    ctx.trace()
    ctx.state(text)
    got = (u.scheme, u.authority, u.path, u.query, u.fragment)
    ctx.check(got == parts_of(text), f'components of {text!r}: {got!r}')
    ctx.check(str(u) == text and len(u) == len(text) and repr(u) == f'URI({text!r})', f'text of URI({text!r}): {u!s} {len(u)} {u!r}')
    s, a, p, q, f = refuri.split(text)
    if s is None or a is not None or p:     # the library does not take a scheme alone for a URI
        ctx.check(u.is_absolute() is (s is not None and f is None), f'{text!r}.is_absolute() = {u.is_absolute()}')
        ctx.check(u.has_absolute_base() is (s is not None), f'{text!r}.has_absolute_base() = {u.has_absolute_base()}')
    ctx.check(eval(repr(u), {'URI': URI}) == u, f'{text!r}: repr does not evaluate to an equal URI')
    ctx.outcome(tuple(x is not None for x in got))


class Odd:
    def __eq__(self, other):
        return NotImplemented


class Yes:
    __hash__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Text(str):
    pass


def run_case(case, ctx):
    kind = case[0]
    if kind in ('resolve', 'rfc'):
        base = case[1]
        B = URI(base)
        refs = texts(*case[2]) if kind == 'resolve' else RFC_REFS
        for r in refs:
            before = str(B)
            got = resolve(base, B, r, ctx)
            ctx.state(got)
        ctx.check(str(B) == before == base, f'resolving against {base!r} changed it to {B}')
        ctx.outcome(got[:12])
    elif kind == 'eq':
        sp = spellings()
        us = [URI(t) for t in sp]
        ns = [normal_form(t) for t in sp]
        for i in range(case[1], min(case[1] + 7, len(sp))):
            for j in range(len(sp)):
                e = us[i] == us[j]
                ctx.step()
                ctx.trace()
                ctx.check(type(e) is bool and (us[j] == us[i]) is e and (us[i] != us[j]) is (not e),
                          f'{sp[i]!r} and {sp[j]!r}: comparison is not a symmetric bool')
                want = ns[i] == ns[j]
                ctx.check(e == want, f'{sp[i]!r} == {sp[j]!r} is {e}')
                if e:
                    ctx.check(hash(us[i]) == hash(us[j]), f'{sp[i]!r} and {sp[j]!r} are equal but have different hashes')
                ctx.check((us[i] == sp[j]) is want and (sp[j] == us[i]) is want,
                          f'URI({sp[i]!r}) compared with the text {sp[j]!r}')
                ctx.outcome(e)
            ctx.state(ns[i])
            for g in (us[i].copy(), URI(sp[i]), us[i].copy(fragment='zz').copy(fragment=us[i].fragment)):
                ctx.check(g == us[i] and hash(g) == hash(us[i]), f'{sp[i]!r}: a copy differs from it')
    elif kind == 'parts':
        parts(case[1], ctx)
    elif kind == 'copy':
        text = case[1]
        u = URI(text)
        orig = parts_of(text)
        new = ('n', 'n', '/n', 'n', 'n')
        for pick in itertools.product((True, False, None, 'new'), repeat=5):
            args = [n if c == 'new' else c for c, n in zip(pick, new)]
            want = tuple(o if c is True else n if c == 'new' else None for c, o, n in zip(pick, orig, new))
            ctx.step()
            ctx.trace()
            c = u.copy(**dict(zip(('scheme', 'authority', 'path', 'query', 'fragment'), args)))
            got = (c.scheme, c.authority, c.path, c.query, c.fragment)
            ctx.check(got == want, f'{text!r}.copy{tuple(args)!r} has components {got!r}, expected {want!r}')
            t = refuri.join(want[0], want[1], want[2] or '', want[3], want[4])
            ctx.check(str(c) == t, f'{text!r}.copy{tuple(args)!r} is {c!s}, expected {t}')
            ctx.state(t)
            ctx.check(str(u) == text, f'copy() changed {text!r} to {u}')
            if pick.count(True) >= 3 and None not in pick and False not in pick:
                # an empty query or fragment is not an absent one
                args2 = ['' if c == 'new' and i > 2 else a for i, (c, a) in enumerate(zip(pick, args))]
                want2 = [o if c is True else a for c, o, a in zip(pick, orig, args2)]
                c = u.copy(**dict(zip(('scheme', 'authority', 'path', 'query', 'fragment'), args2)))
                ctx.step()
                t2 = refuri.join(want2[0], want2[1], want2[2] or '', want2[3], want2[4])
                ctx.check(str(c) == t2, f'{text!r}.copy{tuple(args2)!r} is {c!s}, expected {t2}')
            if pick.count(True) == 4:
                i = [k for k in range(5) if pick[k] is not True][0]
                name = ('scheme', 'authority', 'path', 'query', 'fragment')[i]
                ctx.check(str(u.copy(**{name: args[i]})) == t, f'{text!r}.copy({name}={args[i]!r}): the default of another argument')
        ctx.outcome(sum(x is not None for x in orig))
    elif kind == 'validate':
        text = case[1]
        s, a, p, q, f = refuri.split(text)
        normal = text == refuri.join(s, a and a.rpartition('@')[0] + a.rpartition('@')[1] + a.rpartition('@')[2].lower(),
                            lib_dots(p), q, f and f.replace('%2f', '%2F'))
        for opts in itertools.product((None, True, False), repeat=4):
            kw = {n: v for n, v in zip(('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment'), opts)
                  if v is not None}
            rs, rn = bool(opts[0]), bool(opts[1])
            af, anf = opts[2] is not False, opts[3] is not False
            want = not (rs and s is None) and not (rn and not normal) and not (not af and f is not None) and not (not anf and f)
            ctx.step()
            ctx.trace()
            u = URI(text)
            try:
                r = u.validate(**kw)
                got = True
                ctx.check(r is None, f'validate() returns {r!r}')
            except URIError:
                got = False
            ctx.outcome(got)
            ctx.check(got is want, f'{text!r}.validate({kw}) {"accepts" if got else "rejects"}')
        ctx.state(text)
    elif kind == 'other':
        for t in ('a', 'http://h/a', '', 'http://h/a#f'):
            u = URI(t)
            for o in [None, 0, 1, 1.5, True, False, [], {}, (), b'a', 'a', '\ud800', 'http://h/\udfff', 'http://[', 'http://h:x', 'http://a b',
                      ('a',) * 5, (None, None, 'a', None, None), ('http', 'h', '/a', None, None), (1, 2), object(), URI, str,
                      'a\n', '%', '%zz', '\xe9', '1a:b', 'a:b:c', '://', '//', ':', '#', '?', Odd(), Text(t), 10 ** 30, float('nan'),
                      {'a': 1}, {'a'}, frozenset(), range(3), lambda: 0, Exception, rfc3986.uri_reference(t), rfc3986.uri_reference('zz')]:
                ctx.step()
                ctx.trace()
                try:
                    e, ne = u == o, u != o
                    r = (o == u) if not isinstance(o, rfc3986.URIReference) else e
                except Exception as x:
                    ctx.violation(f'comparing URI({t!r}) with {o!r} raises {x!r}')
                    continue
                ctx.check(type(e) is bool and ne is (not e) and r == e, f'URI({t!r}) == {o!r}: {e}, !=: {ne}, reversed: {r}')
                want = o.unsplit() == t if isinstance(o, rfc3986.URIReference) else isinstance(o, str) and o == t
                if o != '//' or t:
                    ctx.check(e is want, f'URI({t!r}) == {o!r} is {e}')
                ctx.state((t, repr(type(o)), e))
                ctx.outcome(e)
            ctx.check((u == Yes()) is True or (u == Yes()) is False, 'comparison with an object equal to everything')
            for coll in ([None, 1, u], (u, []), {u: 1}, {u}):
                ctx.check(URI(t) in coll, f'URI({t!r}) not found in {coll!r}')
    elif kind == 'key':
        same, others = [IDS[case[1]][0]] + IDS[case[1]][1], IDS[case[1]][2]
        cat = evalcheck.Bench('2020-12').catalog
        for i, t in enumerate(same):
            marker = {}
            kid = f'k{i}'
            from jschon import JSONSchema
            sch = JSONSchema({'$schema': 'https://json-schema.org/draft/2020-12/schema'}, catalog=cat)
            cat.add_schema(URI(t), sch, cacheid=kid)
            voc = cat.create_vocabulary(URI(t))
            for t2 in same:
                ctx.step()
                ctx.trace()
                ctx.state((t, t2))
                ctx.check(cat.get_schema(URI(t2), cacheid=kid) is sch, f'{t2!r} does not find the schema stored under {t!r}')
                ctx.check(cat.get_vocabulary(URI(t2)) is voc, f'{t2!r} does not find the vocabulary created under {t!r}')
            for t2 in others:
                ctx.trace()
                try:
                    cat.get_vocabulary(URI(t2))
                    ctx.violation(f'{t2!r} finds the vocabulary created under {t!r}')
                except Exception as x:
                    ctx.outcome(type(x).__name__)
                if '#' not in t2:
                    try:
                        if cat.get_schema(URI(t2), cacheid=kid) is sch:
                            ctx.violation(f'{t2!r} finds the schema stored under {t!r}')
                    except Exception as x:
                        ctx.outcome(type(x).__name__)
            other = JSONSchema({'$schema': 'https://json-schema.org/draft/2020-12/schema'}, catalog=cat)
            for t2 in same:      # the same key is overwritten and deleted whatever its spelling
                cat.add_schema(URI(t2), other, cacheid=kid)
                ctx.check(cat.get_schema(URI(t), cacheid=kid) is other, f'storing under {t2!r} did not replace the schema under {t!r}')
                cat.add_schema(URI(t), sch, cacheid=kid)
            cat.add_schema(URI('http://other/x'), other, cacheid=kid)
            for t2 in same:
                cat.add_schema(URI(t), sch, cacheid=kid)
                cat.del_schema(URI(t2), cacheid=kid)
                try:
                    found = cat.get_schema(URI(t), cacheid=kid) is sch
                except Exception:
                    found = False
                ctx.check(not found, f'deleting {t2!r} did not remove the schema stored under {t!r}')
