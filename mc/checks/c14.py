"""C14: JSON Pointer text, keys and URI fragments convert without loss."""
import itertools
import re
import sys
import urllib.parse

import sizes
from jschon import JSONPointer
from jschon.exc import JSONPointerMalformedError

MEANING = ('states: distinct key sequences / candidate strings (reference model states); transitions: pointer '
           'operations applied to the reference tuple model; traces: real pointers built and compared with the model')
BOUNDS = {
    'quick': 'all key sequences of length <=2 over 46 keys and <=4 over 7 keys; every string of length <=6 over 9 '
             'characters and <=4 over 14; every fragment of length <=4 over 8 fragments; every operator program of depth <=3 '
             'over 14 operations; all pairs of 121 sequences for the relations; pointers of n keys and of keys of n characters at 32 sizes n up to 1025',
    'thorough': 'as quick, with key sequences of length <=3 over 46 keys and <=5 over 7, strings of length <=7 over 9 characters '
                'and <=5 over 14, programs of depth <=4'}
ASSUMPTIONS = ['keys are Unicode strings without lone surrogates (RFC 6901)']

KEYS = ['', 'a', '~', '/', '~0', '~1', '~01', '~10', '~~', '//', '/a', 'a/', '~a', '%', '%25', '%2F', '%7E', '#', '?', '"',
        '\\', ' ', '\xe9', 'e\u0301', '\U0001f600', '0', '01', '-', '^', '|', '+', '&', "'", '\x00', '\n', 'A', '.', '..',
        '@', ':', '[', ']', '=', '\u2028', '10', 'a b']
FEW = ['', 'a', '~1', '/', '%', '0', '~']
CH1 = ['/', '~', '0', '1', 'a', '2', '\n', '%', ' ']
CH2 = CH1 + ['-', '\xe9', '#', '"', '\\']
PCT = ['/', '~', '%7E', '%7e', '%2F', '0', '1', 'a%C3%A9']
FRAG = re.compile(r"(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/?]|%[0-9A-Fa-f]{2})*")


def esc(k):
    return ''.join({'~': '~0', '/': '~1'}.get(c, c) for c in k)


def text_of(keys):
    return ''.join('/' + esc(k) for k in keys)


def parse(s):
    """The RFC 6901 grammar: the key tuple, or None."""
    if s == '':
        return ()
    if s[0] != '/':
        return None
    out = []
    for tok in s[1:].split('/'):
        k, i = '', 0
        while i < len(tok):
            if tok[i] == '~':
                if i + 1 >= len(tok) or tok[i + 1] not in '01':
                    return None
                k += '~' if tok[i + 1] == '0' else '/'
                i += 2
            else:
                k += tok[i]
                i += 1
        out.append(k)
    return tuple(out)


def cases(tier):
    deep = tier == 'thorough'
    for k in [None] + KEYS:
        yield ['keys', k, 3 if deep else 2]
    for k in FEW:
        yield ['few', k, 5 if deep else 4]
    for a in itertools.product(CH1, repeat=2):
        yield ['str', ''.join(a), 5 if deep else 4, 1]
    for a in CH2:
        yield ['str', a, 4 if deep else 3, 2]
    yield ['str', '', 1, 2]
    for a in [''] + PCT:
        yield ['frag', a, 3]
    seqs = _seqs()
    for i in range(len(seqs)):
        yield ['rel', i]
    for i in range(len(OPS)):
        yield ['prog', i, 4 if deep else 3]
    yield ['concat']
    yield ['long']
    for n in sizes.SIZES + sizes.LARGE:
        yield ['size', n]


def _seqs():
    ks = ['', 'a', '/', '~1', '~', 'a/b', '0', 'A', '%']
    out = [()] + [(k,) for k in ks] + list(itertools.product(ks, repeat=2))
    out += [('a', 'a', 'a'), ('a', '', 'a'), ('a', 'b', 'c', 'd'), ('', '', ''), ('a', 'b'), ('a', 'b', 'c'), ('ab',)]
    return out + [tuple(str(i) for i in range(12))]


def same(ctx, p, keys, what):
    keys = tuple(keys)
    ctx.trace()
    ctx.check(isinstance(p, JSONPointer), f'{what}: not a JSONPointer but {type(p).__name__}')
    got = tuple(p)
    ctx.check(got == keys, f'{what}: keys are {got!r}, expected {keys!r}')
    ctx.check(len(p) == len(keys) and str(p) == text_of(keys),
              f'{what}: text is {str(p)!r}, expected {text_of(keys)!r}')


def roundtrip(ctx, keys):
    keys = tuple(keys)
    ctx.state(('k', keys))
    p = JSONPointer(keys)
    same(ctx, p, keys, f'JSONPointer({keys!r})')
    t = text_of(keys)
    q = JSONPointer(t)
    same(ctx, q, keys, f'JSONPointer({t!r})')
    ctx.check(p == q and hash(p) == hash(q), f'{keys!r}: pointers from text and from keys differ')
    frag = p.uri_fragment()
    ctx.step(5)
    ctx.check(FRAG.fullmatch(frag) is not None, f'{keys!r}: {frag!r} is not a legal URI fragment')
    ctx.check(urllib.parse.unquote(frag, errors='strict') == t, f'{keys!r}: fragment {frag!r} does not decode to {t!r}')
    same(ctx, JSONPointer.parse_uri_fragment(frag), keys, f'parse_uri_fragment({frag!r})')
    alt = ''.join('%%%02x' % b for b in t.encode())
    same(ctx, JSONPointer.parse_uri_fragment(alt), keys, f'parse_uri_fragment({alt!r})')
    for k in keys:
        ctx.check(JSONPointer.unescape(JSONPointer.escape(k)) == k and JSONPointer.escape(k) == esc(k),
                  f'escape/unescape of {k!r}')
    same(ctx, p, keys, 'after conversions')
    ctx.outcome(len(frag))


def accept(ctx, s, maker, src, what):
    want = parse(s)
    ctx.state(('s', s))
    ctx.step()
    ctx.trace()
    try:
        p = maker(src)
    except JSONPointerMalformedError:
        ctx.outcome('rejected')
        ctx.check(want is None, f'{what}({src!r}) was rejected but is a valid pointer')
        return
    ctx.outcome(f'accepted {len(tuple(p))}')
    if ctx.check(want is not None, f'{what}({src!r}) was accepted but is malformed'):
        ctx.check(tuple(p) == want and str(p) == s, f'{what}({src!r}) has keys {tuple(p)!r}, expected {want!r}')


# the operator programs: each step maps (pointer, keys) to a new pair
OPS = [
    ('div', lambda p: p / 'a', lambda k: k + ('a',)),
    ('div-esc', lambda p: p / '~1', lambda k: k + ('~1',)),
    ('div-empty', lambda p: p / '', lambda k: k + ('',)),
    ('div-list', lambda p: p / ['x', '/y'], lambda k: k + ('x', '/y')),
    ('div-gen', lambda p: p / (c for c in ('1', '2')), lambda k: k + ('1', '2')),
    ('div-none', lambda p: p / (), lambda k: k),
    ('div-self', lambda p: p / p, lambda k: k + k),
    ('tail', lambda p: p[1:], lambda k: k[1:]),
    ('init', lambda p: p[:-1], lambda k: k[:-1]),
    ('rev', lambda p: p[::-1], lambda k: k[::-1]),
    ('all', lambda p: p[:], lambda k: k),
    ('cat', lambda p: JSONPointer(p, '/z~0', ('q',)), lambda k: k + ('z~', 'q')),
    ('wrap', lambda p: JSONPointer(p), lambda k: k),
    ('frag', lambda p: JSONPointer.parse_uri_fragment(p.uri_fragment()), lambda k: k),
]


def run_case(case, ctx):
    kind = case[0]
    if kind == 'keys':
        if case[1] is None:
            roundtrip(ctx, ())
            return
        for n in range(case[2]):
            for rest in itertools.product(KEYS, repeat=n):
                roundtrip(ctx, (case[1],) + rest)
    elif kind == 'few':
        for rest in itertools.product(FEW, repeat=case[2] - 1):
            roundtrip(ctx, (case[1],) + rest)
    elif kind == 'str':
        for n in range(case[2] + 1):
            for rest in itertools.product(CH1 if case[3] == 1 else CH2, repeat=n):
                s = case[1] + ''.join(rest)
                accept(ctx, s, JSONPointer, s, 'JSONPointer')
    elif kind == 'frag':
        for n in range(case[2] + 1):
            for rest in itertools.product(PCT, repeat=n):
                f = case[1] + ''.join(rest)
                accept(ctx, urllib.parse.unquote(f), JSONPointer.parse_uri_fragment, f, 'parse_uri_fragment')
    elif kind == 'rel':
        seqs = _seqs()
        a = seqs[case[1]]
        pa = JSONPointer(a)
        ctx.state(('r', a))
        for x in (5, None, 'a', ('a',), object()):
            ctx.check((pa == x) is False and (pa != x) is True, f'{pa!r} == {x!r}')
        for i in list(range(-len(a) - 2, len(a) + 2)):
            try:
                got = pa[i]
            except IndexError:
                got = IndexError
            try:
                want = a[i]
            except IndexError:
                want = IndexError
            ctx.check(got == want, f'{pa!r}[{i}] is {got!r}, expected {want!r}')
            ctx.step()
        idx = [None] + list(range(-len(a) - 1, len(a) + 2)) if len(a) < 4 else [None, 0, 1, -1, 3, -12, 20]
        for i, j, k in itertools.product(idx, idx, (None, 1, 2, -1, -2)):
            same(ctx, pa[i:j:k], a[i:j:k], f'{pa!r}[{i}:{j}:{k}]')
            ctx.step()
        ctx.check(tuple(reversed(pa)) == a[::-1], f'reversed({pa!r})')
        for b in seqs:
            pb = JSONPointer(text_of(b))
            ctx.step(7)
            ctx.trace()
            rel = dict(eq=pa == pb, ne=pa != pb, lt=pa < pb, le=pa <= pb, gt=pa > pb, ge=pa >= pb)
            pre = a == b[:len(a)]
            post = b == a[:len(b)]
            want = dict(eq=a == b, ne=a != b, lt=pre and a != b, le=pre, gt=post and a != b, ge=post)
            ctx.outcome(sorted(k for k in rel if rel[k]))
            ctx.check(rel == want, f'{pa!r} against {pb!r}: {rel}, expected {want}')
            if a == b:
                ctx.check(hash(pa) == hash(pb) and len({pa, pb}) == 1 and {pa: 1}[pb] == 1, f'hash of equal {pa!r}')
            same(ctx, JSONPointer(pa, pb), a + b, f'JSONPointer({pa!r}, {pb!r})')
            same(ctx, pa / pb, a + b, f'{pa!r} / {pb!r}')
        for k in set(itertools.chain(*seqs)):
            ctx.check((k in pa) == (k in a) and pa.count(k) == a.count(k), f'{k!r} in {pa!r}')
        same(ctx, pa, a, 'after comparisons')
    elif kind == 'prog':
        for start in ((), ('s',), ('~', '/', '')):
            program(ctx, [(JSONPointer(start), start)], [], OPS[case[1]], case[2])
    elif kind == 'concat':
        parts = [('str', '/a~1/b', ('a/', 'b')), ('str', '', ()), ('ptr', JSONPointer('/p'), ('p',)), ('tuple', ('x', '~'), ('x', '~')),
                 ('list', ['/'], ('/',))]
        for n in range(4):
            for combo in itertools.product(parts, repeat=n):
                args = [c[1] for c in combo]
                want = tuple(itertools.chain(*[c[2] for c in combo]))
                ctx.state(('c', want))
                ctx.step()
                same(ctx, JSONPointer(*args), want, f'JSONPointer{tuple(args)!r}')
        keys = ['a', 'b']
        p = JSONPointer(keys)
        q = p / keys
        keys.append('c')
        same(ctx, p, ('a', 'b'), 'pointer after its source list changed')
        same(ctx, q, ('a', 'b', 'a', 'b'), 'pointer after its suffix list changed')
        for bad in (5, None, 1.5):
            try:
                JSONPointer(bad)
            except TypeError:
                continue
            ctx.violation(f'JSONPointer({bad!r}) was accepted')
    elif kind == 'size':
        n = case[1]
        for pool in (['a'], ['', '~'], KEYS, [str(i) for i in range(n)]):
            keys = tuple(pool[i % len(pool)] for i in range(n))
            roundtrip(ctx, keys)
            p = JSONPointer(keys)
            same(ctx, JSONPointer() / keys, keys, 'built by /')
            q, k = JSONPointer(), 0
            for k in keys:
                q = q / k
            same(ctx, q, keys, f'built by {n} steps')
            ctx.check(hash(p) == hash(q) == hash(JSONPointer(text_of(keys))), f'hashes of equal pointers of {n} keys differ')
            for i in (0, 1, n // 2, n - 2, n - 1, n):
                same(ctx, p[i:], keys[i:], f'[{i}:] of {n} keys')
                same(ctx, p[:i], keys[:i], f'[:{i}] of {n} keys')
                same(ctx, p[i:] / p[:i], keys[i:] + keys[:i], f'[{i}:] / [:{i}] of {n} keys')
                ctx.check((p[i] if i < n else None) == (keys[i] if i < n else None), f'[{i}] of {n} keys') if i < n else None
            others = [keys[:-1], keys + ('z',), keys[:-1] + ('z',), ('z',) + keys[1:], keys[:n // 2] + ('z',) + keys[n // 2 + 1:], keys[:n // 2], keys[1:], keys, keys + keys]
            for a, b in itertools.product(others, repeat=2):
                pa, pb = JSONPointer(a), JSONPointer(b)
                ctx.step(6)
                pre, post = a == b[:len(a)], b == a[:len(b)]
                rel = [pa == pb, pa != pb, pa < pb, pa <= pb, pa > pb, pa >= pb]
                ctx.check(rel == [a == b, a != b, pre and a != b, pre, post and a != b, post], f'pointers of {len(a)} and {len(b)} keys, from {str(a[:3])}, {str(b[:3])}: relations {rel}')
        for c in ('a', '~', '/', '%', '\xe9', '\U0001f600', '~1'):
            roundtrip(ctx, (c * n,))
            roundtrip(ctx, ('x', c * (n - 1) + '~', c * n, ''))
            for s in ('/' + c * n, '/' + esc(c) * n, '/' + esc(c) * n + '/', '/' * n, c * n, '/' + esc(c) * n + '~', '/' + esc(c) * n + '~2', '~2' + '/' * n, '/~2' + '/a' * n, '/a' * n + '~', '/a' * n + '/~2/b'):
                accept(ctx, s, JSONPointer, s, 'JSONPointer')
    elif kind == 'long':
        for k in KEYS:
            roundtrip(ctx, (k,) * 40)
        roundtrip(ctx, tuple(KEYS))
        roundtrip(ctx, tuple(str(i) for i in range(300)))


def program(ctx, made, names, op, depth):
    """Depth-first over all operator programs; every pointer made on the way must stay as it was."""
    p, k = made[-1]
    q, qk = op[1](p), op[2](k)
    names = names + [op[0]]
    ctx.step()
    ctx.state(('p', qk))
    same(ctx, q, qk, f'{"; ".join(names)} from {made[0][1]!r}')
    hs = hash(q)
    made = made + [(q, qk)]
    if depth > 1 and len(qk) < 12:
        for nxt in OPS:
            program(ctx, made, names, nxt, depth - 1)
    for r, rk in made:
        ctx.check(tuple(r) == rk, f'{"; ".join(names)}: an earlier pointer changed from {rk!r} to {tuple(r)!r}')
    ctx.check(hash(q) == hs, f'{"; ".join(names)}: the hash changed')
