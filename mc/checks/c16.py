"""C16: relative JSON Pointers locate exactly the specified node, key or index."""
import itertools

from jschon import JSON, JSONPointer, RelativeJSONPointer
from jschon.exc import RelativeJSONPointerMalformedError, RelativeJSONPointerReferenceError

import sizes
from checks.c14 import parse
from gen import NOWHERE, canon_index, exact, nodes, ptr_get

MEANING = ('states: distinct (document, start path, relative pointer) triples and candidate strings; transitions: reference steps '
           '(up, over, pointer tokens); traces: real constructions or evaluations compared with the reference')
BOUNDS = {
    'quick': 'every string of length <=6 over 9 characters as relative pointer text; up 0..5 and 10, over in -12..12 (11 values), 24 tails, '
             'every start node of 12 documents; over to and around every end of arrays of 36 sizes up to 9999, up 0..d+3 in documents d <= 150 deep; every keyword form',
    'thorough': 'strings of length <=7; over in -13..13; tails of length <=3 over 10 tokens'}
CH = ['0', '1', '2', '+', '-', '#', '/', '~', 'a']
DOCS = [
    {'a': [{'b': 1, 'c': [2, 3]}, [4, [5, 6]], 'abc'], 'b': {'0': {'1': 'x'}, '-1': 7, '': {'': 8}}},
    [[0, 1, 2], [3], [], {'a': [4, 5]}],
    list(range(13)),
    {'x': [[i] for i in range(12)], '10': {'11': [1, 2]}},
    {'~': {'/': [0, {'a/b': 1, '~1': 2}]}, '': ['', {'': [None]}], '%': [1]},
    5, 'abc', None, [], {},
    [[[[1, 2], [3, 4]], [[5, 6], [7, 8]]], [[[9]]]],
    {'0': [10, 11], '1': {'0': 12, '1': 13}, '2': 'z'},
]
TAILS = ['#', '', '/', '/0', '/1', '/a', '/b', '/c', '/-', '/-1', '/00', '/10', '/~0', '/~1', '//', '/0/0', '/c/1', '/1/0', '/b/0/1', '/a~1b',
         '/1/1', '/11', '/2', '/x/11/0', '/1\u0661', '/1\n']


def grammar(s):
    """(up, over, ref) or None; ref is a key tuple or '#'."""
    i = 0
    while i < len(s) and s[i] in '0123456789':
        i += 1
    # the longest digit run must be a canonical number: a pointer tail cannot begin with a digit
    up = canon_index(s[:i])
    if up is None:
        return None
    over = 0
    if i < len(s) and s[i] in '+-':
        j = i + 1
        while j < len(s) and s[j] in '0123456789':
            j += 1
        n = canon_index(s[i + 1:j])
        if not n:
            return None
        over = n if s[i] == '+' else -n
        i = j
    if s[i:] == '#':
        return up, over, '#'
    keys = parse(s[i:])
    return None if keys is None else (up, over, keys)


def ref_eval(doc, path, up, over, ref):
    """NOWHERE, ('key', k), ('index', i) or ('node', path)"""
    if up > len(path):
        return NOWHERE
    path = path[:len(path) - up]
    if over:
        if not path:
            return NOWHERE
        parent = ptr_get(doc, path[:-1])
        if not isinstance(parent, list):
            return NOWHERE
        i = int(path[-1]) + over
        if not 0 <= i < len(parent):
            return NOWHERE
        path = path[:-1] + (str(i),)
    if ref == '#':
        if not path:
            return NOWHERE
        return ('index', int(path[-1])) if isinstance(ptr_get(doc, path[:-1]), list) else ('key', path[-1])
    if ptr_get(doc, path + ref) is NOWHERE:
        return NOWHERE
    return 'node', path + ref


def cases(tier):
    deep = tier == 'thorough'
    for a in itertools.product(CH, repeat=2):
        yield ['str', ''.join(a), 5 if deep else 4]
    yield ['short']
    yield ['odd']
    for d in range(len(DOCS)):
        for up in [0, 1, 2, 3, 4, 5, 10]:
            yield ['eval', d, up, deep]
    for n in sizes.SIZES + sizes.LARGE + sizes.HUGE[:4]:
        yield ['size', n]
    for n in sizes.DEPTH + [100, 150]:
        yield ['depth', n]
    for up in (0, 1, 2, 3, 10):
        yield ['kw', up]
    yield ['badkw']


def accept(ctx, s):
    want = grammar(s)
    ctx.state(s)
    ctx.step()
    ctx.trace()
    try:
        r = RelativeJSONPointer(s)
    except RelativeJSONPointerMalformedError:
        ctx.outcome('rejected')
        return ctx.check(want is None, f'{s!r} was rejected but is a valid relative pointer')
    ctx.outcome('accepted')
    if ctx.check(want is not None, f'{s!r} was accepted but is malformed'):
        up, over, ref = want
        ctx.check(str(r) == s, f'{s!r} is rendered as {str(r)!r}')
        k = RelativeJSONPointer(up=up, over=over, ref='#' if ref == '#' else JSONPointer(ref))
        ctx.check(k == r and not (k != r) and hash(k) == hash(r) and str(k) == s, f'{s!r} differs from its keyword form {k!r}')


def run_case(case, ctx):
    kind = case[0]
    if kind == 'str':
        for n in range(case[2] + 1):
            for rest in itertools.product(CH, repeat=n):
                accept(ctx, case[1] + ''.join(rest))
    elif kind == 'short':
        for s in [''] + CH:
            accept(ctx, s)
    elif kind == 'odd':
        for s in ['0\n', '0#\n', '0/\n', '\n0', ' 0', '0 ', '\u0661', '0+\u0661', '1\u0661', '1\u0660/a', '0+1\u0661', '0-1\uff10', '+1', '-1', '1_0', '0.0', '1e1', '0/a~', '0/~01', '10+10#', '100-20/x',
                  '0##', '#', '/a', '0#/a', '0/#', '0/a#', '0+1#', '0++1', '0+-1', '0+01', '0-0', '0+0', '00', '0+1/~2', '\xb2', '0x1', '12-3', '0+10/0',
                  '99999999999999999999/a', '0-99999999999999999999#']:
            accept(ctx, s)
    elif kind == 'kw':
        up = case[1]
        made = {}
        for over in range(-3, 4):
            for t in TAILS:
                ref = '#' if t == '#' else JSONPointer(t)
                k = RelativeJSONPointer(up=up, over=over, ref=ref)
                text = f'{up}{"%+d" % over if over else ""}{t}'
                r = RelativeJSONPointer(text)
                ctx.state(('kw', text))
                ctx.step()
                ctx.trace(2)
                ctx.check(str(k) == text and k == r and hash(k) == hash(r), f'keyword form {up, over, t} gives {str(k)!r}, expected {text!r}')
                made[text] = r
        for (a, x), (b, y) in itertools.product(made.items(), repeat=2):
            ctx.step()
            ctx.check((x == y) == (a == b), f'{a!r} == {b!r} is {x == y}')
        for a, x in made.items():
            for other in (a, 5, None, JSONPointer(), object()):
                ctx.check(not x == other and x != other, f'{a!r} equals {other!r}')
        ctx.check(str(RelativeJSONPointer(up=up)) == str(up), 'default keyword arguments')
    elif kind == 'badkw':
        for kw in [dict(up=-1), dict(up=-1, ref='#'), dict(ref='foo'), dict(ref='/a'), dict(ref=''), dict(up=-2, over=1)]:
            ctx.step()
            ctx.trace()
            try:
                r = RelativeJSONPointer(**kw)
            except RelativeJSONPointerMalformedError:
                ctx.outcome('rejected kw')
            else:
                ctx.violation(f'RelativeJSONPointer({kw!r}) was accepted as {str(r)!r}')
    elif kind == 'size':
        n = case[1]
        at = sorted({0, 1, 9, 10, n // 2, n - 2, n - 1} & set(range(n)))
        for doc, pre, post in (([[i] for i in range(n)], (), ()), ({'a': [{'b': [i]} for i in range(n)]}, ('a',), ('b', '0'))):
            root = JSON(doc)
            for i in at:
                start = pre + (str(i),) + post
                node = ptr_live(root, start)
                for over in sorted({j - i for j in at + [-1, n, n + 1]} | {10, -10, 100, 1000, 10 ** 20}):
                    for up in (len(post), len(post) + 1):
                        for tail in ('#', '', '/0', f'/{n - 1}', f'/{n}', '/b/0'):
                            located(ctx, doc, root, node, start, up, over, tail, n)
    elif kind == 'depth':
        n = case[1]
        for k, wrap in (('1', lambda x: ['s', x, [2]]), ('a', lambda x: {'a': x, '0': 's'})):
            doc, start = ['end', 'after'], ('0',)
            for _ in range(n):
                doc, start = wrap(doc), (k,) + start
            root = JSON(doc)
            for cut in sorted({0, 1, 2, n // 2, n, n + 1}):
                s = start[:cut]
                node = ptr_live(root, s)
                for up in range(n + 4):
                    for over in (0, 1, -1):
                        for tail in ('#', '', f'/{k}', '/0', '/2/0'):
                            located(ctx, doc, root, node, s, up, over, tail, n)
    else:
        evaluate(ctx, case[1], case[2], case[3])


def ptr_live(root, path):
    for k in path:
        root = root[int(k)] if root.type == 'array' else root[k]
    return root


def located(ctx, doc, root, node, path, up, over, tail, n):
    text = f'{up}{"%+d" % over if over else ""}{tail}'
    want = ref_eval(doc, path, up, over, '#' if tail == '#' else parse(tail))
    ctx.state((len(path), n, path[:3], text))
    ctx.step(up + 2)
    ctx.trace()
    where = f'{text!r} from {str(path)[:200]} of a document of size or depth {n}'
    try:
        got = RelativeJSONPointer(text).evaluate(node)
    except RelativeJSONPointerReferenceError:
        ctx.outcome('nowhere')
        ctx.check(want is NOWHERE, f'{where} raised, expected {str(want)[:200]}')
        return
    if not ctx.check(want is not NOWHERE, f'{where} gave {str(got)[:200]}, expected a reference error'):
        return
    ctx.outcome(want[0])
    if want[0] == 'node':
        ctx.check(got is ptr_live(root, want[1]), f'{where} gave {str(got)[:200]}, expected the node at {want[1]!r}')
    else:
        ctx.check(type(got) is (int if want[0] == 'index' else str) and got == want[1], f'{where} gave {str(got)[:200]}, expected {want[1]!r}')


def evaluate(ctx, d, up, deep):
    doc = DOCS[d]
    root = JSON(doc)
    overs = [0, 1, -1, 2, -2, 3, -3, 9, -9, 12, -12] if not deep else range(-13, 14)
    tails = TAILS
    if deep:
        toks = ['', 'a', 'b', '0', '1', '2', '-', '~0', '10', '01', '1\u0660']
        tails = ['#'] + [''.join('/' + t for t in c) for n in range(4) for c in itertools.product(toks, repeat=n)]
    live = {p: JSONPointer(p).evaluate(root) for p, _ in nodes(doc)}
    for over in overs:
        for t in tails:
            text = f'{up}{"%+d" % over if over else ""}{t}'
            r = RelativeJSONPointer(text)
            ref = '#' if t == '#' else parse(t)
            for path, node in live.items():
                want = ref_eval(doc, path, up, over, ref)
                ctx.state((d, path, text))
                ctx.step(up + 2 + len(ref))
                ctx.trace()
                where = f'{text!r} from {JSONPointer(path)} of {doc!r}'
                try:
                    got = r.evaluate(node)
                except RelativeJSONPointerReferenceError:
                    ctx.outcome('nowhere')
                    ctx.check(want is NOWHERE, f'{where} raised, expected {want!r}')
                    continue
                if not ctx.check(want is not NOWHERE, f'{where} gave {got!r}, expected a reference error'):
                    continue
                ctx.outcome(want[0])
                if want[0] == 'node':
                    ctx.check(got is live[want[1]], f'{where} gave {got!r}, expected the node at {want[1]!r}')
                else:
                    ctx.check(type(got) is (int if want[0] == 'index' else str) and got == want[1],
                              f'{where} gave {got!r}, expected {want[1]!r}')
            ctx.check(str(r) == text, f'{text!r} was changed by evaluation')
