"""C15: JSON Pointer evaluation follows RFC 6901 on plain and wrapped documents."""
import collections
import itertools
import types

from jschon import JSON, JSONPointer, JSONSchema, create_catalog
from jschon.exc import JSONPointerReferenceError

import sizes
from gen import NOWHERE, exact, nodes, ptr_get, trees, typed

MEANING = ('states: distinct (document, key sequence) pairs of the reference model; transitions: reference descent steps; '
           'traces: evaluations of the real pointer on a plain, wrapped or schema document compared with the model')
BOUNDS = {
    'quick': 'every key sequence of length <=3 over 30 tokens (<=4 over 9) on 16 documents, on every tree of depth 2, width 2 '
             'with sequences of length <=2 over 13 tokens; every start node; array indices and member names at and around the end of arrays and objects of 36 sizes up to 9999, names of as many characters, every node of documents up to 150 deep; plain, tuple, Mapping, JSON and JSONSchema forms',
    'thorough': 'sequences of length <=4 over 30 tokens, and every tree of depth 2, width 3'}

TOK = ['a', '', '0', '1', '2', '-', '-1', '00', '01', '+1', ' 1', '1 ', '1.0', '1\n', '1_0', '\u0661', '\xb2', '1\u0661', '10', '11', '12', '011',
       'b', '~', '/', 'a/b', '%25', '\xe9', 'A', '99999999999999999999999']
TOK4 = ['a', '0', '1', '-1', '-', '', '10', 'b', '01']
TOK2 = ['a', 'b', '0', '1', '2', '-', '-1', '', '00', '+0', '\u0660', 'A', '0\n']
DOCS = [
    {'a': [{'a': 0, 'b': [1, [2, 3]]}, 'abc', None], 'b': {'0': 'zero', '-': 'dash', '': {'': {'': 'deep'}}, '00': [], '-1': 'neg'}},
    [[0, 1], [[2], {'0': {'1': 'x'}}], {'a': [True, False]}],
    list(range(12)),
    [[i, [str(i)]] for i in range(12)],
    {'~': {'/': {'a/b': {'%25': '%'}}}, 'a/b': 'slash', '\xe9': 1, 'A': {'a': 'lower', 'A': 'upper'}, '~1': 'lit', '%': 5},
    {'': ''}, {'': ['', {'': None}]}, [], {}, 'abc', '', 12, None, True,
    {'1': {'1': {'1': ['x', 'y']}}, '01': 'z', '\u0661': 'arabic', '\xb2': 2, '+1': 'plus', ' 1': 'sp', '1 ': 's', '1.0': 1.0, '1e0': 1, '1_0': 10},
    {'a': '0123', 'b': [['']], '0': ['ab', 'cd'], '10': list('abcdefghijklm'), 'c': 1.5},
]
SCHEMAS = [
    {'$defs': {'a': {'type': 'integer'}, '0': {'items': {'const': [1, 2]}}, '': True, '~/': {'enum': [{'a': 0}, 'abc']}, '-1': False},
     'allOf': [{'properties': {'a': {'not': True}, '1': {}}}, True, {'minimum': 1}],
     'prefixItems': [{'title': 't'}] * 11, 'required': ['a', 'b'], 'const': {'0': [0]}, 'x-unknown': {'a': [1]}},
    True, False, {},
]
STOK = ['$defs', 'allOf', 'a', '0', '1', '-1', '01', '', '~/', 'items', 'const', 'properties', 'not', 'prefixItems', '10', '11', 'enum',
        'required', '-', 'x-unknown', 'title', 'type', '+1']


def cases(tier):
    deep = tier == 'thorough'
    for d in range(len(DOCS)):
        for t in [None] + TOK:
            yield ['doc', d, t, 3 if deep else 2]
        for t in TOK4:
            yield ['doc4', d, t]
    small = list(trees([0, 'ab', None], ['a', '0', ''], 2, 2))
    for i in range(0, len(small), 60):
        yield ['trees', i, 2]
    if deep:
        n = sum(1 for _ in trees([0, 'ab'], ['a', '0', ''], 2, 3))
        for i in range(0, min(n, 60000), 500):
            yield ['trees3', i, 500]
    for n in sizes.SIZES + sizes.LARGE + sizes.HUGE[:6 if deep else 4]:
        yield ['size', n]
    for n in sizes.DEPTH + [100, 150]:
        yield ['depth', n]
    for s in range(len(SCHEMAS)):
        for t in [None] + STOK:
            yield ['schema', s, t, 4 if deep else 3]


def variants(doc):
    def tup(v):
        if isinstance(v, dict):
            return types.MappingProxyType({k: tup(x) for k, x in v.items()})
        if isinstance(v, list):
            return tuple(tup(x) for x in v)
        return v
    return tup(doc)


def one(ctx, docs, keys):
    """docs: (plain, frozen variant, JSON root, list of (start path, plain start, JSON start))"""
    plain, frozen, root, _ = docs
    want = ptr_get(plain, keys)
    ptr = JSONPointer(keys)
    ctx.state((docs[3], keys))
    ctx.step(len(keys) + 1)
    ctx.outcome('nowhere' if want is NOWHERE else type(want).__name__)
    for form, doc in (('plain', plain), ('frozen', frozen), ('JSON', root)):
        ctx.trace()
        try:
            got = ptr.evaluate(doc)
        except JSONPointerReferenceError:
            ctx.check(want is NOWHERE, f'{form}: {str(ptr)[:300]!r} on {str(plain)[:300]} raised, expected {str(want)[:300]}')
            continue
        if not ctx.check(want is not NOWHERE, f'{form}: {str(ptr)[:300]!r} on {str(plain)[:300]} gave {got!r}, expected a reference error'):
            continue
        if form == 'plain':
            ctx.check(got is want or (exact(got, want) and not isinstance(want, (dict, list))),
                      f'{form}: {str(ptr)[:300]!r} on {str(plain)[:300]} gave {got!r}, not the node {want!r}')
        elif form == 'frozen':
            ctx.check(typed(_thaw(got)) == typed(want), f'{form}: {str(ptr)[:300]!r} on {str(plain)[:300]} gave {got!r}, expected {str(want)[:300]}')
        else:
            ctx.check(isinstance(got, JSON) and exact(got.value, want), f'{form}: {str(ptr)[:300]!r} on {str(plain)[:300]} gave {got!r}, expected {str(want)[:300]}')
            ctx.check(got.path == ptr, f'{form}: the node at {str(ptr)[:300]!r} of {str(plain)[:300]} has path {str(got.path)!r}')
            ctx.check(ptr.evaluate(doc) is got, f'{form}: {str(ptr)[:300]!r} gives another node the second time')
    ctx.check(tuple(ptr) == tuple(keys), f'the pointer {keys!r} was changed by evaluation')


def _thaw(v):
    if isinstance(v, collections.abc.Mapping):
        return {k: _thaw(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return [_thaw(x) for x in v]
    return v


def run_case(case, ctx):
    kind = case[0]
    if kind in ('doc', 'doc4'):
        d = DOCS[case[1]]
        docs = (d, variants(d), JSON(d), case[1])
        if case[2] is None:
            one(ctx, docs, ())
            relative(ctx, d)
            return
        if kind == 'doc':
            for n in range(case[3] + 1):
                for rest in itertools.product(TOK, repeat=n):
                    one(ctx, docs, (case[2],) + rest)
        else:
            for rest in itertools.product(TOK4, repeat=3):
                one(ctx, docs, (case[2],) + rest)
    elif kind in ('trees', 'trees3'):
        it = trees([0, 'ab', None], ['a', '0', ''], 2, 2) if kind == 'trees' else trees([0, 'ab'], ['a', '0', ''], 2, 3)
        ptrs = [()] + [(t,) for t in TOK2] + list(itertools.product(TOK2, repeat=2))
        for d in itertools.islice(it, case[1], case[1] + (60 if kind == 'trees' else case[2])):
            docs = (d, variants(d), JSON(d), typed(d))
            for p in ptrs:
                one(ctx, docs, p)
    elif kind == 'size':
        n = case[1]
        toks = [f(i) for i in sorted({0, 1, 9, 10, 99, 100, n // 2, n - 2, n - 1, n, n + 1, 10 * n, n - 1 + 2 ** 32, n - 1 + 2 ** 64}) for f in
                (str, lambda i: f'0{i}', lambda i: f'-{i}', lambda i: f'+{i}', lambda i: f'{i}.0', lambda i: f'{i} ', lambda i: f'{i}\u0661')] + ['-', '']
        for name, d in (('array', [i if i % 3 else [i] for i in range(n)]), ('names', {str(i): [i] for i in range(n)}), ('below', {'a': [[]] * (n - 1) + [list(range(n))]})):
            docs = (d, variants(d), JSON(d), (name, n))
            for t in toks:
                if name == 'below':
                    one(ctx, docs, ('a', t))
                    one(ctx, docs, ('a', str(n - 1), t))
                else:
                    one(ctx, docs, (t,))
                    one(ctx, docs, (t, '0'))
        for c in 'k~/0':
            d = {c * (n - 1): 'shorter', c * n: {c * n: [1]}, c * (n + 1): 'longer', 'x' + c * (n - 1): 2, c * (n - 1) + 'x': 3}
            docs = (d, variants(d), JSON(d), ('key', c, n))
            for k in list(d) + ['x' * n, c * (n - 2), c * (n - 1) + c.upper(), c.upper() * n]:
                one(ctx, docs, (k,))
                one(ctx, docs, (k, c * n))
                one(ctx, docs, (k, c * n, '0'))
    elif kind == 'depth':
        n = case[1]
        for up in (lambda x: [0, x], lambda x: {'a': x, '1': 's'}, lambda x: [{'a': x}, {'a': ['s']}]):
            d = {'z': ['end']}
            for _ in range(n):
                d = up(d)
            docs = (d, variants(d), JSON(d), ('depth', n, str(up(0))))
            base = tuple(str(k) for k in max((p for p, _ in spine(d)), key=len))
            for cut in range(len(base) + 1):
                for tail in ((), ('0',), ('1',), ('a',), ('2',), ('z', '0')):
                    one(ctx, docs, base[:cut] + tail)
    elif kind == 'schema':
        cat = create_catalog('2020-12', name='c15')
        src = SCHEMAS[case[1]]
        schema = JSONSchema(src, catalog=cat, metaschema_uri=_uri())
        seqs = [()] if case[2] is None else [
            (case[2],) + rest for n in range(case[3]) for rest in itertools.product(STOK, repeat=n)]
        for keys in seqs:
            want = ptr_get(src, keys)
            ptr = JSONPointer(keys)
            ctx.state(('schema', case[1], keys))
            ctx.step(len(keys) + 1)
            ctx.trace()
            try:
                got = ptr.evaluate(schema)
            except JSONPointerReferenceError:
                ctx.outcome('schema nowhere')
                ctx.check(want is NOWHERE, f'schema: {str(ptr)!r} on {src!r} raised, expected {want!r}')
                continue
            ctx.outcome(f'schema {type(got).__name__}')
            if ctx.check(want is not NOWHERE, f'schema: {str(ptr)!r} on {src!r} gave {got!r}, expected a reference error'):
                ctx.check(isinstance(got, JSON) and exact(got.value, want) and got.path == ptr,
                          f'schema: {str(ptr)!r} on {src!r} gave {got!r} at {str(got.path)!r}, expected {want!r}')


def spine(d, path=()):
    """The first of the longest ways down."""
    while isinstance(d, (list, dict)) and d:
        yield path, d
        k, d = max(enumerate(d) if isinstance(d, list) else d.items(), key=lambda kv: isinstance(kv[1], (list, dict)))
        path += (k,)
    yield path, d


def _uri():
    from jschon import URI
    return URI('https://json-schema.org/draft/2020-12/schema')


def relative(ctx, d):
    """From every node of the document, every suffix reaches the node below it and the path stays document-rooted."""
    root = JSON(d)
    allnodes = list(nodes(d))
    for path, v in allnodes:
        node = JSONPointer(path).evaluate(root)
        for k in TOK:
            ctx.step()
            ctx.trace()
            want = ptr_get(v, (k,))
            try:
                got = JSONPointer((k,)).evaluate(node)
            except JSONPointerReferenceError:
                ctx.check(want is NOWHERE, f'{k!r} from {path!r} of {d!r} raised')
                continue
            ctx.check(want is not NOWHERE and exact(got.value, want) and tuple(got.path) == path + (k,) and got.parent is node,
                      f'{k!r} from {path!r} of {d!r} gave {got!r}')
        for p2, v2 in allnodes:
            if p2[:len(path)] == path:
                got = JSONPointer(p2[len(path):]).evaluate(node)
                ctx.check(exact(got.value, v2) and tuple(got.path) == p2, f'{p2!r} from {path!r} of {d!r} gave {got!r}')
