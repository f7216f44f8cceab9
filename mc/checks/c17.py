"""C17: JSON Patch applies every operation sequence as RFC 6902 prescribes."""
import itertools

from jschon import JSONPatch, JSONPatchOperation, JSONPointer
from jschon.exc import JSONPatchError

import refpatch
import sizes
from gen import exact, fresh, typed

MEANING = ('states: distinct documents reached by the reference model; transitions: reference operations applied; '
           'traces: real patches applied and compared with the model')
BOUNDS = {
    'quick': 'every single operation over 28 paths, 12 values and all from/path pairs on 24 documents; every sequence of 2 operations '
             'over 128, and of 3 operations over 40, on 9 documents; every operation at and around the ends of arrays and objects of 32 sizes up to 1025 and on documents up to 150 deep, 16 patches of as many operations',
    'thorough': 'as quick on 24 documents, and every sequence of 4 operations over 26 on 9 documents'}

DOCS = [
    {'a': [1, 2], 'b': {'a': None}}, [[1], [2]], {'a': {'b': [0]}}, [1, 2], {}, [], {'a': 1}, {'0': 1, '-': {'a': 2}}, 'str',
    None, 1, True, [1], {'': 1, 'a': {'': [1]}}, {'~/': 1, '~1': 2, '/': {'~': 3}}, {'a': 'xyz', 'b': [False, 0, 0.0, '0']}, list(range(11)),
    {'a': [[], {}]}, {'a': {'b': {'c': {}}}}, [{'a': [1]}, {'a': [1.0]}], {'a': [True, 1]}, [None], {'b': [1, [2, [3]]]}, [[], [[]]],
]
PATHS = [(), ('a',), ('a', '0'), ('a', '1'), ('a', '2'), ('a', '-'), ('a', '3'), ('a', 'b'), ('0',), ('1',), ('-',), ('b',), ('b', 'a'),
         ('a', 'b', '0'), ('a', '00'), ('a', '-1'), ('a', '+1'), ('a', ' 1'), ('a', '1_0'), ('a', '\u0661'), ('',), ('~/',), ('0', '0'), ('10',), ('1\u0660',), ('1\n',), ('a', '1\n'),
         ('a', 'b', 'c', 'd')]
VALUES = [None, True, 1, 1.0, 'x', [], {}, [1, 2], {'b': [0]}, False, 0, [1.0, 2]]
P2 = [(), ('a',), ('a', '0'), ('a', '-'), ('b',), ('0',), ('b', 'a'), ('1',)]
V2 = [7, [1], {'a': [2]}]
P3 = [('a',), ('a', '0'), ('b',), ('0',)]
P4 = [('a',), ('a', '0'), ('b',)]


def ops1():
    for p in PATHS:
        yield ('remove', p, None)
        for name in ('add', 'replace', 'test'):
            for v in VALUES:
                yield (name, p, v)
        for f in PATHS:
            yield ('move', p, f)
            yield ('copy', p, f)


def alphabet(paths, values, moves):
    out = []
    for p in paths:
        out.append(('remove', p, None))
        for v in values:
            out.append(('add', p, v))
            out.append(('replace', p, v))
        out.append(('test', p, values[0]))
    if moves is None:
        moves = [(f, p) for f in paths for p in paths if len(f) <= 1 or len(p) <= 1]
    for f, p in moves:
        out.append(('move', p, f))
        out.append(('copy', p, f))
    return out


def alpha2():
    return alphabet(P2, V2[:2], [(f, p) for f in P2 for p in P2 if f != p and (len(f) < 2 or len(p) < 2)][:40])


def alpha3():
    return alphabet(P3, V2[1:2], [(f, p) for f in P3 for p in P3 if f != p])


def alpha4():
    return alphabet(P4, V2[:1], [(f, p) for f in P4 for p in P4 if f != p])


def cases(tier):
    n2 = len(alpha2())
    for d in range(len(DOCS)):
        yield ['one', d]
    for d in range(len(DOCS) if tier == 'thorough' else 9):
        for i in range(n2):
            yield ['two', d, i]
        for i in range(len(alpha3())):
            yield ['three', d, i]
    for n in sizes.SIZES + sizes.LARGE + (sizes.HUGE[:3] if tier == 'thorough' else []):
        yield ['size', n]
        yield ['many', n]
    for n in sizes.DEPTH + [100, 150]:
        yield ['depth', n]
    if tier == 'thorough':
        for d in range(9):
            for i, j in itertools.product(range(len(alpha4())), repeat=2):
                yield ['four', d, i, j]


def compare(ctx, doc, ops, objects=False):
    try:
        want = refpatch.run(doc, ops)
        ok = True
    except refpatch.Fail:
        want, ok = None, False
    ctx.step(len(ops))
    ctx.trace()
    if ok:
        ctx.state(typed(want))
    dicts = [refpatch.asdict(o) for o in ops]
    if objects:
        patch = JSONPatch(*[JSONPatchOperation(op=o[0], path=JSONPointer(o[1]), value=fresh(o[2]) if o[0] in ('add', 'replace', 'test') else None,
                                               from_=JSONPointer(o[2]) if o[0] in ('move', 'copy') else None) for o in ops])
    else:
        patch = JSONPatch(*dicts)
    src = fresh(doc)
    what = f'{str(dicts)[-600:]} on {str(doc)[:300]}'
    try:
        got = patch.evaluate(src)
    except JSONPatchError:
        ctx.outcome('fails')
        return ctx.check(not ok, f'{what}: failed, expected {str(want)[:300]}')
    except Exception as e:
        return ctx.violation(f'{what}: raised {type(e).__name__}: {e}')
    ctx.outcome('applies')
    if ctx.check(ok, f'{what}: gave {str(got)[:300]}, expected a patch error'):
        ctx.check(exact(got, want), f'{what}: gave {str(got)[:300]}, expected {str(want)[:300]}')


def at_ends(n):
    """Documents of n members, and the operations that act at and around their ends."""
    idx = [f(i) for i in sorted({0, 1, 9, 10, 99, 100, n // 2, n - 2, n - 1, n, n + 1}) for f in (str, lambda i: f'0{i}')] + ['-', f'-{n}', f'{n - 1}.0']
    for doc, pre, toks in (([i if i % 3 else [i] for i in range(n)], (), idx), ({'a': [[i] for i in range(n)]}, ('a',), idx),
                           ({f'n{i}': i for i in range(n)}, (), [f'n{i}' for i in (0, 1, n // 2, n - 2, n - 1, n)])):
        ops = []
        for t in toks:
            p = pre + (t,)
            ops += [('add', p, ['v']), ('remove', p, None), ('replace', p, 'v'), ('test', p, n - 1), ('test', p, [n - 1])]
            ops += [(o, *fp) for o in ('copy', 'move') for u in (toks[0], toks[-4], toks[-2]) for fp in ((p, pre + (u,)), (pre + (u,), p))]
        yield doc, ops
        yield doc, [('test', (), v) for v in (doc, doc[:-1] if isinstance(doc, list) else {**doc, 'z': 1}, doc + [1] if isinstance(doc, list) else {k: v for k, v in doc.items() if k != toks[-2]})]


def many(n):
    """Patches of n operations."""
    nums, names = list(range(n)), {f'n{i}': i for i in range(n)}
    yield [], [('add', ('-',), i) for i in nums]
    yield [], [('add', ('0',), i) for i in nums]
    yield [], [('add', (str(i),), [i]) for i in nums]
    yield [], [('add', (str(i),), i) for i in nums] + [('add', (str(n + 1),), 0)]
    yield nums, [('remove', ('0',), None)] * n
    yield nums, [('remove', ('0',), None)] * (n + 1)
    yield nums, [('remove', (str(i),), None) for i in nums[::-1]]
    yield nums, [('replace', (str(i),), [i]) for i in nums]
    yield nums, [('test', (str(i),), i) for i in nums]
    yield nums, [('test', (str(i),), i) for i in nums[:-1]] + [('test', (str(n - 1),), 'no')]
    yield [1, 2, 3], [('move', ('-',), ('0',))] * n
    yield [[0]], [('copy', ('-',), (str(i),)) for i in nums]
    yield {}, [('add', (f'n{i}',), {}) for i in nums]
    yield {}, [('add', (f'n{i}',), i) for i in nums] + [('move', (f'n{i + 1}',), (f'n{i}',)) for i in nums]
    yield names, [('remove', (k,), None) for k in names]
    yield {'a': [0]}, [('replace', ('a', '0'), i) for i in nums]


def downwards(d):
    """A document d deep, and operations at its bottom, its top and across."""
    for k, wrap in (('1', lambda x: [0, x]), ('a', lambda x: {'a': x, '1': 's'})):
        doc, path = {'z': ['end']}, ()
        for _ in range(d):
            doc, path = wrap(doc), (k,) + path
        ops = []
        for cut in sorted({0, 1, 2, d // 2, d - 1, d}):
            p = path[:cut]
            for t in ((), (k,), ('0',), ('-',), ('z', '0'), ('z', '-')):
                ops += [('add', p + t, ['v']), ('remove', p + t, None), ('replace', p + t, {}), ('test', p + t, {'z': ['end']}), ('test', p + t, 'end')]
                ops += [(o, a, b) for o in ('copy', 'move') for a, b in ((p + t, path), (path, p + t), (p + t, path + ('z', '0')), (path + ('z', '0'), p + t), (p + t, ()), (p + t, path[:1]))]
        yield doc, ops


def run_case(case, ctx):
    if case[0] in ('size', 'depth'):
        for doc, ops in (at_ends if case[0] == 'size' else downwards)(case[1]):
            for op in ops:
                compare(ctx, doc, [op])
                compare(ctx, doc, [op], objects=True)
        return
    if case[0] == 'many':
        for doc, ops in many(case[1]):
            compare(ctx, doc, ops)
        return
    doc = DOCS[case[1]]
    if case[0] == 'one':
        for op in ops1():
            compare(ctx, doc, [op])
            compare(ctx, doc, [op], objects=True)
        compare(ctx, doc, [])
        return
    if case[0] == 'two':
        al = alpha2()
        for op in al:
            compare(ctx, doc, [al[case[2]], op])
    elif case[0] == 'three':
        al = alpha3()
        for a, b in itertools.product(al, repeat=2):
            compare(ctx, doc, [al[case[2]], a, b])
    else:
        al = alpha4()
        for a, b in itertools.product(al, repeat=2):
            compare(ctx, doc, [al[case[2]], al[case[3]], a, b])
