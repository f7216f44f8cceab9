"""C03: every combination of the sibling keywords that apply subschemas to children."""
import itertools

import evalcheck
import sizes

MEANING = ('states: distinct (dialect, schema) pairs; transitions: evaluations by the real code; traces: schemas whose verdict was compared with '
           'the reference on every instance')
BOUNDS = {
    'quick': 'arrays: every combination of prefixItems / items (schema and array form) / additionalItems / contains / minContains / maxContains '
             'over the listed values, on every array of up to 3 items over 3 values; objects: every combination of properties / '
             'patternProperties / additionalProperties / propertyNames, on every object over 5 names with up to 3 members; every such '
             'keyword below every such keyword; awkward member names; 20 sizes up to 257, 11 depths up to 65',
    'thorough': 'the same with arrays of up to 4 items over 4 values, objects of up to 4 members, three keywords deep'}

I, S = {'type': 'integer'}, {'type': 'string'}
OPT = None
ARR20 = {
    'prefixItems': [OPT, [I], [I, S], [False], [S, True, I]],
    'items': [OPT, False, True, I, S],
    'contains': [OPT, I, S, True, False],
    'minContains': [OPT, 0, 1, 2],
    'maxContains': [OPT, 0, 1, 2],
}
ARR19 = {
    'items': [OPT, False, True, I, S, [I], [I, S], [False], [True, S, I]],
    'additionalItems': [OPT, False, True, I, S],
    'contains': [OPT, I, S, False],
    'minContains': [OPT, 0, 1, 2],
    'maxContains': [OPT, 0, 1],
}
OBJ = {
    'properties': [OPT, {}, {'a': I}, {'a': I, 'ab': S}, {'a': False}, {'b': S, 'zz': I}],
    'patternProperties': [OPT, {}, {'^a': I}, {'b': S}, {'^a': I, 'b$': S}, {'': True, 'zz': False}, {'^a$': False}],
    'additionalProperties': [OPT, False, True, I, S],
    'propertyNames': [OPT, {'pattern': '^a'}, {'maxLength': 1}, False, {'enum': ['a', 'ab', 'b']}],
}


def combos(table):
    keys = list(table)
    for vals in itertools.product(*table.values()):
        s = {k: v for k, v in zip(keys, vals) if v is not OPT}
        if s:
            yield s


def arrays(n, leaves):
    return [list(c) for k in range(n + 1) for c in itertools.product(leaves, repeat=k)]


def objects(names, n, leaves):
    return [dict(zip(c, vs)) for k in range(n + 1) for c in itertools.combinations(names, k) for vs in itertools.product(leaves, repeat=k)]


OTHERS = ['str', 7, None, True]
AWKWARD = ['', '~', '/', '~1', '~0', 'a/b', '%', '"', '\\', ' ', '0', '-', '$ref', 'é', '\u0000', 'items', '^a$', '.', '(', 'length']


def wrap(x):
    """Every child applicator with `x` as (one of) its subschemas."""
    return [{'properties': {'a': x}}, {'patternProperties': {'a': x}}, {'additionalProperties': x}, {'properties': {'a': I}, 'additionalProperties': x},
            {'items': x}, {'prefixItems': [x]}, {'prefixItems': [I, x]}, {'prefixItems': [S], 'items': x}, {'contains': x}, {'contains': x, 'maxContains': 1},
            {'contains': x, 'minContains': 2}, {'contains': x, 'minContains': 0, 'maxContains': 0}, {'not': x}, {'propertyNames': x},
            {'patternProperties': {'a': x, 'b': S}, 'additionalProperties': I}]


def wrap19(x):
    return [{'items': x}, {'items': [x]}, {'items': [I, x]}, {'items': [S], 'additionalItems': x}, {'items': x, 'additionalItems': False}, {'additionalItems': x},
            {'contains': x}, {'properties': {'a': x}}, {'additionalProperties': x}]


DEEP = [1, 'x', [1], ['x'], [1, 'x'], ['x', 1], [[1]], [['x']], [[], 'x'], [1, [1]], [['x', 1], 1], [[1], [2]], [['x'], ['y'], [1]], {'a': 1}, {'a': 'x'}, {'b': 1},
        {'a': [1]}, {'a': ['x']}, {'a': {'a': 1}}, {'a': {'a': 'x'}}, {'a': 1, 'b': 'x'}, {'ab': [1, 'x'], 'b': 'y'}, {'c': {'a': 'x', 'c': 1}}, {'a': {'b': [1]}, 'b': []},
        [{'a': 1}], [{'a': 'x'}, {'a': 1}], [{'b': [1]}, 1], {'a': [{'a': 1}]}, {'a': [['x']], 'c': [[1]]}, [[[1]]], [[['x']], []], {}, []]


def cases(tier):
    for i in range(len(ARR20['prefixItems'])):
        for j in range(len(ARR20['items'])):
            yield ['a20', '2020-12', i, j]
    for i in range(len(ARR19['items'])):
        for j in range(len(ARR19['additionalItems'])):
            yield ['a19', '2019-09', i, j]
    for v in ('2020-12', '2019-09'):
        for i in range(len(OBJ['properties'])):
            for j in range(len(OBJ['patternProperties'])):
                yield ['obj', v, i, j]
        yield ['awkward', v]
    for i in range(len(wrap(I))):
        yield ['deep', '2020-12', i]
    for i in range(len(wrap19(I))):
        yield ['deep', '2019-09', i]
    yield ['long', '2020-12']
    for v in ('2020-12', '2019-09'):
        for n in sizes.SIZES[:: 1 if tier == 'thorough' or v == '2020-12' else 4] + (sizes.LARGE[2::4] if tier == 'thorough' else []):
            yield ['wide', v, n]
        for d in sizes.DEPTH:
            yield ['high', v, d]


bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c03')


def one(ctx, schema, version, insts):
    if not ctx.state((version, repr(schema))):
        return
    n = evalcheck.verdicts(ctx, bench, schema, version, insts)
    ctx.trace()
    ctx.outcome((sorted(schema), n[0] > 0, n[1] > 0))


def run_case(case, ctx):
    what, v = case[:2]
    if what in ('wide', 'high'):
        for s, insts in (sizes.children if what == 'wide' else sizes.below)(case[2], v):
            ctx.state((v, what, case[2], list(s), len(str(s))))
            ctx.outcome(tuple(evalcheck.verdicts(ctx, bench, s, v, insts)))
            ctx.trace()
    elif what in ('a20', 'a19'):
        table = dict(ARR20 if what == 'a20' else ARR19)
        a, b = list(table)[:2]
        table[a], table[b] = [table[a][case[2]]], [table[b][case[3]]]
        insts = arrays(3, [1, 'x', None]) if not ctx.thorough else arrays(4, [1, 'x', None, 2])
        for s in combos(table):
            one(ctx, s, v, insts + OTHERS + [{'a': 1, '0': 'x'}])
    elif what == 'obj':
        table = dict(OBJ)
        table['properties'] = [OBJ['properties'][case[2]]]
        table['patternProperties'] = [OBJ['patternProperties'][case[3]]]
        insts = objects(['a', 'ab', 'b', 'c', ''], 4 if ctx.thorough else 3, [1, 'x']) + OTHERS + [[1, 'x']]
        for s in combos(table):
            one(ctx, s, v, insts)
    elif what == 'awkward':
        insts = [{n: x} for n in AWKWARD for x in (1, 'x')] + [{m: 1, n: 'x'} for m in AWKWARD for n in AWKWARD if m != n]
        for n in AWKWARD:
            import re
            for s in ({'properties': {n: I}}, {'properties': {n: I}, 'additionalProperties': False}, {'patternProperties': {'^' + re.escape(n) + '$': S}, 'additionalProperties': I},
                      {'propertyNames': {'const': n}}, {'properties': {n: S}, 'additionalProperties': I}, {'propertyNames': {'enum': ['a', n]}},
                      {'dependentSchemas': {n: {'maxProperties': 1}}}, {'required': [n]}, {'dependentRequired': {n: ['a/b']}}):
                one(ctx, s, v, insts)
    elif what == 'deep':
        w = wrap if v == '2020-12' else wrap19
        for x in (I, S, False, True, {'minItems': 2}, {'required': ['a']}, {'maxProperties': 1}):
            for s in w(x):
                for t in w(s) if ctx.thorough else [s]:
                    one(ctx, w(t)[case[2]], v, DEEP)
    else:
        insts = [list(range(n)) for n in range(14)] + [list(range(n)) + ['x'] for n in range(14)] + [['x'] * n for n in range(14)]
        for n in range(1, 13):
            for s in ({'prefixItems': [I] * n, 'items': S}, {'prefixItems': [I] * n, 'items': False}, {'contains': I, 'minContains': n}, {'contains': I, 'maxContains': n},
                      {'contains': S, 'minContains': 0, 'maxContains': n}, {'prefixItems': [I] * (n - 1) + [S]}):
                one(ctx, s, v, insts)
