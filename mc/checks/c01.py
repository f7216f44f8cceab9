"""C01: every assertion keyword, every value of it, every instance, against a reference."""
import itertools

import evalcheck
import sizes
from gen import trees

MEANING = ('states: distinct (dialect, schema) pairs; transitions: evaluations by the real code; traces: (schema, instance) pairs whose verdict '
           'was compared with the reference')
BOUNDS = {
    'quick': '20 assertion keywords, 6-60 values each, in 3 dialects, on ~190 instances of all JSON types (numbers up to 10^400 and 5e-324); '
             'const/enum on every ordered pair and uniqueItems on every array of up to 3 of 17 nearly equal values; '
             'every pair of keywords of the same type over 6 values each; six numeric keywords on every pair of ~200 numbers m*10^e and near powers of 2; strings, arrays and objects at 42 sizes up to 65537',
    'thorough': 'the same with more values, ~900 instances, uniqueItems on arrays of up to 4, and every pair of keywords over 12 values each'}
ASSUMPTIONS = ['patterns are limited to those on which Python and ECMA-262 agree', 'floats denote the shortest decimal that round-trips']

NUMS = [0, -0.0, 1, 1.0, -1, 2, 3, 4, 0.1, 0.3, 0.1 + 0.2, 0.5, 1.5, 2.5, 19.99, 1e-8, 1e16, 1e17, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), -(2 ** 53) - 1, 1e308, -1e308,
        5e-324, 10 ** 30, 10 ** 30 + 1, 10 ** 400, -10 ** 400, 9007199254740993, 123456789012345678901234567890, 7, 1e-7, 100, 0.07, 0.7]
STRS = ['', 'a', 'b', 'ab', 'abc', 'aab', 'é', 'e\u0301', '😀', '😀😀', ' ', '0', '12', 'a\nb', 'A', '\u0000', '1', 'null', 'true', 'x' * 20]
ALIKE = [0, False, 1, True, 1.0, '1', None, '', [], {}, [1], [True], {'a': 1}, {'a': True}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1.0}, [[0]]]
NESTED = ALIKE + [[False], [[False]], [0, 1], [1, 0], {'a': []}, {'a': {}}, {'a': None}, {'b': 1}, [None], [[]], [{}], {'a': [1, {'b': 2}]}, {'a': [True, {'b': 2}]},
                  {'a': [1.0, {'b': 2}]}, -0.0, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), 'é', 'e\u0301', 10 ** 400, 0.1, 'A', 'a', {'': 0}, {'': False}, [1, [2]]]
ARRS = [[], [0], [1, 2], [1, 2, 3], ['a'], [None, None], [[], []], [1, 1.0], [0, False], list(range(10))]
OBJS = [{}, {'a': 1}, {'b': 1}, {'c': 1}, {'a': 1, 'b': 2}, {'a': 1, 'c': None}, {'b': 1, 'c': 2}, {'a': None, 'b': None, 'c': None}, {'': 1}, {'é': 0}, {'A': 1},
        {'a': {'b': 1}}, {'0': 1}, {'a': [], 'toString': 1}, {'length': 1}]


def instances(tier):
    r = [None, True, False] + NUMS + STRS + ARRS + OBJS + NESTED
    if tier == 'thorough':
        r += list(trees([0, 1.0, 'a', None, True], ['a', 'b'], 1, 2))
        r += [s + t for s in STRS for t in STRS] + [n * 2 for n in NUMS] + [n / 3 for n in NUMS if abs(n) < 1e300] + [-n for n in NUMS]
    return r


TYPES = ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object']
COUNTS = [0, 1, 2, 3, 2.0, 5, 10 ** 30]
BOUND = [0, 1, -1, 1.0, 0.3, 0.30000000000000004, 1.5, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), 1e308, -1e308, 10 ** 400, 5e-324, 2.5]
VALUES = {
    'type': TYPES + [[a] for a in TYPES] + [[a, b] for a in TYPES for b in TYPES if a != b] + [TYPES],
    'enum': [[], [1], [True], [0], ['a', None], [1, 'a', []], [[1]], [{'a': 1}], [False, {'a': True}], [1.0, 2 ** 53], [[], {}, '', 0, False, None], ['e\u0301']],
    'const': NESTED,
    'multipleOf': [1, 2, 3, 1.0, 0.5, 0.1, 0.01, 0.3, 0.07, 1e-8, 1e-7, 1.5, 2 ** 53, 10 ** 30, 1e308, 5e-324, 7, 2.5],
    'maximum': BOUND, 'exclusiveMaximum': BOUND, 'minimum': BOUND, 'exclusiveMinimum': BOUND,
    'maxLength': COUNTS, 'minLength': COUNTS, 'maxItems': COUNTS, 'minItems': COUNTS, 'maxProperties': COUNTS, 'minProperties': COUNTS,
    'pattern': ['', 'a', '^a', '^ab', 'b', '[ab]+', '^[^a]', 'é', '😀', '^.{2}', '\\d', '\\.', 'a|c', '(a)b', '^$|b', '^\\S+$', 'A'],
    'uniqueItems': [True, False],
    'required': [[], ['a'], ['a', 'b'], [''], ['é'], ['0'], ['toString', 'length'], ['b', 'c', 'a']],
    'dependentRequired': [{}, {'a': []}, {'a': ['b']}, {'a': ['b', 'c']}, {'a': ['b'], 'b': ['c']}, {'': ['a']}, {'a': ['a']}, {'c': ['zz']}, {'b': ['a'], 'a': ['b']}],
}
GROUPS = [['multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'type', 'const', 'enum'], ['maxLength', 'minLength', 'pattern', 'type', 'enum'],
          ['maxItems', 'minItems', 'uniqueItems', 'const'], ['maxProperties', 'minProperties', 'required', 'dependentRequired', 'type']]


def cases(tier):
    for version in ('2020-12', '2019-09', 'next'):
        for kw, vals in VALUES.items():
            for i in range(0, len(vals), 4):
                yield ['one', version, kw, i]
    for version in ('2020-12', '2019-09'):
        for g, kws in enumerate(GROUPS):
            for a, b in itertools.combinations(kws, 2):
                yield ['pair', version, a, b]
        for i in range(len(NESTED)):
            yield ['equal', version, i]
    n = 4 if tier == 'thorough' else 3
    for i in range(len(ALIKE)):
        if n == 4:
            for j in range(len(ALIKE)):
                yield ['unique', '2020-12', [i, j], 2]
        else:
            yield ['unique', '2020-12', [i], 2]
    yield ['unique', '2020-12', [], 1]
    for i in range(len(DECIMALS)):
        yield ['decimals', '2020-12' if i % 2 else '2019-09', i]
    for version in ('2020-12', '2019-09'):
        for n in sizes.SIZES + sizes.LARGE + sizes.HUGE:
            yield ['texts', version, n]
            if n < 2000 or tier == 'thorough' and n < 5000:
                yield ['counts', version, n]


# m * 10^e as integers and as floats, and the neighbours of large powers of two
DECIMALS = [x for m in (1, 2, 3, 5, 7, 11, 15, 25, 33, 99, 101) for e in range(-6, 7) for x in ([m * 10 ** e, float(m * 10 ** e)] if e >= 0 else [float(f'{m}e{e}')])] + \
    [2 ** k + d for k in (24, 31, 32, 52, 53, 54, 63, 64, 100) for d in (-1, 0, 1)] + [float(2 ** k) for k in (24, 31, 53, 54, 63, 64, 100)]

bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c01')


def one(ctx, schema, version, insts, state=None):
    ctx.state((version, state or repr(schema)))
    n = evalcheck.verdicts(ctx, bench, schema, version, insts)
    ctx.trace(sum(n))
    ctx.outcome(f'{"+".join(schema)} {"/".join(w for w, c in zip(("invalid", "valid"), n) if c)}')


def run_case(case, ctx):
    what, version = case[:2]
    if what == 'one':
        insts = instances(ctx.tier)
        for v in VALUES[case[2]][case[3]:case[3] + 4]:
            one(ctx, {case[2]: v}, version, insts)
    elif what == 'pair':
        k = 12 if ctx.thorough else 6
        a, b = case[2:]
        insts = instances('quick')
        for va in spread(VALUES[a], k):
            for vb in spread(VALUES[b], k):
                one(ctx, {a: va, b: vb}, version, insts)
    elif what == 'decimals':
        v = DECIMALS[case[2]]
        for kw in ('multipleOf', 'maximum', 'exclusiveMinimum', 'minimum', 'exclusiveMaximum', 'const'):
            one(ctx, {kw: v}, version, DECIMALS + [-x for x in DECIMALS])
    elif what in ('texts', 'counts'):
        for s, insts in (sizes.texts if what == 'texts' else sizes.counts)(case[2]):
            one(ctx, s, version, insts, (what, case[2], list(s), len(str(s))))
    elif what == 'equal':
        v = NESTED[case[2]]
        one(ctx, {'const': v}, version, NESTED)
        one(ctx, {'enum': ['zzz', v]}, version, NESTED)
        one(ctx, {'enum': [[v], {'a': v}, v]}, version, [w for x in NESTED for w in (x, [x], {'a': x}, {'b': x}, [x, x])])
    else:
        insts = [[ALIKE[i] for i in case[2]] + list(rest) for n in range(case[3] + 1) for rest in itertools.product(ALIKE, repeat=n)]
        one(ctx, {'uniqueItems': True}, version, insts)
        if len(case[2]) < 2:
            one(ctx, {'uniqueItems': False}, version, insts)


def spread(vals, k):
    """k of the values, evenly spread (the first and last included)."""
    n = len(vals)
    return [vals[i * (n - 1) // max(1, k - 1)] for i in range(min(k, n))]
