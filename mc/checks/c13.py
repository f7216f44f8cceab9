"""C13: equality and ordering over all pairs and triples of a family of JSON values, wrapped and plain, and in keywords."""
import itertools
import json
import operator

from jschon import JSON

import evalcheck
import gen
import sizes
from gen import fresh, jeq, typed

MEANING = ('states: distinct values; transitions: comparisons by the real code; traces: pairs and triples whose equality or order was compared with '
           'the JSON data model, between wrapped and plain operands, after edits, and in const, enum and uniqueItems')
BOUNDS = {
    'quick': 'every pair of ~330 values (45 scalars; arrays and objects up to depth 2 over 6 leaves; every member order) wrapped and plain; every triple of ~120 values; every pair of 120 '
             'values reached by 4 kinds of edits; every pair of 120 values in const, enum, uniqueItems and both dialects; order of every pair of 46 numbers and 25 strings; every pair of nearly equal arrays, objects, strings and numbers of 32 sizes up to 1025 and of depth up to 140',
    'thorough': 'the same with every triple and every edited pair of the ~330 values and every triple of 45 values in uniqueItems'}

BIG = [2**53 - 1, 2**53, 2**53 + 1, 2**53 + 2, float(2**53), float(2**53 + 2), 10**22, 1e22, 10**23, 1e23, 10**400, 2**1024, 1.7976931348623157e308, int(1.7976931348623157e308)]
NUMBERS = [0, 1, -1, 2, 10, 0.0, -0.0, 1.0, -1.0, 2.0, 10.0, 0.1, 0.5, 1.5, 0.1 + 0.2, 0.3, 1e-7, 5e-324, -5e-324, 1e308, -1e308, 1e16, 10**16, 10**16 + 1, 3, 3.0] + BIG + [-x for x in BIG[:6]]
STRINGS = ['', 'a', 'A', 'b', 'ab', 'aa', '1', '0', '1.0', 'true', 'null', 'é', 'e\u0301', '\u212b', 'Å', '\0', ' ', 'a ', '\uffff', '\U00010000', 'z', 'Z', '[]', '{}', '\ue000']
SCALARS = [None, True, False] + NUMBERS + STRINGS
LEAVES = [None, False, 0, 1, 1.0, '']


def arrays_objects():
    out = []
    for n in (0, 1, 2):
        out += [list(c) for c in itertools.product(LEAVES, repeat=n)]
    for a, b in itertools.product(LEAVES, repeat=2):
        out += [{'a': a, 'b': b}, {'b': b, 'a': a}]
    out += [{}] + [{k: x} for k in ('a', 'b', '', '0', '1') for x in LEAVES]
    out += [[x] for x in ([], {}, [0], [False], [1], [True], [1.0], {'a': 1}, {'a': True}, {'a': 1.0}, [[]], [{}])]
    out += [{'a': x} for x in ([], {}, [0], [False], [1], [True], [1.0], {'a': 1}, {'a': True}, {'a': 1.0}, {'b': 1}, [[]], [{}])]
    out += [[1, 2, 3], [1, 3, 2], [1, 2], [3, 2, 1], [[1, 2], [3]], [[1], [2, 3]], [[1, 2, 3]], [[], []], [{}, []], [[], {}], [True, 1], [1, True],
            {'a': 1, 'b': 2, 'c': 3}, {'c': 3, 'b': 2, 'a': 1}, {'b': 2, 'a': 1, 'c': 3}, {'a': 1, 'b': 2}, {'a': {'b': 1, 'c': [1]}}, {'a': {'c': [1], 'b': 1}},
            {'a': {'c': [1.0], 'b': True}}, [{'a': 1, 'b': 2}], [{'b': 2, 'a': 1}], [{'b': 2.0, 'a': 1.0}], [{'b': 2.0, 'a': True}], [10**23], [1e23], {'a': 2**53}, {'a': 2**53 + 1},
            {'a': float(2**53)}]
    return out


VALUES = SCALARS + arrays_objects()
CORE = [None, True, False, 0, 1, 0.0, -0.0, 1.0, 2**53, 2**53 + 1, float(2**53), 10**23, 1e23, '', 'a', '0', '1', 'null', [], {}, [0], [False], [None], [1], [1.0], [True], [''], [[]], [{}],
        ['a'], [1, 2], [2, 1], [1, 1], [1, True], [True, 1], [1.0, 2.0], [[1], 2], [1, [2]], {'a': 1}, {'a': 1.0}, {'a': True}, {'b': 1}, {'a': None}, {'': 1}, {'0': 1}, {'a': 1, 'b': 2},
        {'b': 2, 'a': 1}, {'b': 1, 'a': 2}, {'b': 2.0, 'a': 1}, {'a': 1, 'b': False}, {'a': 1, 'b': 0}, {'a': {}}, {'a': []}, {'a': {'b': 1}}, {'a': {'b': True}}, {'a': [1, 2]},
        {'a': [2, 1]}, [{'a': 1, 'b': 2}], [{'b': 2, 'a': 1}], [[1, 2], [1]]]
MORE = CORE + arrays_objects()[7:90:2] + STRINGS[8:20] + [0.1, 0.5, -1]
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c13')


def cases(tier):
    for i in range(len(VALUES)):
        yield ['pairs', i]
    more = VALUES if tier == 'thorough' else MORE
    for i in range(len(more)):
        yield ['triples', tier, i]
        yield ['edits', tier, i]
    for i in range(len(MORE)):
        yield ['keywords', i]
    yield ['order']
    yield ['python']
    for n in sizes.SIZES + sizes.LARGE:
        yield ['size', n]
    for n in sizes.DEPTH + [100, 140]:
        yield ['depth', n]


def large(n):
    """Families of values of n members or characters that differ in one place."""
    nums = list(range(2, n + 2))
    at = sorted({0, 1, min(9, n - 1), n // 2, n - 2, n - 1})
    yield [nums, nums[:-1], nums + [1], nums[::-1], [float(x) for x in nums]] + [nums[:i] + [x] + nums[i + 1:] for i in at for x in ('x', n + 5, [nums[i]])]
    flags = [1] * n
    yield [flags, [1.0] * n, [True] * n] + [flags[:i] + [x] + flags[i + 1:] for i in at for x in (True, 1.0)]
    obj = {f'n{i}': i for i in range(2, n + 2)}
    yield [obj, dict(reversed(obj.items())), {**obj, 'z': 1}, {k: v for k, v in obj.items() if k != f'n{n + 1}'}, {**{k: v for k, v in obj.items() if k != f'n{n + 1}'}, 'z': n + 1}] + \
        [{**obj, f'n{i + 2}': x} for i in at for x in (float(i + 2), 'x', [i + 2])]
    for c in 'x\U0001f600':
        yield [c * n, c * (n - 1), c * (n + 1)] + [(c * n)[:i] + 'y' + (c * n)[i + 1:] for i in at] + [{c * n: 1}, {c * (n - 1) + 'y': 1}, {'y' + c * (n - 1): 1}]
    big = 10 ** min(n, 4000)
    yield [big, big + 1, big - 1, -big] + ([float(big)] if n < 300 else [])
    yield [[nums], [nums, 0], [nums[:-1] + ['x']], {'a': nums}, {'a': nums[:-1] + ['x']}, {'a': obj}, {'a': {**obj, f'n{n + 1}': 'x'}}, [obj], [{**obj, f'n{n + 1}': float(n + 1)}]]


def deep(d):
    for wrap in (lambda x: [0, x], lambda x: {'a': x, 'b': 0}, lambda x: [{'a': x}]):
        vals = [1, True, 1.0, 'x', [], {}, [1], [True], None]
        for _ in range(d):
            vals = [wrap(v) for v in vals]
        yield vals + [wrap(vals[0]), [1]]


def run_case(case, ctx):
    what = case[0]
    if what in ('size', 'depth'):
        n = case[1]
        for vals in (large if what == 'size' else deep)(n):
            wrapped = [JSON(fresh(v)) for v in vals]
            ctx.state((what, n, str(vals)[:30]))
            for (a, ja), (b, jb) in itertools.product(zip(vals, wrapped), repeat=2):
                want = jeq(a, b)
                got = [ja == jb, ja == b, a == jb, not ja != jb, not ja != b]
                ctx.step(5)
                ctx.trace()
                ctx.check(got == [want] * 5, f'{what} {n}: values {vals.index(a)} and {vals.index(b)} of {str(vals)[:200]}: the equalities are {got}, expected {want}')
    elif what == 'pairs':
        a = VALUES[case[1]]
        ctx.state(repr(a))
        ja = JSON(fresh(a))
        ctx.check(ja == ja and not ja != ja, f'{a!r} is not equal to itself')
        for b in VALUES:
            want = jeq(a, b)
            jb = JSON(fresh(b))
            got = [ja == jb, jb == ja, ja == b, b == ja, not ja != jb, not jb != ja, not ja != b, not b != ja]
            ctx.step(8)
            ctx.trace()
            ctx.outcome(want)
            ctx.check(got == [want] * 8, f'{a!r} and {b!r}: the equalities are {got}, expected {want}')
        # as a member of an array, an object and a list
        for b in VALUES[::7]:
            want = jeq(a, b)
            arr = JSON([0.25, fresh(b), 'zz'])
            obj = JSON({'x': fresh(b)})
            got = [ja in arr, a in arr, arr.count(a) == 1, ja in list(arr), obj['x'] == a, ja in obj.values(), JSON([fresh(a)]) == [fresh(b)], JSON({'k': fresh(a)}) == {'k': fresh(b)}]
            ctx.step(8)
            ctx.check(got == [want] * 8, f'{a!r} within a container against {b!r}: {got}, expected {want}')
            if want:
                ctx.check(arr.index(a) == 1, f'{a!r} is not found in {arr!r}')
    elif what == 'triples':
        more = VALUES if case[1] == 'thorough' else MORE
        a = more[case[2]]
        js = [JSON(fresh(v)) for v in more]
        ja = JSON(fresh(a))
        eq_a = [ja == j for j in js]
        for i, b in enumerate(js):
            for k, c in enumerate(js):
                bc = b == c
                ctx.step()
                ctx.check(not (eq_a[i] and bc) or eq_a[k], f'{a!r} == {more[i]!r} == {more[k]!r}, but the first and last are not equal')
                ctx.check(not (eq_a[i] and not bc) or not eq_a[k], f'{a!r} equals {more[i]!r}, and {more[k]!r}, which are not equal')
            ctx.trace(len(js))
    elif what == 'edits':
        more = VALUES if case[1] == 'thorough' else MORE
        a = more[case[2]]
        for b in more:
            made = [('add', JSON(fresh(b)))]
            made[0][1].add('', fresh(a))
            holder = JSON([fresh(b), {'k': fresh(b)}])
            bool(holder == [b]), holder.value
            holder[0] = fresh(a)
            holder[1]['k'] = JSON(fresh(a))
            made += [('set in an array', holder[0]), ('set in an object', holder[1]['k'])]
            if isinstance(a, list) and isinstance(b, list):
                j = JSON(fresh(b))
                bool(j == b), j.value
                while len(j):
                    del j[0]
                for x in a:
                    j.insert(len(j), fresh(x))
                made.append(('delete and insert', j))
            elif isinstance(a, dict) and isinstance(b, dict):
                j = JSON(fresh(b))
                bool(j == b), j.value
                for k in list(j):
                    del j[k]
                for k, x in a.items():
                    j[k] = fresh(x)
                made.append(('delete and set', j))
            for how, j in made:
                ctx.step()
                ctx.trace()
                for c in (a, b, [a], None):
                    want = jeq(a, c)
                    got = [j == c, JSON(fresh(c)) == j, j == JSON(fresh(c)), not j != c]
                    ctx.check(got == [want] * 4, f'{b!r} turned into {a!r} ({how}) against {c!r}: {got}, expected {want}')
            want = jeq([a, {'k': a}], [b, {'k': b}])
            ctx.check((holder == [fresh(a), {'k': fresh(a)}]) and (holder == [fresh(b), {'k': fresh(b)}]) is want, f'an array edited to hold {a!r} for {b!r} is compared wrongly')
    elif what == 'keywords':
        a = MORE[case[1]]
        version = ('2020-12', '2019-09')[case[1] % 2]
        with bench.catalog.cache() as cid:
            kw = {'const': bench.real({'const': a}, version, cid), 'enum': bench.real({'enum': [a]}, version, cid), 'enum2': bench.real({'enum': ['no', a, ['no']]}, version, cid),
                  'unique': bench.real({'uniqueItems': True}, version, cid)}
            fill = [-777000 - i for i in range(24)]
            kw['many'] = bench.real({'enum': fill + [a]}, version, cid)
            kw['mixed'] = bench.real({'enum': fill[:9] + [a] + [f'filler {i}' for i in range(9)] + [[None, 'filler'], {'filler': 1}]}, version, cid)
            for b in MORE:
                want = jeq(a, b)
                got = [kw['const'].evaluate(JSON(fresh(b))).valid, kw['enum'].evaluate(JSON(fresh(b))).valid, kw['enum2'].evaluate(JSON(fresh(b))).valid]
                arrs = [[a, b], [b, a], ['no', a, b], [a, ['no'], b], [a, 'no', {'no': 1}, b], [[a], [b]], [{'k': a}, {'k': b}], fill + [a, b], [a] + fill + [b], [b] + fill[:9] + ['no', ['no'], {'no': 1}, a]]
                got += [kw['many'].evaluate(JSON(fresh(b))).valid, kw['mixed'].evaluate(JSON(fresh(b))).valid]
                got += [not kw['unique'].evaluate(JSON(fresh(x))).valid for x in arrs]
                ctx.step(len(got))
                ctx.trace()
                w = want
                ctx.outcome(f'keyword {want}')
                ctx.check(got == [w] * len(got), f'{version}: {a!r} and {b!r} in const, enum, enum and uniqueItems of {len(arrs)} arrays: {got}, expected {want}')
                if ctx.thorough and case[1] < 45:
                    for c in MORE[:45]:
                        w = not (jeq(a, b) or jeq(a, c) or jeq(b, c))
                        ctx.step()
                        ctx.check(kw['unique'].evaluate(JSON([fresh(a), fresh(b), fresh(c)])).valid is w, f'uniqueItems on {[a, b, c]!r} is not {w}')
    elif what == 'order':
        for fam in (NUMBERS, STRINGS):
            for a, b in itertools.product(fam, repeat=2):
                for op in (operator.lt, operator.le, operator.gt, operator.ge):
                    want = op(a, b)
                    got = [op(JSON(a), JSON(b)), op(JSON(a), b), op(a, JSON(b))]
                    ctx.step(3)
                    ctx.trace()
                    ctx.check(got == [want] * 3, f'{op.__name__}({a!r}, {b!r}) is {got} between documents, {want} between the values')
            ctx.check([j.value for j in sorted(map(JSON, fam))] == sorted(fam), 'documents sort differently from their values')
            ctx.check(min(map(JSON, fam)).value == min(fam) and max(map(JSON, fam)).value == max(fam), 'min and max of documents differ from those of their values')
        for a, b in itertools.product([1, 1.5, 'a', ''], repeat=2):
            if isinstance(a, str) != isinstance(b, str):
                for op in (operator.lt, operator.le, operator.gt, operator.ge):
                    for x, y in ((JSON(a), JSON(b)), (JSON(a), b), (a, JSON(b))):
                        ctx.step()
                        try:
                            r = op(x, y)
                        except TypeError:
                            continue
                        ctx.violation(f'{op.__name__}({x!r}, {y!r}) is {r!r}; numbers and strings are not ordered')
    else:
        # other plain forms of arrays and objects
        import collections
        import types
        for v in [x for x in VALUES if isinstance(x, (list, dict))]:
            forms = [tuple(v), collections.deque(v), collections.UserList(v)] if isinstance(v, list) else [collections.OrderedDict(v), types.MappingProxyType(v), collections.UserDict(v)]
            for f in forms:
                ctx.step()
                ctx.trace()
                ctx.check(JSON(v) == f and JSON(f) == v and not JSON(v) != f, f'{v!r} is not equal to {f!r}')
