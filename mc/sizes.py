"""Schemas and instances along a ladder of sizes: what decides the verdict is at the end, beyond any limit."""
I, S = {'type': 'integer'}, {'type': 'string'}
SIZES = [9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
LARGE = [499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
HUGE = [4095, 4096, 4097, 9999, 10000, 10001, 32768, 65535, 65536, 65537]
DEPTH = [5, 9, 10, 11, 16, 17, 32, 33, 50, 64, 65]


def ladder(tier):
    return SIZES + LARGE + HUGE[:3]


def names(n):
    return [f'n{i}' for i in range(n)]


def texts(n):
    """Assertions on a string of n characters."""
    for c in 'x\U0001f600':
        near = [c * (n - 1), c * n, c * (n + 1), c * (n - 1) + 'y', 'y' + c * (n - 1)]
        for k in (n - 1, n, n + 1):
            yield {'maxLength': k}, near
            yield {'minLength': k}, near
        for p in ('y', 'y$', '^y', '^[^y]*$', '^(.)*y$' if n < 500 else 'y$'):
            yield {'pattern': p}, near
        yield {'const': c * n}, near
        yield {'enum': [c * (n + 1), c * (n - 1) + 'y']}, near
    yield {'minimum': 10 ** min(n, 4000), 'multipleOf': 3}, [10 ** min(n, 4000) + k for k in (-1, 0, 1, 2)]
    yield {'const': 10 ** min(n, 4000)}, [10 ** min(n, 4000) + k for k in (-1, 0, 1)]
    yield {'type': 'integer'}, [10 ** min(n, 4000), 10.0 ** min(n, 300), 10.0 ** -min(n, 300)]


def counts(n):
    """Assertions on arrays and objects of n members."""
    arr = [list(range(k)) for k in (n - 1, n, n + 1)]
    obj = [dict.fromkeys(names(k), 0) for k in (n - 1, n, n + 1)]
    for k in (n - 1, n, n + 1):
        yield {'maxItems': k}, arr
        yield {'minItems': k}, arr
        yield {'maxProperties': k}, obj
        yield {'minProperties': k}, obj
        yield {'required': names(k)}, obj
        yield {'required': names(k)[::-1]}, obj
    last = {**obj[1], f'n{n - 1}': 1}
    yield {'const': arr[1]}, arr + [arr[0] + [0], [True] + arr[1][1:], arr[0] + [float(n - 1)], arr[0] + ['x']]
    yield {'const': obj[1]}, obj + [last, dict(reversed(obj[1].items())), {**obj[0], 'z': 0}, {**obj[1], f'n{n - 1}': False}]
    yield {'enum': arr[1]}, [n - 1, n, n - 2, float(n - 1), str(n - 1), True]
    yield {'enum': [[k] for k in arr[1]] + [obj[1]]}, [[n - 1], [n], n - 1, obj[1], last]
    yield {'dependentRequired': {f'n{n - 1}': names(n)[:-1]}}, obj + [{**obj[1], 'z': 1}, {k: 0 for k in names(n)[1:]}, {k: 0 for k in names(n) if k != f'n{n - 2}'}]
    yield {'dependentRequired': {k: ['z'] for k in names(n)}}, [{f'n{n - 1}': 0}, {f'n{n - 1}': 0, 'z': 1}, {f'n{n}': 0}]
    if n <= 257:
        yield {'uniqueItems': True}, arr + [arr[1] + [0], arr[1] + [n - 1], arr[0] + [float(n - 2)], [str(k) for k in arr[1]] + [0], arr[1] + [False], [0] + arr[1][::-1], [[k] for k in arr[1]] + [[n - 1]]]
        yield {'uniqueItems': True}, [[{'k': k, 'v': [k]} for k in arr[1]] + [{'v': [x], 'k': n - 1}] for x in (n - 1, n - 2, True)]


def inplace(n):
    few = [{'maximum': k} for k in range(n)]
    at = [-1, 0, 1, n // 2, n - 2, n - 1, n]
    yield {'allOf': few[::-1]}, at
    yield {'allOf': [True] * (n - 1) + [S]}, [1, 's']
    yield {'anyOf': [{'const': k} for k in range(n)]}, at
    yield {'anyOf': [False] * (n - 1) + [S]}, [1, 's']
    yield {'oneOf': [{'const': k} for k in range(n)]}, at
    yield {'oneOf': [S] + [False] * (n - 2) + [S]}, [1, 's']
    yield {'oneOf': [False] * (n - 1) + [S]}, [1, 's']
    yield {'oneOf': few}, at
    deps = {k: {'required': ['z']} for k in names(n)}
    yield {'dependentSchemas': deps}, [{f'n{n - 1}': 0}, {f'n{n - 1}': 0, 'z': 0}, {f'n{n}': 0}, dict.fromkeys(names(n), 0), {**dict.fromkeys(names(n), 0), 'z': 0}]


def nested(d):
    """In-place applicators d deep."""
    for k, wrap in (('not', lambda s: {'not': s}), ('allOf', lambda s: {'allOf': [True, s]}), ('anyOf', lambda s: {'anyOf': [False, s]}), ('oneOf', lambda s: {'oneOf': [False, s]}),
                    ('if', lambda s: {'if': s, 'else': False}), ('then', lambda s: {'if': True, 'then': s}), ('else', lambda s: {'if': False, 'else': s})):
        s = I
        for _ in range(d):
            s = wrap(s)
        yield s, [1, 's']


def children(n, version):
    new = version == '2020-12'
    ints = list(range(n))
    worse = [ints, ints[:-1] + ['x'], ints + ['x'], ['x'] + ints[1:], ints[:n // 2] + ['x'] + ints[n // 2 + 1:]]
    yield {'items': I}, worse
    yield {'contains': S}, worse
    for k in (n - 1, n, n + 1):
        yield {'contains': I, 'minContains': k}, worse
        yield {'contains': I, 'maxContains': k}, worse
    p = 'prefixItems' if new else 'items'
    more = 'items' if new else 'additionalItems'
    yield {p: [I] * n}, worse
    yield {p: [I] * n, more: False}, worse + [ints + [1]]
    yield {p: [True] * (n - 1) + [I]}, worse
    yield {p: [I] * (n - 1), more: S}, worse
    yield {p: [I], more: I}, worse
    ns = names(n)
    good = dict.fromkeys(ns, 1)
    objs = [good, {**good, ns[-1]: 's'}, {**good, ns[0]: 's'}, {**good, 'z': 's'}, {**good, 'z': 1}, {ns[-1]: 's'}, {'z': 's'}, {'z': 's', **good}]
    yield {'properties': dict.fromkeys(ns, I)}, objs
    yield {'properties': {**dict.fromkeys(ns, True), 'z': I}}, objs
    yield {'properties': dict.fromkeys(ns, I), 'additionalProperties': False}, objs
    yield {'properties': dict.fromkeys(ns[:-1], I), 'additionalProperties': I}, objs
    yield {'additionalProperties': I}, objs
    yield {'propertyNames': {'pattern': '^n'}}, objs
    yield {'propertyNames': {'enum': ns}}, objs
    if n <= 1001:
        yield {'patternProperties': {f'^{k}$': I for k in ns}}, objs[1:3] + objs[4:7]
    yield {'patternProperties': {'^n': I}, 'additionalProperties': False}, objs


def below(d, version):
    """Child applicators d deep, and an instance as deep."""
    for wrap, w in ((lambda s: {'items': s}, lambda x: [x]), (lambda s: {'properties': {'a': s}}, lambda x: {'a': x}), (lambda s: {'additionalProperties': s}, lambda x: {'a': x}),
                    (lambda s: {'contains': s}, lambda x: [0, x] if False else [x]), (lambda s: {'patternProperties': {'a': s}}, lambda x: {'a': x})):
        s, good, bad = I, 1, 's'
        for _ in range(d):
            s, good, bad = wrap(s), w(good), w(bad)
        yield s, [good, bad]
    good, bad = 1, 's'
    for _ in range(d):
        good, bad = [0, good], [0, bad]
    yield {'type': ['array', 'integer'], 'items': {'$ref': '#'}}, [good, bad]
    yield {'const': good}, [good, bad]
    yield {'enum': [bad, good]}, [good, bad, [good]]


def unevaluated(n, version):
    ns = names(n)
    good = dict.fromkeys(ns, 1)
    objs = [good, {**good, 'z': 1}, {ns[-1]: 1}, {'z': 1}, {**good, ns[-1]: 's'}]
    u = 'unevaluatedProperties'
    yield {'properties': dict.fromkeys(ns, True), u: False}, objs
    yield {'allOf': [{'properties': {k: True}} for k in ns], u: False}, objs
    yield {'anyOf': [{'properties': {k: I}, 'required': [k]} for k in ns], u: False}, objs
    yield {'$ref': '#/$defs/d', '$defs': {'d': {'properties': dict.fromkeys(ns, I)}}, u: False}, objs
    yield {'dependentSchemas': {ns[-1]: {'patternProperties': {'^n': True}}}, u: False}, objs
    yield {'properties': {ns[0]: I}, u: I}, objs
    p = 'prefixItems' if version == '2020-12' else 'items'
    u = 'unevaluatedItems'
    ints = list(range(n))
    arrs = [ints, ints + ['x'], ints[:-1] + ['x'], ints[:-1], ints + [1]]
    yield {p: [True] * n, u: False}, arrs
    yield {'allOf': [{p: [True] * k} for k in (1, n // 2, n)], u: False}, arrs
    yield {'anyOf': [{p: [True] * (n - 1) + [S]}, {p: [True] * (n - 1)}], u: False}, arrs
    yield {p: [True], u: I}, arrs
    if version == '2020-12':
        yield {'contains': I, u: False}, arrs
        yield {'contains': I, u: S}, arrs


def layers(d, version):
    """References and in-place applicators d deep around what is evaluated."""
    for inner, u, insts in (({'properties': {'a': I}}, 'unevaluatedProperties', [{'a': 1}, {'a': 's'}, {'a': 1, 'b': 1}, {}]),
                            ({'prefixItems' if version == '2020-12' else 'items': [I]}, 'unevaluatedItems', [[1], ['s'], [1, 1], []])):
        s = inner
        for i in range(d):
            s = {'allOf': [s]} if i % 3 == 0 else {'anyOf': [s, False]} if i % 3 == 1 else {'if': s}
        if 'if' not in str(s):
            yield {**s, u: False}, insts
        yield {'$ref': f'#/$defs/d{d - 1}', '$defs': {f'd{i}': {'$ref': f'#/$defs/d{i - 1}'} if i else inner for i in range(d)}, u: False}, insts
        s = inner
        for i in range(d):
            s = {'allOf': [s]}
        yield {**s, u: False}, insts


def titled(n, **more):
    return [{'title': f't{i}', 'type': 'integer', **more} for i in range(n)]


def broad(n, version):
    """Schemas of n subschemas with an annotation each, and instances that make the last one matter."""
    new = version == '2020-12'
    ts = titled(n)
    ns = names(n)
    both = [1, 's']
    yield {'allOf': ts}, both
    yield {'allOf': titled(n - 1) + [{'title': 'last', 'type': 'string'}]}, both
    yield {'anyOf': ts}, both
    yield {'anyOf': titled(n - 1) + [{'title': 'last', 'type': 'string'}]}, both
    yield {'oneOf': titled(n - 1) + [{'title': 'last', 'type': 'string'}]}, both
    yield {f'x-{i}': {'k': [i]} for i in range(n)}, both
    yield {'type': 'integer', **{f'x-{i}': i for i in range(n)}}, both
    good = dict.fromkeys(ns, 1)
    objs = [good, {**good, ns[-1]: 's'}, dict.fromkeys(ns, 's'), {ns[-1]: 's', 'z': 1}, {'z': 's', **good}]
    yield {'properties': dict(zip(ns, ts)), 'required': ns}, objs
    yield {'properties': dict(zip(ns[:-1], ts)), 'additionalProperties': {'title': 'more', 'type': 'integer'}}, objs
    yield {'additionalProperties': {'title': 'more', 'type': 'integer'}}, objs
    if n <= 257:
        yield {'patternProperties': {f'^{k}$': t for k, t in zip(ns, ts)}}, objs[1:4]
    yield {'patternProperties': {'^n': {'title': 'pp', 'type': 'integer'}}, 'additionalProperties': False}, objs
    yield {'properties': dict(zip(ns[:2], ts)), 'unevaluatedProperties': {'title': 'uneval', 'type': 'integer'}}, objs
    yield {'allOf': [{'properties': {k: t}} for k, t in zip(ns, ts)], 'unevaluatedProperties': False}, objs
    yield {'propertyNames': {'title': 'name', 'maxLength': len(ns[-1]) - 1}}, objs[:2]
    yield {'dependentSchemas': {k: {'title': 'dep', 'minProperties': 3} for k in ns}}, objs + [{ns[-1]: 1}]
    ints = list(range(n))
    arrs = [ints, ints[:-1] + ['s'], ['s'] * n, ints + ['s']]
    one = {'title': 'each', 'type': 'integer'}
    yield {'items': one}, arrs
    yield {'contains': one}, arrs
    yield {'contains': {'title': 'each', 'type': 'string'}}, arrs
    yield {'prefixItems' if new else 'items': ts, 'items' if new else 'additionalItems': False}, arrs
    yield {'prefixItems' if new else 'items': ts[:1], 'items' if new else 'additionalItems': one}, arrs
    yield {'prefixItems' if new else 'items': ts[:1], 'unevaluatedItems': one}, arrs
    yield {'items': {'items': one}}, [[[i, 's' if i == n - 1 else 0] for i in range(n)]]
    yield {'allOf': [{'$ref': f'#/$defs/d{i}'} for i in range(n)], '$defs': {f'd{i}': t for i, t in enumerate(ts)}}, both
    yield {'anyOf': [{'$ref': '#/$defs/d'}] * n, '$defs': {'d': one}}, both


def sized(tier):
    """Cases for `broad` and `tower`."""
    for v in ('2020-12', '2019-09'):
        for n in SIZES + ([513, 1001, 1025] if tier == 'quick' else LARGE):
            for part in range(4 if n > 257 else 1):
                yield ['size', v, n, part]
        for d in DEPTH:
            yield ['depth', v, d]


def compare_sized(ctx, case, compare):
    """Run such a case; True if it was one."""
    if case[0] == 'size':
        what, v, n, part = case
        for s, insts in list(broad(n, v))[part::4 if n > 257 else 1]:
            compare(ctx, s, v, {}, insts)
    elif case[0] == 'depth':
        for s, insts in tower(case[2], case[1]):
            compare(ctx, s, case[1], {}, insts)
    return case[0] in ('size', 'depth')


def tower(d, version):
    """Annotated schemas d deep."""
    new = version == '2020-12'
    leaf = {'title': 'leaf', 'type': 'integer'}
    both = [1, 's']
    for wrap in (lambda s: {'allOf': [s]}, lambda s: {'anyOf': [{'title': 'other', 'type': 'null'}, s]}, lambda s: {'allOf': [{'title': 'first'}, s]}, lambda s: {'if': True, 'then': s},
                 lambda s: {'if': False, 'else': s}, lambda s: {'oneOf': [False, s]}, lambda s: {'not': {'not': s}}):
        s = leaf
        for _ in range(d if 'not' not in wrap(True) else d // 2):
            s = {'title': 'layer', **wrap(s)}
        yield s, both
    for wrap, w in ((lambda s: {'items': s}, lambda x: [x]), (lambda s: {'properties': {'a': s, 'b': True}}, lambda x: {'a': x, 'b': 0}),
                    (lambda s: {'contains': s}, lambda x: [x]), (lambda s: {'prefixItems' if new else 'items': [True, s]}, lambda x: [0, x])):
        s, good, bad = leaf, 1, 's'
        for _ in range(d):
            s, good, bad = {'title': 'layer', **wrap(s)}, w(good), w(bad)
        yield s, [good, bad]
    good, bad = 1, 's'
    for _ in range(d):
        good, bad = [0, good], [0, bad]
    yield {'title': 'any', 'type': ['array', 'integer'], 'items': {'$ref': '#'}}, [good, bad]
    yield {'$ref': '#/$defs/d0', '$defs': {**{f'd{i}': {'title': f't{i}', '$ref': f'#/$defs/d{i + 1}'} for i in range(d)}, f'd{d}': leaf}}, both
    yield {'$ref': 'r0', '$defs': {**{f'd{i}': {'$id': f'r{i}', 'title': f't{i}', '$ref': f'r{i + 1}'} for i in range(d)}, 'e': {'$id': f'r{d}', **leaf}}}, both
    s = leaf
    for i in range(d):
        s = {'$id': f'd{i}/', 'title': f't{i}', 'allOf': [s]}
    yield s, both
    good, bad = 1, 's'
    s = leaf
    for i in range(d):
        s = {'properties': {'a': s}, 'unevaluatedProperties': False}
        good, bad = {'a': good}, {'a': bad}
    yield s, [good, bad]
