"""C04: unevaluatedProperties and unevaluatedItems beside every nesting of in-place applicators."""
import itertools

import evalcheck
import sizes

MEANING = ('states: distinct (dialect, schema) pairs; transitions: evaluations by the real code; traces: schemas whose verdict was compared with '
           'the reference on every instance')
BOUNDS = {
    'quick': 'unevaluatedProperties / unevaluatedItems (false, and a schema) beside: every evaluating leaf; every in-place applicator over every '
             'leaf or pair of leaves; every in-place applicator over those (depth 2); references ($ref, $dynamicRef, $recursiveRef) to those; '
             'nested unevaluated keywords; the same below items and properties; on every object over 3 names (2 values) and array of up to 3 items; 10 sizes up to 256, 11 depths up to 65',
    'thorough': 'the same with all leaves in both positions at depth 2, and depth 3 over a smaller set of leaves'}

I, S = {'type': 'integer'}, {'type': 'string'}
PROPS = [
    {'properties': {'a': True}}, {'properties': {'a': I}}, {'properties': {'b': S}}, {'patternProperties': {'[bc]': True}}, {'patternProperties': {'a': S}},
    {'properties': {'a': True}, 'required': ['b']}, {'properties': {'a': True}, 'additionalProperties': I}, {'additionalProperties': True}, {'additionalProperties': S},
    {'properties': {'a': True}, 'unevaluatedProperties': S}, {'unevaluatedProperties': True}, {'unevaluatedProperties': False}, True, False, {'required': ['c']},
    {'propertyNames': {'enum': ['a', 'b']}}, {'properties': {'a': False}},
]
ITEMS20 = [
    {'prefixItems': [True]}, {'prefixItems': [I]}, {'prefixItems': [True, S]}, {'items': True}, {'items': I}, {'prefixItems': [I], 'items': S}, {'contains': I},
    {'contains': S, 'minContains': 0}, {'contains': S, 'maxContains': 1}, {'prefixItems': [True], 'minItems': 2}, {'unevaluatedItems': I}, {'unevaluatedItems': False},
    {'prefixItems': [True], 'unevaluatedItems': S}, {'prefixItems': [True], 'contains': S}, True, False, {'maxItems': 2},
]
ITEMS19 = [
    {'items': [True]}, {'items': [I]}, {'items': [True, S]}, {'items': True}, {'items': I}, {'items': [I], 'additionalItems': S}, {'items': [I], 'additionalItems': True},
    {'additionalItems': False}, {'contains': I}, {'items': [True], 'minItems': 2}, {'unevaluatedItems': I}, {'unevaluatedItems': False},
    {'items': [True], 'unevaluatedItems': S}, True, False, {'maxItems': 2}, {'items': {'type': 'string'}},
]
OBJS = [dict(zip(c, vs)) for k in range(4) for c in itertools.combinations('abc', k) for vs in itertools.product([1, 'x'], repeat=k)] + [3, 'x', [1]]
ARRS = [list(c) for k in range(4) for c in itertools.product([1, 'x'], repeat=k)] + [3, 'x', {'a': 1}]


def inplace(xs, ys):
    """Every in-place applicator over each x, or over each x beside each y."""
    out = []
    for x in xs:
        for k in ('allOf', 'anyOf', 'oneOf'):
            out.append({k: [x]})
        out += [{'not': x}, {'not': {'not': x}}, {'if': x}, {'then': x}, {'dependentSchemas': {'a': x}}]
        for y in ys:
            for k in ('allOf', 'anyOf', 'oneOf'):
                out += [{k: [x, y]}, {k: [y, x]}]
            out += [{'if': x, 'then': y}, {'if': x, 'else': y}, {'if': y, 'then': x}, {'if': y, 'else': x}, {'if': y, 'then': x, 'else': y}, {'if': x, 'then': x, 'else': y},
                    {'dependentSchemas': {'a': x, 'b': y}}, {'allOf': [x], 'anyOf': [y, True]}]
    return out


def spec(kind, version):
    if kind == 'p':
        return 'unevaluatedProperties', PROPS, OBJS
    return 'unevaluatedItems', ITEMS20 if version == '2020-12' else ITEMS19, ARRS


def reps(kind, version):
    """A few leaves that differ in what they evaluate and in when they succeed."""
    L = spec(kind, version)[1]
    return [L[i] for i in ((1, 3, 5, 13) if kind == 'p' else (1, 2, 6, 15) if version == '2020-12' else (1, 2, 9, 14))]


def depth1(kind, version):
    return inplace(spec(kind, version)[1], reps(kind, version))


def cases(tier):
    deep = tier == 'thorough'
    for version in ('2020-12', '2019-09'):
        for kind in 'pi':
            L = spec(kind, version)[1]
            for i in range(len(L)):
                yield ['leaf', version, kind, i]
            n = len(depth1(kind, version))
            for i in range(0, n, 25):
                yield ['d1', version, kind, i]
            m = len(inplace(L if deep else reps(kind, version) + L[7:8], reps(kind, version)[:4 if deep else 2]))
            for i in range(m):
                yield ['d2', version, kind, i]
        for n in sizes.SIZES[:: 1 if deep else 2] + (sizes.LARGE[2::4] if deep else []):
            yield ['wide', version, n]
        for d in sizes.DEPTH:
            yield ['high', version, d]


bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c04')


def one(ctx, schema, version, insts):
    if not ctx.state((version, repr(schema))):
        return
    n = evalcheck.verdicts(ctx, bench, schema, version, insts)
    ctx.trace()
    ctx.outcome(tuple(n))


def hosts(u, s, version, insts, kind, how):
    """The unevaluated keyword `u` in positions relative to `s` (schema, instances); how: 0 few, 1 more, 2 all."""
    s = s if isinstance(s, dict) else {'allOf': [s]}
    for f in ([False, S] if how == 2 else [False]):
        if u not in s:
            yield {**s, u: f}, insts
        if how == 0:
            continue
        yield {'$defs': {'d': s}, '$ref': '#/$defs/d', u: f}, insts
        if u not in s:
            # one level down: outer children are evaluated, inner ones are not
            yield {'items': {**s, u: f}}, [[x] for x in insts] + [[x, insts[-4]] for x in insts]
        if how == 1:
            continue
        yield {u: f, 'allOf': [s]}, insts
        yield {'allOf': [s, {u: f}]}, insts
        yield {'$defs': {'d': s}, 'anyOf': [{'$ref': '#/$defs/d'}], u: f}, insts
        yield {u: f, '$ref': '#/$defs/d', '$defs': {'d': s}}, insts
        if version == '2020-12':
            yield {'$defs': {'d': {'$dynamicAnchor': 'D', **s}}, '$dynamicRef': '#D', u: f}, insts
            yield {u: f, '$dynamicRef': '#D', '$defs': {'d': {'$dynamicAnchor': 'D', **s}}}, insts
        else:
            yield {'$defs': {'d': {'$id': 'inner', **s, '$defs': {'e': {u: f, '$recursiveRef': '#'}}}}, '$ref': 'inner#/$defs/e'}, insts
        if u not in s:
            yield {u: f, **s}, insts
            yield {'properties': {'k': {**s, u: f}}}, [{'k': x} for x in insts]
        yield {'properties': {'a': s}, 'items': s, u: f}, insts


def run_case(case, ctx):
    if case[0] in ('wide', 'high'):
        what, version, n = case
        for s, insts in (sizes.unevaluated if what == 'wide' else sizes.layers)(n, version):
            ctx.state((version, what, n, list(s), len(str(s))))
            ctx.outcome(tuple(evalcheck.verdicts(ctx, bench, s, version, insts)))
            ctx.trace()
        return
    what, version, kind, i = case
    u, L, insts = spec(kind, version)
    if what == 'leaf':
        for s, ii in hosts(u, L[i], version, insts, kind, 2):
            one(ctx, s, version, ii)
        for y in L:
            if isinstance(L[i], dict) and isinstance(y, dict) and not set(L[i]) & set(y):
                for f in (False, S):
                    if u not in L[i] and u not in y:
                        one(ctx, {**L[i], **y, u: f}, version, insts)
        # recursion through the instance
        if isinstance(L[i], dict) and u not in L[i]:
            key = {'p': 'a', 'i': None}[kind]
            rec = {'$ref': '#'}
            base = {'anyOf': [{'type': 'number'}, {'type': 'string'}, {'allOf': [L[i]], u: False}]}
            one(ctx, base, version, insts)
            nest = {'properties': {'a': rec}} if key else ({'prefixItems': [rec]} if version == '2020-12' else {'items': [rec]})
            for s in ({**nest, 'allOf': [L[i]], u: False}, {'allOf': [nest, L[i]], u: False}):
                one(ctx, {**s, 'type': ['object', 'array', 'number', 'string']}, version,
                    insts + [({'a': x, 'b': 1} if key else [x, 1]) for x in insts] + [({'a': {'a': x}} if key else [[x]]) for x in insts])
            if version == '2019-09':
                r = {'$recursiveAnchor': True, **(({'properties': {'a': {'$recursiveRef': '#'}}}) if key else {'items': [{'$recursiveRef': '#'}]}), 'allOf': [L[i]], u: False}
                one(ctx, r, version, insts + [({'a': x} if key else [x]) for x in insts] + [({'a': x, 'b': 'x'} if key else [x, 'x']) for x in insts])
    elif what == 'd1':
        for x in depth1(kind, version)[i:i + 25]:
            for s, ii in hosts(u, x, version, insts, kind, 2 if ctx.thorough else 1):
                one(ctx, s, version, ii)
    else:
        xs = inplace(L if ctx.thorough else reps(kind, version) + L[7:8], reps(kind, version)[:4 if ctx.thorough else 2])
        r = reps(kind, version)
        for y in inplace([xs[i]], [r[0], r[-1]] if not ctx.thorough else r):
            for s, ii in hosts(u, y, version, insts, kind, 1 if ctx.thorough else 0):
                one(ctx, s, version, ii)
            if ctx.thorough:
                for z in inplace([y], []):
                    for s, ii in hosts(u, z, version, insts, kind, 0):
                        one(ctx, s, version, ii)
