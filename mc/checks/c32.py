"""C32: the errors of every failed evaluation, by location, against the failures of the reference evaluation."""
import collections
import itertools
import json

from jschon import JSON

import corpus
import evalcheck
import refeval
import sizes
from checks import c10
from corpus import A, B, I, S
from gen import fresh

MEANING = ('states: distinct (dialect, schema, documents); transitions: evaluations by the real code; traces: failed evaluations of which the complete list of error '
           'locations was compared with the failing keyword applications of the recorded reference evaluation')
BOUNDS = {
    'quick': 'schemas of 9 to 1025 subschemas, members or items and schemas, instances and reference chains 5 to 65 deep; every applicator over 10 leaves with each subschema moved behind each kind of reference; every applicator over every applicator over 3 leaves; every pair of 30 '
             'keywords side by side, at the root and below 8 applicators; 18 assertions failing together in every subset of up to 3; on 22 to 30 instances',
    'thorough': 'depth 2 over 5 leaves, also behind each kind of reference; depth 3 over 2 leaves; triples of keywords'}
ASSUMPTIONS = ['errors below if, and below contains, minContains, additionalItems and unevaluated keywords where the specification leaves open what fails, may be listed or not',
               'which applicators report an error of their own, beside those of their subschemas, is left open']

DEEP = [I, {'required': ['p']}, False, {'properties': {'a': I}}, {'minItems': 2}]
MORE = [{'a': 'x', 'b': 'y', 'c': 'z'}, {'a': 'x', 'b': {'a': 'x', 'b': []}}, ['x', 'y', 'z'], [['x', 'y'], [1, 'z'], 's'], [{'a': 'x'}, {'a': 'y', 'p': []}, {'b': 's'}], [[], {}, [[], {}]], '', 'long text', -5, 2.5, True, False]
FAILS = [('type', 'boolean'), ('enum', ['no']), ('const', 'no'), ('minimum', 100), ('exclusiveMinimum', 100), ('maximum', -100), ('exclusiveMaximum', -100), ('multipleOf', 7), ('minLength', 100), ('maxLength', 0),
         ('pattern', '^no$'), ('minItems', 100), ('maxItems', 0), ('uniqueItems', True), ('minProperties', 100), ('maxProperties', 0), ('required', ['no', 'nope']), ('dependentRequired', {'a': ['no'], 'b': ['a', 'nope']})]
OPEN = ('if', 'contains', 'minContains')
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c32')


def cases(tier):
    deep = tier == 'thorough'
    yield from sizes.sized(tier)
    for v in ('2020-12', '2019-09'):
        for i in range(len(corpus.depth1(v))):
            yield ['d1', v, i]
        for x in range(5 if deep else 3):
            for i in range(len(corpus.single(True, v))):
                yield ['d2', v, x, i]
                if deep and x < 2:
                    for j in range(len(corpus.single(True, v))):
                        yield ['d3', v, x, i, j]
        for i in range(len(c10.pieces(v))):
            yield ['side', v, i]
        for i in range(len(FAILS)):
            yield ['fails', v, i]


def compare(ctx, schema, version, docs, instances):
    if not ctx.state((version, repr(schema), repr(docs))):
        return
    ev, node = evalcheck.ref(schema, version, docs, record=True)
    bench.source.docs = docs
    with bench.catalog.cache() as cid:
        real = bench.real(schema, version, cid)
        for inst in instances:
            o = ev.run(node, inst)
            r = real.evaluate(JSON(fresh(inst)))
            ctx.step()
            if r.valid is not o.valid:
                continue
            ctx.trace()
            check(ctx, r, o, ev, f'{version} {json.dumps([schema, docs] if docs else schema)} on {json.dumps(inst)}')


def check(ctx, r, o, ev, text):
    out = r.output('basic')
    direct = list(r.collect_errors())
    if o.valid:
        ctx.check(not direct and 'errors' not in out and 'error' not in out, f'{text}: a successful evaluation has errors {direct!r}')
        return
    units = out.get('errors', [])
    listed = collections.Counter((evalcheck.ptr(u['keywordLocation']), evalcheck.ptr(u['instanceLocation'])) for u in units)
    ctx.outcome(len(listed))
    by = collections.defaultdict(list)
    for (e, i), (verdict, at) in ev.outcome.items():
        by[e].append((i, verdict))

    def above(e, i):
        """Verdicts of the applications that enclose (e, i), but for those left open."""
        for n in range(1, len(e)):
            for j, verdict in by.get(e[:n], ()):
                if i[:len(j)] == j:
                    yield e[:n], verdict

    for (e, i), n in listed.items():
        ctx.check(n == 1, f'{text}: the error at {e} for {i} is listed {n} times')
        if e and e[-1] not in OPEN:
            got = ev.outcome.get((e, i))
            ctx.check(got is not None and got[0] is not True, f'{text}: an error is listed at {e} for {i}, where nothing failed')
        if not set(e) & set(OPEN):
            bad = [p for p, verdict in above(e, i) if verdict is True]
            ctx.check(not bad, f'{text}: an error is listed at {e} for {i}, though {bad} passed')
    for (e, i), (verdict, at) in ev.outcome.items():
        if verdict is not False or set(e) & set(OPEN + ('additionalItems',)) or (e, i) in listed:
            continue
        if not (e[-1] in refeval.ASSERT and at not in ev.reg.nodes or at in ev.reg.nodes and ev.reg.nodes[at].value is False):
            continue
        ctx.check(any(v is not False for _, v in above(e, i)), f'{text}: {e} fails for {i}, but no error is listed there; listed are {sorted(listed)}')
    # collected directly, with and without filters
    texts = collections.Counter(repr(u['error']) for u in units)
    ctx.check(collections.Counter(map(repr, direct)) == texts, f'{text}: collect_errors gives {direct!r}, the basic output lists {dict(texts)}')
    for kw in sorted({e[-1] for e, _ in listed if e} | {'type', 'title'}):
        a = collections.Counter(map(repr, r.collect_errors(key=kw)))
        b = collections.Counter(repr(u['error']) for u in units if evalcheck.ptr(u['keywordLocation'])[-1:] == (kw,))
        ctx.check(a == b, f'{text}: collect_errors(key={kw!r}) gives {dict(a)}, expected {dict(b)}')
    for path in sorted({i for _, i in listed}):
        node = r.instance
        try:
            for k in path:
                node = node[k] if node.type == 'object' else node[int(k)]
        except (KeyError, IndexError):
            continue
        if tuple(node.path) != path:
            continue
        a = collections.Counter(map(repr, r.collect_errors(instance=node)))
        b = collections.Counter(repr(u['error']) for u in units if evalcheck.ptr(u['instanceLocation']) == path)
        ctx.check(a == b, f'{text}: collect_errors for the instance at {path} gives {dict(a)}, expected {dict(b)}')


def below(s, v):
    return [{'allOf': [s, True]}, {'properties': {'a': s, 'b': s}}, {'items': s}, {'anyOf': [s, s]}, {'$ref': '#/$defs/s', '$defs': {'s': s}}, {'additionalProperties': s, 'unevaluatedItems': s},
            {'if': True, 'then': s}, {'not': {'not': s}}]


def run_case(case, ctx):
    if sizes.compare_sized(ctx, case, compare):
        return
    what, v = case[:2]
    every = corpus.INST + MORE
    if what == 'd1':
        s = corpus.depth1(v)[case[2]]
        ways = None if ctx.thorough or case[2] % 3 == 0 else ['chain', 'pointer'] + (['dynres'] if v == '2020-12' else [])
        for t, docs in corpus.variants(s, v, ways):
            compare(ctx, t, v, docs, every)
    elif what == 'd2':
        for s in corpus.single(corpus.single(DEEP[case[2]], v)[case[3]], v):
            for t, docs in corpus.variants(s, v) if ctx.thorough else [(s, {})]:
                compare(ctx, t, v, docs, every)
    elif what == 'd3':
        for s in corpus.single(corpus.single(corpus.single(DEEP[case[2]], v)[case[3]], v)[case[4]], v):
            compare(ctx, s, v, {}, every)
    elif what == 'side':
        ps = c10.pieces(v)
        i = case[2]
        for j in range(i + 1, len(ps)):
            for more in [()] + ([(ps[k],) for k in range(j + 1, len(ps))] if ctx.thorough else []):
                s = dict([ps[i], ps[j], *more])
                defs = {'$defs': {'f': {'title': 'f', 'required': ['p'], 'type': ['integer', 'object', 'array']}}} if '$ref' in s else {}
                compare(ctx, {**s, **defs}, v, {}, every)
                if not defs and '$anchor' not in s:
                    for t in below(s, v):
                        compare(ctx, t, v, {}, every if ctx.thorough else every[(i + j) % 2::2])
    else:
        i = case[2]
        for n in (0, 1, 2):
            for rest in itertools.combinations(FAILS[i + 1:], n):
                s = dict((FAILS[i],) + rest)
                compare(ctx, s, v, {}, every)
                if n < 2:
                    for t in below(s, v):
                        compare(ctx, t, v, {}, every)
