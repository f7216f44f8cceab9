"""C08: the annotations of every successful evaluation, by location and value, against the reference."""
import collections
import json

from jschon import JSON

import corpus
import evalcheck
import sizes
from corpus import A, B, I, S
from gen import fresh, typed

MEANING = ('states: distinct (dialect, schema, documents); transitions: evaluations by the real code; traces: evaluations whose complete list of '
           'annotations (location, instance, value) was compared with the reference')
BOUNDS = {
    'quick': 'schemas of 9 to 1025 subschemas, members or items and schemas, instances and reference chains 5 to 65 deep; every applicator over 10 leaves, and over every applicator over 3 leaves (depth 2), every subschema annotated; the same with each subschema moved '
             'behind each kind of reference; every annotating and unknown keyword with 15 values; on 22 instances',
    'thorough': 'depth 2 over 6 leaves with every reference variant; depth 3 over 2 leaves'}
ASSUMPTIONS = ['the annotation of dependentSchemas, and of contains in 2019-09, is not specified and not compared',
               'equivalent annotation values (true, the largest index, or all indices) are accepted']

VALUES = ['', 'text', 0, False, True, 1.5, [], {}, [1, {'a': None}], {'a': [True]}, 'é', None, {'$ref': '#/x'}, {'title': 'inner'}, [None]]
KEYWORDS = ['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'format', 'contentMediaType', 'contentEncoding', 'contentSchema',
            'x-unknown', 'unknownKeyword', '', 'a/b', '~', '%', 'é', 'Properties', 'const ', '$unknown', 'definitions', 'class', 'minimums']


def cases(tier):
    deep = tier == 'thorough'
    yield from sizes.sized(tier)
    for v in ('2020-12', '2019-09'):
        yield ['kw', v]
        for i in range(len(corpus.depth1(v))):
            yield ['d1', v, i]
        for x in range(6 if deep else 3):
            for i in range(len(corpus.single(True, v))):
                yield ['d2', v, x, i]
                if deep and x < 2:
                    for j in range(len(corpus.single(True, v))):
                        yield ['d3', v, x, i, j]


DEEP_LEAVES = [I, {'properties': {'a': I}}, A, S, False, {'minItems': 2}]
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c08')


def compare(ctx, schema, version, docs, instances):
    if not ctx.state((version, repr(schema), repr(docs))):
        return
    ev, node = evalcheck.ref(schema, version, docs)
    bench.source.docs = docs
    with bench.catalog.cache() as cid:
        real = bench.real(schema, version, cid)
        for inst in instances:
            o = ev.run(node, inst)
            r = real.evaluate(JSON(fresh(inst)))
            ctx.step()
            if r.valid is not o.valid:
                continue
            ctx.trace()
            check(ctx, r, o, inst, version, f'{version} {json.dumps([schema, docs] if docs else schema)} on {json.dumps(inst)}')


def check(ctx, r, o, inst, version, text):
    direct = list(r.collect_annotations())
    if not o.valid:
        ctx.check(not direct and 'annotations' not in r.output('basic') and 'annotation' not in r.output('basic'), f'{text}: a failed evaluation has annotations {direct!r}')
        return
    want = evalcheck.wanted_notes(o, version)
    units = r.output('basic')['annotations']
    got = collections.Counter()
    for u in units:
        ep, ip = evalcheck.ptr(u['keywordLocation']), evalcheck.ptr(u['instanceLocation'])
        if ep[-1] in evalcheck.IGNORED_NOTES or (version == '2019-09' and ep[-1] == 'contains'):
            continue
        got[evalcheck.got_note(ep[-1], ip, ep, u['annotation'], inst, version)] += 1
    ctx.outcome(len(want))
    missing = want - got
    nulls = [n for n in missing if n[3] == 'null']
    for n in nulls:
        del missing[n]
    extra = got - want
    ctx.check(not missing and not extra, f'{text}: annotations missing {list(missing)[:4]}, extra {list(extra)[:4]}', detail={'want': [list(w) for w in want], 'got': [list(w) for w in got]})
    if nulls:
        ctx.violation(f'{text}: annotations with the value null are missing: {nulls[:3]}', key='null-annotation')
    # collected directly, with and without filters
    vals = collections.Counter(json.dumps(u['annotation'], sort_keys=True) for u in units)
    ctx.check(collections.Counter(json.dumps(a, sort_keys=True) for a in direct) == vals, f'{text}: collect_annotations gives {direct!r}, basic output lists {dict(vals)}')
    for kw in {evalcheck.ptr(u['keywordLocation'])[-1] for u in units} | {'title'}:
        a = collections.Counter(json.dumps(x, sort_keys=True) for x in r.collect_annotations(key=kw))
        b = collections.Counter(json.dumps(u['annotation'], sort_keys=True) for u in units if evalcheck.ptr(u['keywordLocation'])[-1] == kw)
        ctx.check(a == b, f'{text}: collect_annotations(key={kw!r}) gives {a}, expected {b}')
    a = collections.Counter(json.dumps(x, sort_keys=True) for x in r.collect_annotations(instance=r.instance))
    b = collections.Counter(json.dumps(u['annotation'], sort_keys=True) for u in units if u['instanceLocation'] == '')
    ctx.check(a == b, f'{text}: collect_annotations(instance) gives {a}, expected {b}')
    # the other formats may merge or leave out, but not invent
    allowed = set(want)
    loose = {(k, ep, v) for k, ip, ep, v in want}

    def detailed(u):
        for c in u.get('annotations', []):
            yield from detailed(c)
        if 'annotation' in u:
            yield u
    for u in detailed(r.output('detailed')):
        ep, ip = evalcheck.ptr(u['keywordLocation']), evalcheck.ptr(u['instanceLocation'])
        n = evalcheck.got_note(ep[-1], ip, ep, u['annotation'], inst, version)
        ctx.check(n in allowed or ep[-1] in ('dependentSchemas', 'contains'), f'{text}: the detailed output invents {n}')

    def hier(u):
        ep, ip = evalcheck.ptr(u['evaluationPath']), evalcheck.ptr(u['instanceLocation'])
        for k, v in u.get('annotations', {}).items():
            if k not in ('dependentSchemas', 'contains', 'items', 'prefixItems'):
                n = evalcheck.got_note(k, ip, ep + (k,), v, inst, version)
                ctx.check((n[0], n[2], n[3]) in loose, f'{text}: the hierarchical output invents {n}')
        for c in u.get('details', []):
            hier(c)
    hier(r.output('hierarchical'))


def run_case(case, ctx):
    if sizes.compare_sized(ctx, case, compare):
        return
    what, v = case[:2]
    if what == 'kw':
        for k in KEYWORDS:
            for x in VALUES:
                if k in ('format', 'contentMediaType', 'contentEncoding') and not isinstance(x, str):
                    continue
                if k == 'format' and x == '':
                    continue
                insts = ['s', ''] if k == 'format' else corpus.SCAL + [[], {'a': 1}, True, 's', '']
                for s in ({k: x}, {'allOf': [{k: x}]}, {'anyOf': [{k: x, 'type': 'string'}, {k: x, 'type': 'number'}]}, {'not': {'not': {k: x}}}, {'properties': {'a': {k: x}}},
                          {'$ref': '#/$defs/d', '$defs': {'d': {k: x}}}, {k: x, 'if': {k: x, 'type': 'number'}}):
                    compare(ctx, s, v, {}, insts)
        for cs in ({'a': 1}, {'type': 'integer'}, True):
            for s in ({'contentSchema': cs}, {'contentSchema': cs, 'contentMediaType': 'm'}, {'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': cs},
                      {'contentSchema': cs, 'contentEncoding': 'e'}, {'contentEncoding': 'e', 'contentMediaType': 'm'},
                      {'contentSchema': cs, 'allOf': [{'contentMediaType': 'm'}]}, {'contentMediaType': 'm', 'allOf': [{'contentSchema': cs}]},
                      {'contentSchema': cs, '$ref': '#/$defs/d', '$defs': {'d': {'contentMediaType': 'm'}}}):
                compare(ctx, s, v, {}, ['x', 1, None, []])
    elif what == 'd1':
        s = corpus.label(corpus.depth1(v)[case[2]], v)
        ways = None if ctx.thorough or case[2] % 3 == 0 else ['chain', 'pointer'] + (['dynres'] if v == '2020-12' else [])
        for t, docs in corpus.variants(s, v, ways):
            compare(ctx, t, v, docs, corpus.INST)
    elif what == 'd2':
        y = corpus.single(DEEP_LEAVES[case[2]], v)[case[3]]
        for s in corpus.single(y, v):
            s = corpus.label(s, v)
            for t, docs in corpus.variants(s, v) if ctx.thorough else [(s, {})]:
                compare(ctx, t, v, docs, corpus.INST)
    else:
        y = corpus.single(corpus.single(DEEP_LEAVES[case[2]], v)[case[3]], v)[case[4]]
        for s in corpus.single(y, v):
            compare(ctx, corpus.label(s, v), v, {}, corpus.INST)
