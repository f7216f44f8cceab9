"""C10: the five output formats of every evaluation, against the result tree and against one another."""
import collections
import itertools
import json

from jschon import JSON, JSONSchema
from jschon.output import create_output, output_formatter

import corpus
import evalcheck
import sizes
from corpus import A, B, I, S
from gen import fresh, typed

MEANING = ('states: distinct (dialect, schema, documents); transitions: output documents produced by the real code; traces: sets of five outputs '
           'of one evaluation compared with the result tree and with one another, and their verdict with the reference evaluator')
BOUNDS = {
    'quick': 'schemas of 9 to 1025 subschemas, members or items and schemas, instances and reference chains 5 to 65 deep; every applicator over 10 leaves plain and with each subschema moved behind each kind of reference; every applicator over every applicator over 2 '
             'leaves; every pair of 30 keywords side by side; on 22 or 11 instances; all formats in two orders, basic also with 4 annotation filters',
    'thorough': 'depth 2 over 6 leaves; depth 3 over 2 leaves; triples of keywords'}

DEEP = [False, {"title": "x"}, I, {'properties': {'a': I}}, {'minItems': 2}, True]
WORDS = ('valid', 'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation', 'error', 'errors', 'annotation', 'annotations')
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c10')

    @output_formatter('verif-own')
    def own(result, *, extra=None):
        return ['own', result.valid, extra]


def pieces(v):
    return [('type', 'integer'), ('const', 1), ('enum', [1, 's']), ('title', 't'), ('x-own', {'a': [1]}), ('default', False), ('minimum', 2), ('maxLength', 1), ('required', ['p']),
            ('maxProperties', 1), ('maxItems', 1), ('uniqueItems', True), ('not', I), ('allOf', [I, S]), ('anyOf', [I, {'title': 'u'}]), ('oneOf', [I, S]), ('if', I), ('then', {'title': 'then'}),
            ('else', False), ('properties', {'a': I}), ('patternProperties', {'a': S}), ('additionalProperties', False), ('propertyNames', False), ('items', False), ('contains', I),
            ('minContains', 2), ('unevaluatedItems', False), ('unevaluatedProperties', False), ('$ref', '#/$defs/f'), ('$anchor', 'anc'), ('dependentRequired', {'a': ['b']}),
            ('dependentSchemas', {'a': False})]


def cases(tier):
    deep = tier == 'thorough'
    yield from sizes.sized(tier)
    for v in ('2020-12', '2019-09'):
        yield ['bool', v]
        for i in range(len(corpus.depth1(v))):
            yield ['d1', v, i]
        for x in range(6 if deep else 2):
            for i in range(len(corpus.single(True, v))):
                yield ['d2', v, x, i]
                if deep and x < 2:
                    for j in range(len(corpus.single(True, v))):
                        yield ['d3', v, x, i, j]
        for i in range(len(pieces(v))):
            yield ['side', v, i]


def plain(v):
    t = type(v)
    if t is dict:
        return all(type(k) is str and plain(x) for k, x in v.items())
    if t is list:
        return all(map(plain, v))
    return v is None or t in (bool, int, float, str)


def loc(n):
    return str(n.instance.path), str(n.path), str(n.absolute_uri)


def uloc(u):
    return u['instanceLocation'], u['keywordLocation'], u['absoluteKeywordLocation']


def hloc(u):
    return u['instanceLocation'], u['evaluationPath'], u['schemaLocation']


def compare(ctx, schema, version, docs, instances):
    if not ctx.state((version, repr(schema), repr(docs))):
        return
    ev, node = evalcheck.ref(schema, version, docs)
    bench.source.docs = docs
    with bench.catalog.cache() as cid:
        real = bench.real(schema, version, cid)
        for inst in instances:
            r = real.evaluate(JSON(fresh(inst)))
            check(ctx, r, ev.run(node, inst).valid, f'{version} {json.dumps([schema, docs] if docs else schema)} on {json.dumps(inst)}')


FORMATS = ('flag', 'basic', 'detailed', 'verbose', 'hierarchical')


def check(ctx, r, expected, text):
    def bad(cond, what):
        return ctx.check(cond, f'{text}: {what}')
    outs = {f: r.output(f) for f in FORMATS}
    again = {f: r.output(f) for f in reversed(FORMATS)}
    ctx.step(2 * len(FORMATS))
    ctx.trace()
    ctx.outcome(f'{r.valid}')
    for f in FORMATS:
        bad(plain(outs[f]), f'the {f} output is not plain JSON: {outs[f]!r}')
        bad(typed(outs[f]) == typed(again[f]), f'the {f} output changes from one request to the next')
        bad(type(outs[f]) is dict and outs[f].get('valid') is expected, f'the {f} output says {outs[f].get("valid")!r}, expected {expected}')
    valid = r.valid
    bad(valid is expected, f'the evaluation says {valid}, expected {expected}')
    msg, many = ('annotation', 'annotations') if valid else ('error', 'errors')
    other, others = ('error', 'errors') if valid else ('annotation', 'annotations')
    bad(outs['flag'] == {'valid': valid}, f'the flag output is {outs["flag"]}')

    # verbose: the whole tree, node for node
    def mirror(u, n):
        kids = list(n.children.values())
        want = {'valid': n.valid, 'instanceLocation': str(n.instance.path), 'keywordLocation': str(n.path), 'absoluteKeywordLocation': str(n.absolute_uri)}
        m, k = ('annotation', 'annotations') if n.valid else ('error', 'errors')
        if getattr(n, m) is not None:
            want[m] = getattr(n, m)
        got = {a: b for a, b in u.items() if a not in ('annotations', 'errors')}
        ok = bad(typed(got) == typed(want), f'the verbose output has the unit {got}, the result {want}')
        ok &= bad({a for a in u if a in ('annotations', 'errors')} == ({k} if kids else set()), f'the verbose unit at {loc(n)} has the members {list(u)}')
        ok &= bad(len(u.get(k, [])) == len(kids), f'the verbose unit at {loc(n)} has {len(u.get(k, []))} subunits, the result {len(kids)}')
        if ok:
            for a, b in zip(u.get(k, []), kids):
                mirror(a, b)
    mirror(outs['verbose'], r)

    # basic: the messages along unbroken chains of the overall verdict
    chain = []

    def walk(n):
        if n.valid is valid:
            chain.append(n)
            for c in n.children.values():
                walk(c)
    walk(r)
    want = [(loc(n), getattr(n, msg)) for n in chain if getattr(n, msg) is not None]
    b = outs['basic']
    bad(set(b) == {'valid', many} or (set(b) == {'valid'} and not want), f'the basic output has the members {list(b)}')
    got = [(uloc(u), u[msg]) for u in b.get(many, []) if msg in u]
    bad(len(got) == len(b.get(many, [])), 'a unit of the basic output has no message')
    bad(sorted(map(typed, got)) == sorted(map(typed, want)), f'the basic output lists {got}, the result has {want}')
    bad(valid or got, 'the basic output of a failed evaluation lists no error')
    keys = sorted({n.key for n in chain if n.key})
    for flt in ([], keys[:1], ['title', 'properties'], keys):
        f = r.output('basic', annotations=flt)
        ctx.step()
        w = [x for x in want if not valid or evalcheck.ptr(x[0][1])[-1] in flt]
        g = [(uloc(u), u[msg]) for u in f.get(many, [])]
        bad(f['valid'] is valid and sorted(map(typed, g)) == sorted(map(typed, w)), f'the basic output restricted to the annotations {flt} lists {g}, expected {w}')

    # detailed: nested; nothing but such nodes, and every message at the end of a chain
    ids = collections.Counter(loc(n) for n in chain)
    leaves = [(loc(n), getattr(n, msg)) for n in chain if getattr(n, msg) is not None and not any(c.valid is valid for c in n.children.values())]
    seen = []

    def down(u, path, ipath, top):
        bad(set(u) <= set(WORDS) and other not in u and others not in u, f'a unit of the detailed output has the members {list(u)}')
        bad(ids[uloc(u)] > 0, f'the detailed output has a unit at {uloc(u)}, where no result shares the verdict')
        bad(u['keywordLocation'].startswith(path) and u['instanceLocation'].startswith(ipath), f'the detailed output nests {uloc(u)} below {path!r} at {ipath!r}')
        if not top:
            bad(u.get('valid', valid) is valid, 'the detailed output lists a result of the other verdict')
            bad(len(u.get(many, [None, None])) > 1, f'the detailed unit at {uloc(u)} has {len(u.get(many, []))} subunits and was not collapsed')
        if msg in u:
            seen.append((uloc(u), u[msg]))
        for c in u.get(many, []):
            down(c, u['keywordLocation'], u['instanceLocation'], False)
    down(outs['detailed'], '', '', True)
    bad(sorted(map(typed, seen)) == sorted(map(typed, leaves)), f'the detailed output keeps the messages {seen}, the result ends in {leaves}')

    # hierarchical: the schemas among those nodes
    schemas = [n for n in chain if isinstance(n.schema_node, JSONSchema) or n._refschema is not None]
    listed = []

    def hier(u, top):
        listed.append(hloc(u))
        bad(u['valid'] is valid, f'the hierarchical output lists a result of the other verdict at {hloc(u)}')
        bad(others not in u and set(u) <= {'valid', 'evaluationPath', 'schemaLocation', 'instanceLocation', 'details', 'annotations', 'errors'}, f'a hierarchical unit has the members {list(u)}')
        for c in u.get('details', []):
            bad(c['evaluationPath'].startswith(u['evaluationPath']), f'the hierarchical output nests {hloc(c)} below {hloc(u)}')
            hier(c, False)
    hier(outs['hierarchical'], True)
    bad(collections.Counter(listed) == collections.Counter(map(loc, schemas)), f'the hierarchical output lists {listed}, expected {[loc(n) for n in schemas]}')
    bad(valid or len(schemas) > 1 or outs['hierarchical'].get('errors') or not r.children, 'the hierarchical output of a failed evaluation has no error')

    bad(r.output('verif-own') == ['own', valid, None] and r.output('verif-own', extra=3) == ['own', valid, 3] and create_output(r, 'verif-own', extra=4) == ['own', valid, 4],
        'a registered output format is not applied')


def run_case(case, ctx):
    if sizes.compare_sized(ctx, case, compare):
        return
    what, v = case[:2]
    if what == 'bool':
        for s in (True, False, {}, {'not': {}}, {'$ref': '#/$defs/f', '$defs': {'f': False}}, {'$ref': '#/$defs/f', '$defs': {'f': True}}, {'allOf': [False]}, {'anyOf': [False, True]},
                  {'items': False}, {'properties': {'a': False}}, {'if': False}, {'if': False, 'else': True}):
            compare(ctx, s, v, {}, corpus.INST)
    elif what == 'd1':
        s = corpus.label(corpus.depth1(v)[case[2]], v)
        ways = None if ctx.thorough or case[2] % 5 == 0 else ['chain']
        for t, docs in corpus.variants(s, v, ways):
            compare(ctx, t, v, docs, corpus.INST)
    elif what == 'd2':
        for s in corpus.single(corpus.single(DEEP[case[2]], v)[case[3]], v):
            for t, docs in corpus.variants(s, v, ['pointer']) if ctx.thorough else [(s, {})]:
                compare(ctx, t, v, docs, corpus.INST if ctx.thorough else corpus.INST[1::2])
    elif what == 'd3':
        for s in corpus.single(corpus.single(corpus.single(DEEP[case[2]], v)[case[3]], v)[case[4]], v):
            compare(ctx, s, v, {}, corpus.INST if ctx.thorough else corpus.INST[1::2])
    else:
        ps = pieces(v)
        i = case[2]
        for j in range(i + 1, len(ps)):
            rest = [()] + [(ps[k],) for k in range(j + 1, len(ps))] if ctx.thorough else [()]
            for more in rest:
                s = dict([ps[i], ps[j], *more])
                if '$ref' in s:
                    s['$defs'] = {'f': {'title': 'f', 'required': ['p'], 'type': ['integer', 'object', 'array']}}
                compare(ctx, s, v, {}, corpus.INST if ctx.thorough else corpus.INST[1::2])
