"""C09: every location in every output format, against an evaluation that records where each keyword was applied."""
import itertools
import json

from jschon import JSON

import corpus
import evalcheck
import refeval
import refuri
import sizes
from corpus import A, B, I, S
from gen import fresh

MEANING = ('states: distinct (dialect, schema, documents); transitions: evaluations by the real code; traces: output units whose three locations '
           'and verdict were compared with the recorded reference evaluation')
BOUNDS = {
    'quick': 'schemas of 9 to 1025 subschemas, members or items and schemas, instances and reference chains 5 to 65 deep; every applicator over 10 leaves with each subschema moved behind each kind of reference; every applicator over every applicator over 2 leaves; '
             'member, definition and keyword names that need escaping, at each level; nested resources to depth 3; on 22 instances, all five formats',
    'thorough': 'depth 2 over 5 leaves, also behind each kind of reference; references to references with every second name'}
ASSUMPTIONS = ['where the specification leaves open whether contains or minContains reports a failure, either is accepted',
               'the outcome of unevaluated keywords in a schema object that fails anyway is not compared']

NAMES = ['', ' ', '~', '~0', '~1', 'a/b', '/', '%', '%25', 'é', '日本', '"', '\\', '#', '?', '^', '[', '{', '|', '0', '-', '01', '$ref', '\x01', '😀', 'a b', '+', ':', '@', '&', "'"]
DEEP = [I, {'properties': {'a': I}}, {'required': ['p']}, False, {'minItems': 2}]
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c09')


def cases(tier):
    deep = tier == 'thorough'
    yield from sizes.sized(tier)
    for v in ('2020-12', '2019-09'):
        for i in range(len(corpus.depth1(v))):
            yield ['d1', v, i]
        for x in range(5 if deep else 2):
            for i in range(len(corpus.single(True, v))):
                yield ['d2', v, x, i]
        for n in range(len(NAMES)):
            yield ['name', v, n]
        yield ['nest', v]
        for i in range(len(sequences(v))):
            yield ['sequence', v, i]
        yield ['refs', v]


def units(r):
    """(format, unit locations and verdict) of every unit in every format."""
    for fmt in ('basic', 'detailed', 'verbose'):
        out = r.output(fmt)

        def walk(u, valid, top):
            valid = u.get('valid', valid)
            if not top or fmt != 'basic':
                yield fmt, u['keywordLocation'], u['instanceLocation'], u['absoluteKeywordLocation'], valid
            for k in ('errors', 'annotations'):
                for c in u.get(k, []):
                    yield from walk(c, valid, False)
        yield from walk(out, None, True)

    def hier(u):
        yield 'hierarchical', u['evaluationPath'], u['instanceLocation'], u['schemaLocation'], u['valid']
        for k in ('errors', 'annotations'):
            for n in u.get(k, {}):
                e = n.replace('~', '~0').replace('/', '~1')
                yield 'hierarchical message', u['evaluationPath'] + '/' + e, None, None, u['valid']
        for c in u.get('details', []):
            yield from hier(c)
    yield from hier(r.output('hierarchical'))


def compare(ctx, schema, version, docs, instances, base=evalcheck.BASE):
    if not ctx.state((version, repr(schema), repr(docs), base)):
        return
    ev, node = evalcheck.ref(schema, version, docs, uri=base, record=True)
    roots = [refuri.normalize(n.base) for n in ev.reg.nodes.values() if n.root is n]
    if len(set(roots)) != len(roots):
        return                               # two resources with one identifier
    bench.source.docs = docs
    located = {}
    with bench.catalog.cache() as cid:
        real = bench.real(schema, version, cid, uri=base)
        for inst in instances:
            o = ev.run(node, inst)
            r = real.evaluate(JSON(fresh(inst)))
            ctx.step()
            if r.valid is not o.valid:
                continue                     # reported by the checks on verdicts
            text = f'{version} {json.dumps([schema, docs] if docs else schema)} on {json.dumps(inst)}'
            paths = {e for e, _ in ev.outcome}
            for fmt, ep, ip, at, valid in units(r):
                ctx.trace()
                e = evalcheck.ptr(ep)
                if fmt == 'hierarchical message':
                    ctx.check(e in paths, f'{text}: the hierarchical output has a message for {ep}, which was not applied')
                    continue
                i = evalcheck.ptr(ip)
                if e == ():
                    want = r.valid, (node.doc, ())
                    ok = i == ()
                else:
                    want = ev.outcome.get((e, i))
                    ok = want is not None
                if not ctx.check(ok, f'{text}: the {fmt} output has a unit for keyword {ep!r} at instance {ip!r}, where nothing was applied'):
                    continue
                if at not in located:
                    located[at] = ev.reg.locate(at)
                ctx.outcome(f'{fmt} {valid}')
                ctx.check(located[at] == want[1], f'{text}: the {fmt} output gives {at!r} as the absolute location of {ep!r} at {ip!r}, '
                                                  f'which is {located[at]}; the path leads to {want[1]}')
                if fmt == 'basic':
                    valid = r.valid
                ok = want[0] == refeval.EITHER or valid is want[0] or e[-1:] in (('contains',), ('minContains',))
                ctx.check(ok, f'{text}: the {fmt} output gives {ep!r} at {ip!r} the verdict {valid}, expected {want[0]}')


def sequences(v):
    """Keywords that apply one subschema to one child after another, over subschemas that look at their own annotations."""
    inner = [{'properties': {'a': I, 'b': True}, 'unevaluatedProperties': False}, {'allOf': [{'properties': {'a': I, 'b': True}}], 'unevaluatedProperties': False},
             {'anyOf': [{'properties': {'a': I}}, {'patternProperties': {'b': True}}], 'unevaluatedProperties': S},
             {'if': {'properties': {'a': I}}, 'then': {'properties': {'b': True}}, 'unevaluatedProperties': False},
             {'contains': I, 'unevaluatedItems': S}, {'items': {'properties': {'a': I, 'b': True}, 'unevaluatedProperties': False}},
             {'prefixItems' if v == '2020-12' else 'items': [I], 'unevaluatedItems': S}, {'$ref': '#/$defs/x', 'unevaluatedProperties': False}]
    outer = ['items', 'contains', 'unevaluatedItems', 'additionalProperties', 'unevaluatedProperties', 'propertyNames', 'prefixItems' if v == '2020-12' else 'additionalItems',
             'patternProperties', 'properties', 'not']
    return [(o, i) for o in outer for i in inner]


def names(n, v):
    """Schemas that have the name `n` wherever a name can occur."""
    enc = corpus.urllib.parse.quote(n.replace('~', '~0').replace('/', '~1'), safe='')
    import re
    for leaf in (I, {'title': 't'}, {n if n != '$ref' else 'x-' + n: 1}):
        yield {'properties': {n: leaf}}
        yield {'properties': {n: {'properties': {n: leaf}}}}
        yield {'patternProperties': {'^' + re.escape(n) + '$': leaf}}
        yield {'dependentSchemas': {n: {'properties': {n: leaf}}}}
        yield {'additionalProperties': leaf}
        yield {'unevaluatedProperties': leaf}
        yield {'propertyNames': leaf}
        yield {'propertyNames': {'maxLength': 0}}
        yield {'$defs': {n: leaf}, 'properties': {n: {'$ref': '#/$defs/' + enc}}}
        yield {'$defs': {n: {'$defs': {n: leaf}}}, 'properties': {n: {'$ref': f'#/$defs/{enc}/$defs/{enc}'}}}
        yield {'$defs': {n: {'$id': 'inner', '$defs': {n: leaf}}}, 'properties': {n: {'$ref': f'inner#/$defs/{enc}'}}}
        yield {'$defs': {n: {'$id': 'inner', 'properties': {n: leaf}}}, 'properties': {n: {'$ref': 'inner'}}}
        yield {'$defs': {n: {'$anchor': 'anc', 'properties': {n: leaf}}}, 'properties': {n: {'$ref': '#anc'}}}
        yield {'properties': {n: {'$id': 'in/here', 'properties': {n: leaf}}}}
        yield {'properties': {n: {'items': leaf, 'properties': {n: {'allOf': [leaf]}}}}}
        yield {'contains': {'properties': {n: leaf}}, 'items': {'properties': {n: leaf}}}


def run_case(case, ctx):
    if sizes.compare_sized(ctx, case, compare):
        return
    what, v = case[:2]
    if what == 'd1':
        s = corpus.label(corpus.depth1(v)[case[2]], v)
        ways = None if ctx.thorough or case[2] % 3 == 0 else ['chain', 'resource']
        for t, docs in corpus.variants(s, v, ways, name=corpus.NAMES[case[2] % len(corpus.NAMES)]):
            compare(ctx, t, v, docs, corpus.INST)
    elif what == 'd2':
        for s in corpus.single(corpus.single(DEEP[case[2]], v)[case[3]], v):
            for t, docs in corpus.variants(s, v, ['chain', 'id', 'docid']) if ctx.thorough else [(s, {})]:
                compare(ctx, t, v, docs, corpus.INST)
    elif what == 'name':
        n = NAMES[case[2]]
        insts = [{n: x} for x in (1, 's', {n: 1}, {n: 's'}, [1, 's'])] + [[{n: 's'}, {n: 1}], {n: {n: {n: 's'}}, 'z': {n: 's'}}]
        for s in names(n, v):
            compare(ctx, s, v, {}, insts)
    elif what == 'sequence':
        o, i = sequences(v)[case[2]]
        defs = {'$defs': {'x': {'properties': {'a': I, 'b': True}}}}
        s = {o: i, **defs}
        if o == 'prefixItems':
            s = {o: [i, i, True], 'items': i, **defs}
        elif o == 'additionalItems':
            s = {'items': [i], 'additionalItems': i, **defs}
        elif o == 'patternProperties':
            s = {o: {'^[012]': i, '1': i}, **defs}
        elif o == 'properties':
            s = {o: {'0': i, '1': i}, 'additionalProperties': i, **defs}
        elif o == 'not':
            s = {'items': {'not': i}, **defs}
        elif o == 'contains':
            s = {o: i, 'minContains': 1, **defs}
        alphabet = [{'a': 1}, {'a': 's'}, {'b': 1}, {'b': 1, 'c': 1}] if 'contains' not in i and 'prefixItems' not in i and 'items' not in i else \
            [[1, 's'], ['s'], [{'a': 's'}, {'b': 1}], ['s', 1, 1]]
        insts = [list(x) for n in (1, 2, 3) for x in itertools.product(alphabet, repeat=n)]
        if 'roperties' in o:
            insts = [{str(k): x for k, x in enumerate(xs)} for xs in insts]
        compare(ctx, s, v, {}, insts)
    elif what == 'nest':
        ids = [None, 'x/y', '/z', 'https://o.org/w']
        for a in ids:
            for b in ids:
                for c in ids:
                    for leaf in (I, {'title': 't'}):
                        def sch(i, x):
                            return {**({'$id': i} if i else {}), **x}
                        for base in (evalcheck.BASE, 'urn:example:one', 'https://ex.org'):
                            if base == 'urn:example:one' and {a, b, c} & {'x/y', '/z'}:
                                continue
                            s = sch(a, {'properties': {'p': sch(b, {'items': sch(c, {'allOf': [leaf]})})}})
                            compare(ctx, s, v, {}, [{'p': [1, 's']}, {'p': [1]}, {'p': ['s']}], base=base)
                            s = sch(a, {'allOf': [{'$ref': '#/$defs/d'}], '$defs': {'d': sch(b, {'anyOf': [{'$ref': '#/$defs/e'}] if b else [{'$ref': '#/$defs/d/$defs/e'}], '$defs': {'e': sch(c, leaf)}})}})
                            compare(ctx, s, v, {}, [1, 's'], base=base)
    else:
        docs = {'https://example.com/s/o1': {'allOf': [{'$ref': 'o2#/$defs/q'}], '$defs': {'x': {'title': 't1', 'properties': {'a': {'$ref': 'o2#t'}}}}},
                'https://example.com/s/o2': {'$defs': {'q': {'properties': {'a': I}, 'title': 'q'}, 't': {'$anchor': 't', 'type': 'string', 'title': 'tt'},
                                                       'r': {'$id': 'deep/r', '$ref': '../o1#/$defs/x'}}}}
        for s in ({'$ref': 'o1'}, {'allOf': [{'$ref': 'o1'}, {'$ref': 'o1'}]}, {'$ref': 'o1#/$defs/x'}, {'$ref': 'deep/r', 'anyOf': [{'$ref': 'o2#/$defs/r'}]}, {'$ref': 'o2#/$defs/r'},
                  {'properties': {'a': {'$ref': 'o1#/$defs/x'}}}, {'items': {'$ref': 'o2#/$defs/r'}, 'contains': {'$ref': 'o1'}},
                  {'$ref': '#/$defs/l', '$defs': {'l': {'properties': {'a': {'$ref': '#'}}, 'type': ['object', 'string']}}},
                  {'type': ['object', 'integer'], 'additionalProperties': {'$ref': '#'}}, {'not': {'$ref': '#/$defs/l'}, '$defs': {'l': {'required': ['a']}}},
                  {'if': {'$ref': '#/$defs/l'}, 'then': {'$ref': '#/$defs/m'}, 'else': {'$ref': '#/$defs/n'}, '$defs': {'l': {'required': ['a']}, 'm': {'title': 'm'}, 'n': False}}):
            if 'deep/r' in json.dumps(s):
                s = {'$defs': {'pre': {'$ref': 'o2'}}, **s}
            compare(ctx, s, v, docs, [{'a': 1}, {'a': 's'}, {'a': {'a': 1}}, {'a': {'a': {'a': 's'}}}, [{'a': 1}, {'a': 's'}], 1, 's', {}, []])
        if v == '2020-12':
            for s in ({'$dynamicAnchor': 'n', 'additionalProperties': {'$dynamicRef': '#n'}, 'type': ['object', 'integer']},
                      {'$dynamicAnchor': 'n', 'type': ['object', 'integer'], '$ref': 'tree', '$defs': {'t': {'$id': 'tree', '$dynamicAnchor': 'n', 'additionalProperties': {'$dynamicRef': '#n'}}}}):
                compare(ctx, s, v, {}, [{'a': 1}, {'a': 's'}, {'a': {'a': 1}}, {'a': {'a': {'a': 's'}}}, 1, 's', {}])
        else:
            for s in ({'$recursiveAnchor': True, 'additionalProperties': {'$recursiveRef': '#'}, 'type': ['object', 'integer']},
                      {'$recursiveAnchor': True, 'type': ['object', 'integer'], '$ref': 'tree', '$defs': {'t': {'$id': 'tree', '$recursiveAnchor': True, 'additionalProperties': {'$recursiveRef': '#'}}}}):
                compare(ctx, s, v, {}, [{'a': 1}, {'a': 's'}, {'a': {'a': 1}}, {'a': {'a': {'a': 's'}}}, 1, 's', {}])
