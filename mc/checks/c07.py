"""C07: permutations of keywords and members, and histories of constructions, evaluations and cache operations."""
import itertools
import json

from jschon import JSON, JSONSchema, URI

import corpus
import evalcheck
from corpus import A, B, I, S
from gen import fresh, typed

MEANING = ('states: distinct spellings of a schema or an instance, and distinct histories; transitions: constructions, evaluations and cache operations '
           'by the real code; traces: complete results compared with the result of the same evaluation in a fresh catalog, or of the canonical spelling')
BOUNDS = {
    'quick': 'every permutation of the keywords of ~125 schemas with 2 to 5 keywords (in 2 dialects), of every pair of 30 keywords, and of the members of the subschema maps and of the instances; every history of 3 '
             'operations out of 26 (11 schemas with references among them in shared and scoped caches, 2 catalogs), each followed by 9 evaluations; '
             'every ordered pair of 39 easily confused instances against 52 schemas',
    'thorough': '6-keyword schemas; every order of every triple of the 30 keywords; every history of 4 operations'}

SETS20 = [
    {'properties': {'a': I}, 'patternProperties': {'b': S}, 'additionalProperties': B, 'unevaluatedProperties': False, 'required': ['a']},
    {'properties': {'a': I}, 'allOf': [{'properties': {'b': S}}], 'unevaluatedProperties': False, 'title': 't', 'maxProperties': 2},
    {'if': {'properties': {'a': I}, 'required': ['a']}, 'then': {'properties': {'b': S}}, 'else': {'properties': {'c': I}}, 'unevaluatedProperties': False, 'default': 1},
    {'prefixItems': [I], 'items': S, 'contains': {'const': 'x'}, 'minContains': 1, 'maxContains': 1},
    {'prefixItems': [I], 'contains': S, 'minContains': 0, 'unevaluatedItems': False, 'uniqueItems': True},
    {'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': {'a': 1}, 'minLength': 1, 'x-un': 1},
    {'$ref': '#/$defs/d', '$defs': {'d': {'properties': {'a': I}}, 'e': {'items': I}}, 'unevaluatedProperties': S, 'anyOf': [{'$ref': '#/$defs/e'}, {'required': ['p']}], 'type': ['object', 'array']},
    {'$anchor': 'n', '$dynamicAnchor': 'm', 'additionalProperties': {'$dynamicRef': '#m'}, 'type': ['object', 'integer'], 'not': {'required': ['p']}},
    {'$id': 'x/y', '$ref': 'z', '$defs': {'a': {'$id': 'z', 'type': 'object'}, 'b': {'$id': '/z', 'type': 'array'}}, 'oneOf': [A, B, True], 'dependentSchemas': {'a': B, 'b': A}},
    {'dependentSchemas': {'a': {'properties': {'b': S}}}, 'unevaluatedProperties': I, 'dependentRequired': {'b': ['a']}, 'propertyNames': {'maxLength': 1}, 'minProperties': 1},
    {'oneOf': [{'properties': {'a': I}, 'required': ['a']}, {'items': I, 'type': 'array'}], 'anyOf': [{'contains': S}, {'type': 'object'}], 'unevaluatedItems': I, 'unevaluatedProperties': S},
    {'then': {'title': 'then'}, 'if': I, 'else': {'title': 'else'}, 'not': {'not': S}, 'enum': ['str', 3]},
    {'minimum': 2, 'maximum': 5, 'multipleOf': 1.5, 'exclusiveMinimum': 2, 'exclusiveMaximum': 3.5},
    {'pattern': 's', 'maxLength': 3, 'format': 'date', 'const': 'str', 'examples': [1]},
    {'deprecated': True, 'readOnly': False, 'writeOnly': True, 'description': 'd', '$comment': 'c'},
    {'allOf': [{'unevaluatedProperties': True}, {'properties': {'a': I}}], 'properties': {'b': True}, 'unevaluatedProperties': False, 'patternProperties': {'^p': I, 'q': True}},
    {'items': {'properties': {'a': True}, 'unevaluatedProperties': I, 'title': 'i'}, 'maxItems': 3, 'minItems': 1, 'contains': S, 'x': None},
]


def to19(s):
    """The same in 2019-09, or None."""
    t = json.dumps(s)
    if '$dynamic' in t:
        return {'$recursiveAnchor': True, 'additionalProperties': {'$recursiveRef': '#'}, 'type': ['object', 'integer'], 'not': {'required': ['p']}, '$anchor': 'n'}
    if '"prefixItems"' in t:
        s = dict(s)
        if 'items' in s:
            s['additionalItems'] = s.pop('items')
        s['items'] = s.pop('prefixItems')
    return s


PAIRS20 = [  # one schema per keyword that reads what others have done, or that others read
    {'properties': {'a': I}}, {'patternProperties': {'b': True}}, {'additionalProperties': S}, {'unevaluatedProperties': False}, {'prefixItems': [I]}, {'items': S},
    {'contains': S}, {'minContains': 0}, {'maxContains': 1}, {'unevaluatedItems': False}, {'if': {'properties': {'a': I}, 'prefixItems': [I]}}, {'then': {'properties': {'b': True}}},
    {'else': {'items': True}}, {'allOf': [{'properties': {'p': True}}]}, {'anyOf': [{'properties': {'b': True}}, {'items': I}]}, {'oneOf': [{'properties': {'p': True}}, I]},
    {'not': {'required': ['c'], 'properties': {'c': True}}}, {'dependentSchemas': {'a': {'properties': {'b': True}}}}, {'$ref': '#/$defs/d'}, {'$dynamicRef': '#D'},
    {'required': ['a']}, {'type': ['object', 'array']}, {'enum': [{'a': 1}, [1], 3]}, {'title': 't'}, {'propertyNames': {'maxLength': 1}}, {'x-y': {'a': 1}},
    {'uniqueItems': True}, {'format': 'date'}, {'contentSchema': {'a': 1}}, {'dependentRequired': {'a': ['b']}}]
PDEFS = {'$defs': {'d': {'properties': {'q': True}, 'prefixItems': [True]}, 'D': {'$dynamicAnchor': 'D', 'properties': {'b': True}, 'items': I}}}


def pairs(v):
    if v == '2020-12':
        return PAIRS20
    swap = {'prefixItems': {'items': [I]}, '$dynamicRef': {'$recursiveRef': '#'}, 'items': {'additionalItems': S}, 'if': {'if': {'properties': {'a': I}, 'items': [I]}}}
    return [swap.get(next(iter(s)), s) for s in PAIRS20]


CONFUSABLE = [1, 1.0, True, 0, 0.0, False, None, '', '1', '1.0', 'true', 'null', '[]', '{}', [], {}, [1], [True], [1.0], ['1'], '[1]', {'a': 1}, {'a': True}, {'a': 1.0}, {'a': '1'}, '{"a": 1}',
              [1, 1.0], [1, True], [0, False], {'b': 1}, {'a': [1]}, {'a': {'a': 1}}, [[1]], -1, 2, 10 ** 20, 1e20, 'a', 'A']
DISCERN = [{k: x} for k in ('const',) for x in (1, True, 0, False, '1', [1], {'a': 1}, None, '')] + [{'enum': x} for x in ([1], [True, 0], [[1], {'a': 1}], ['1', None])] + \
    [{'type': t} for t in ('integer', 'number', 'boolean', 'string', 'null', 'array', 'object', ['integer', 'null'])] + \
    [{'minimum': 1}, {'exclusiveMaximum': 1}, {'multipleOf': 2}, {'minLength': 2}, {'maxLength': 1}, {'pattern': '^[0-9]*$'}, {'uniqueItems': True}, {'minItems': 1}, {'maxItems': 1},
     {'minProperties': 1}, {'maxProperties': 0}, {'required': ['a']}, {'dependentRequired': {'a': ['b']}}, {'properties': {'a': {'const': 1}}}, {'patternProperties': {'a': I}},
     {'additionalProperties': {'type': 'boolean'}}, {'propertyNames': {'const': 'a'}}, {'contains': {'const': 1}}, {'items': {'const': 1}}, {'not': {'const': 1}},
     {'anyOf': [{'const': 1}, S]}, {'oneOf': [{'const': 1}, {'type': 'integer'}]}, {'if': {'const': 1}, 'then': False}, {'allOf': [{'enum': [1, [1]]}]},
     {'contains': {'const': 1}, 'minContains': 2}, {'unevaluatedItems': {'const': 1}}, {'unevaluatedProperties': {'const': 1}}, {'dependentSchemas': {'a': {'maxProperties': 1}}},
     {'$ref': '#/$defs/x', '$defs': {'x': {'const': True}}}, {'format': 'date', 'title': 't'}]


EXTRA6 = [{'properties': {'a': I}, 'patternProperties': {'b': S}, 'additionalProperties': B, 'unevaluatedProperties': False, 'allOf': [True], '$ref': '#/$defs/q'},
          {'if': I, 'then': {'title': 'x'}, 'else': {'properties': {'a': True}}, 'unevaluatedProperties': False, 'properties': {'b': I}, 'unevaluatedItems': False}]


def schemas(v, deep):
    base = list(SETS20)
    out = [to19(s) if v == '2019-09' else s for s in base]
    for i, s in enumerate(list(out[:11])):
        # nested
        if '"$' in json.dumps(s):
            continue
        out.append({'allOf': [s], 'title': 'outer', 'unevaluatedProperties': {'title': 'rest'}})
        out.append({'properties': {'q': s}, 'items': s, 'type': ['object', 'array']})
    ks = corpus.single({'properties': {'a': I}, 'title': 'in'}, v)
    out += [s for s in ks if len(s) > 1]
    if deep:
        for e in EXTRA6:
            out.append({**e, '$defs': {'q': {'properties': {'c': I}}}} if '$ref' in e else e)
    return [s for s in out if s]


INST = corpus.INST + [{'a': 1, 'b': 's', 'p': 0}, {'b': 's', 'a': 1}, {'q': {'a': 1, 'b': 's'}, 'a': 2}, {'q': [1, 's'], 'p': 1}, [1, 'x', 'y'], [{'a': 1, 'b': 2}, 'x']]

# --- histories -------------------------------------------------------------------------------------------
DOCS = {'https://example.com/s/leaf': {'$id': 'https://example.com/s/leaf', 'type': 'integer', 'title': 'leaf'},
        'https://example.com/s/mid': {'properties': {'a': {'$ref': 'leaf'}}, 'title': 'mid'},
        'https://example.com/s/node': {'$id': 'https://example.com/s/node', '$dynamicAnchor': 'N', 'properties': {'kids': {'items': {'$dynamicRef': '#N'}}}},
        'https://example.com/s/loop': {'properties': {'next': {'$ref': 'loop2'}}}, 'https://example.com/s/loop2': {'$ref': 'loop', 'required': ['v']}}
SUBJECTS = {
    'mid': ({'$ref': 'mid', 'unevaluatedProperties': False}, [{'a': 1}, {'a': 's'}, {'b': 1}]),
    'strict': ({'$id': 'https://example.com/s/strict', '$dynamicAnchor': 'N', '$ref': 'node', 'unevaluatedProperties': False}, [{'kids': []}, {'kids': [{'x': 1}]}, {'x': 1}]),
    'plain': ({'$ref': 'node'}, [{'kids': [{'x': 1}]}, {'kids': [[]]}, 1]),
    'loop': ({'$ref': 'loop'}, [{'next': {'v': 1}}, {'next': {}}, {'next': {'v': 1, 'next': {}}}]),
    'props': ({'properties': {'a': I}, 'anyOf': [{'properties': {'b': S}}, True], 'unevaluatedProperties': {'title': 'u'}}, [{'a': 1, 'b': 's', 'c': 2}, {'a': 's'}, {'b': 1}]),
    'arr': ({'contains': S, 'maxContains': 1, 'unevaluatedItems': I}, [[1, 'x'], ['x', 'y'], []]),
}
OTHERS = {  # unrelated schemas, some under the same identifiers in another cache, or failing
    'same-id': {'$id': 'https://example.com/s/other', '$dynamicAnchor': 'N', 'not': {}},
    'anchors': {'$id': 'https://example.com/s/anch', '$defs': {'x': {'$dynamicAnchor': 'N', 'not': {}}}},
    'broken': {'$id': 'https://example.com/s/broken', 'allOf': [{'$ref': 'no-such'}]},
    'bool': True,
}
OPS = [['new', k] for k in SUBJECTS] + [['other', k, c] for k in OTHERS for c in ('here', 'there')] + \
      [['eval', k] for k in SUBJECTS] + [['get', u] for u in ('leaf', 'node', 'mid#/properties/a')] + [['cache'], ['catalog'], ['formats']]
bench = other = None
wants = {}


def setup(ctx):
    global bench, other
    bench = evalcheck.Bench('c07')
    other = evalcheck.Bench('c07-other')


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2020-12', '2019-09'):
        for i in range(len(schemas(v, deep))):
            yield ['perm', v, deep, i]
    for v in ('2020-12', '2019-09'):
        for i in range(len(PAIRS20)):
            yield ['pairs', v, i, deep]
        for i in range(len(DISCERN)):
            yield ['before', v, i]
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield ['history', 4 if deep else 3, a, b]


def flat(x):
    """Messages whose order is that of schema or instance members are compared as collections."""
    if isinstance(x, list):
        return sorted(map(repr, map(flat, x)))
    if isinstance(x, str):
        return ''.join(sorted(x))
    if isinstance(x, dict):
        return sorted((k, repr(flat(v))) for k, v in x.items())
    return typed(x)


def whole(r):
    """The complete result, apart from the order of its parts."""
    out = []

    def walk(n):
        a = n.annotation
        out.append((str(n.path), str(n.instance.path), str(n.absolute_uri), n.valid, n.passed, repr(flat(a)) if a is not None else None, repr(flat(n.error)) if n.error is not None else None))
        for c in n.children.values():
            walk(c)
    walk(r)
    return sorted(out, key=repr)


def perms(s):
    for p in itertools.permutations(s.items()):
        yield dict(p)


def inner(s):
    """The same schema with the members of one subschema map, or the keywords of one subschema, in another order."""
    for p in corpus.positions(s, '2020-12'):
        t = corpus.get(s, p)
        if isinstance(t, dict):
            if p and len(t) > 1:
                yield corpus.put(s, p, dict(reversed(t.items())))
                yield corpus.put(s, p, dict(list(t.items())[1:] + list(t.items())[:1]))
            for k in ('properties', 'patternProperties', '$defs', 'dependentSchemas', 'dependentRequired'):
                if isinstance(t.get(k), dict) and len(t[k]) > 1:
                    for q in perms(t[k]):
                        yield corpus.put(s, p + (k,), q)


def spelled(v):
    """A JSON value with the members of its objects in other orders."""
    if isinstance(v, dict):
        for p in itertools.permutations(v.items()):
            yield dict(p)
        for k, x in v.items():
            for y in spelled(x):
                yield {**v, k: y}
    elif isinstance(v, list):
        for i, x in enumerate(v):
            for y in spelled(x):
                yield v[:i] + [y] + v[i + 1:]


def permutations(case, ctx):
    _, v, deep, i = case
    s = schemas(v, deep)[i]
    bench.source.docs = {}
    with bench.catalog.cache() as cid:
        real = bench.real(s, v, cid)
        base = [whole(real.evaluate(JSON(fresh(x)))) for x in INST]
        ctx.step(len(INST))
        # the instance spelled differently, and its own effect
        for x, want in zip(INST, base):
            for y in spelled(x):
                j = JSON(fresh(y))
                r = real.evaluate(j)
                ctx.step()
                ctx.trace()
                ctx.check(whole(r) == want, f'{v} {json.dumps(s)}: the result depends on the order of members in {json.dumps(y)}', detail={'got': whole(r), 'want': want})
                ctx.check(json.dumps(j.value) == json.dumps(y), f'{v} {json.dumps(s)}: evaluation changes the instance {json.dumps(y)} to {json.dumps(j.value)}')
        ctx.check(typed(real.value) == typed(s), f'{v} {json.dumps(s)}: evaluation changes the schema to {real.value!r}')
        again = [whole(real.evaluate(JSON(fresh(x)))) for x in INST]
        ctx.check(again == base, f'{v} {json.dumps(s)}: evaluating again gives another result')
    for t in itertools.chain(perms(s), inner(s)):
        if not ctx.state((v, json.dumps(t))):
            continue
        with bench.catalog.cache() as cid:
            try:
                real = bench.real(t, v, cid)
            except Exception as e:
                ctx.violation(f'{v}: {json.dumps(s)} can be constructed, {json.dumps(t)} cannot: {e!r}')
                continue
            for x, want in zip(INST, base):
                got = whole(real.evaluate(JSON(fresh(x))))
                ctx.step()
                ctx.trace()
                ctx.outcome(got[0][3] if got else None)
                ctx.check(got == want, f'{v} {json.dumps(t)} on {json.dumps(x)}: another result than with the keywords in the order of {json.dumps(s)}', detail={'got': got, 'want': want})


def orders(case, ctx):
    """Every pair of keywords that may bear on one another (and every triple, in the thorough tier), in every order."""
    _, v, i, deep = case
    P = pairs(v)
    bench.source.docs = {}
    rest = [(b,) for b in P[i + 1:]]
    if deep:
        rest += list(itertools.combinations(P[i + 1:], 2))
    for bs in rest:
        s = {}
        for x in (P[i], *bs):
            if set(x) & set(s):
                break
            s.update(x)
        else:
            want = None
            for t in itertools.permutations(s.items()):
                t = dict(t)
                if '$recursiveRef' in t:
                    t = {'$id': 'https://example.com/s/r', 'properties': {'a': True, 'q': True}, 'items': [I], '$defs': {'w': t, 'd': {'properties': {'q': True}, 'items': [True]}}}
                    r = {'$ref': 'https://example.com/s/r#/$defs/w', '$defs': {'r': t}}
                else:
                    r = {**t, **PDEFS} if v == '2020-12' else {**t, '$defs': {'d': {'properties': {'q': True}, 'items': [True]}}}
                ctx.state((v, json.dumps(t)))
                with bench.catalog.cache() as cid:
                    real = bench.real(r, v, cid)
                    got = [whole(real.evaluate(JSON(fresh(x)))) for x in INST]
                ctx.step(len(INST))
                ctx.trace(len(INST))
                want = want or got
                for x, g, w in zip(INST, got, want):
                    ctx.check(g == w, f'{v} {json.dumps(r)} on {json.dumps(x)}: another result than with the keywords in the order {list(s)}', detail={'got': g, 'want': w})


def before(case, ctx):
    """Every instance after every other against one schema object, compared with the instance alone."""
    _, v, i = case
    s = DISCERN[i]
    bench.source.docs = {}

    def ev(real, x):
        ctx.step()
        return whole(real.evaluate(JSON(fresh(x))))

    alone = []
    for x in CONFUSABLE:
        with bench.catalog.cache() as cid:
            alone.append(ev(bench.real(s, v, cid), x))
    for a, x in enumerate(CONFUSABLE):
        with bench.catalog.cache() as cid:
            real = bench.real(s, v, cid)
            ev(real, x)
            for b, y in enumerate(CONFUSABLE):
                ctx.state((v, i, a, b))
                ctx.trace()
                got = ev(real, y)
                ctx.check(got == alone[b], f'{v} {json.dumps(s)} on {json.dumps(y)}, after {json.dumps(x)} (and those before it): another result than alone', detail={'got': got, 'want': alone[b]})


def alone(k, x):
    """The result of evaluating instance x against subject k, with nothing else in the cache."""
    key = k, json.dumps(x)
    if key not in wants:
        bench.source.docs = DOCS
        with bench.catalog.cache() as cid:
            s = bench.real(SUBJECTS[k][0], '2020-12', cid)
            wants[key] = s.evaluate(JSON(fresh(x))).output('verbose')
    return wants[key]


def history(ops, ctx):
    ctx.state(repr(ops))
    live, insts, old = {}, {}, []
    bench.source.docs = other.source.docs = DOCS
    text = ' ; '.join('-'.join(o) for o in ops)

    def new(k, cid):
        if k not in live:
            live[k] = bench.real(SUBJECTS[k][0], '2020-12', cid, uri=f'https://example.com/s/subject-{k}')
            insts[k] = [JSON(fresh(x)) for x in SUBJECTS[k][1]]

    def evaluate(k):
        for j, x in zip(insts[k], SUBJECTS[k][1]):
            r = live[k].evaluate(j)
            ctx.step()
            got = r.output('verbose')
            want = expected(k, x)
            ctx.check(got == want, f'after {text}: {k} on {json.dumps(x)} gives another result than in a fresh cache', detail={'got': got, 'want': want})
            ctx.check(typed(j.value) == typed(x), f'after {text}: the instance {json.dumps(x)} has become {j.value!r}')
            old.append((r, got))

    with bench.catalog.cache() as cid:
        for op in ops:
            if op[0] == 'new':
                new(op[1], cid)
            elif op[0] == 'other':
                b = bench if op[2] == 'here' else other
                try:
                    JSONSchema(fresh(OTHERS[op[1]]), catalog=b.catalog, cacheid=cid if op[2] == 'here' else 'default', uri=URI(f'https://example.com/s/o-{op[1]}'),
                               metaschema_uri=URI(evalcheck.META['2020-12']))
                except Exception:
                    if op[1] != 'broken':
                        raise
            elif op[0] == 'eval':
                if op[1] in live:
                    evaluate(op[1])
            elif op[0] == 'get':
                bench.catalog.get_schema(URI('https://example.com/s/' + op[1]), cacheid=cid, metaschema_uri=URI(evalcheck.META['2020-12'])).evaluate(JSON({'a': 1}))
            elif op[0] == 'cache':
                with bench.catalog.cache() as c2:
                    for k, (s, xs) in SUBJECTS.items():
                        t = bench.real(s, '2020-12', c2)
                        t.evaluate(JSON(fresh(xs[0])))
                    JSONSchema({'$id': 'https://example.com/s/leaf', 'not': {}}, catalog=bench.catalog, cacheid=c2, metaschema_uri=URI(evalcheck.META['2020-12']))
            elif op[0] == 'catalog':
                other.source.docs = {u: {'$id': u, '$dynamicAnchor': 'N', 'not': {}} for u in DOCS}
                with other.catalog.cache() as oc:
                    JSONSchema({'$ref': 'https://example.com/s/node', 'allOf': [{'$ref': 'https://example.com/s/leaf'}]}, catalog=other.catalog, cacheid=oc,
                               metaschema_uri=URI(evalcheck.META['2020-12']))
                other.source.docs = DOCS
            elif op[0] == 'formats':
                other.catalog.enable_formats('date')
            ctx.step()
        for k in SUBJECTS:
            if k in live:
                evaluate(k)
                evaluate(k)
                ctx.check(typed(live[k].value) == typed(SUBJECTS[k][0]), f'after {text}: the schema {k} has become {live[k].value!r}')
        for k in ('mid', 'strict', 'plain'):
            if k not in live:
                new(k, cid)
                evaluate(k)
        ctx.trace()
        for r, was in old:
            ctx.check(r.output('verbose') == was, f'after {text}: a result obtained earlier has changed')


def expected(k, x):
    def fix(v):
        if isinstance(v, dict):
            return {a: (b.replace('https://example.com/s/root', f'https://example.com/s/subject-{k}') if a == 'absoluteKeywordLocation' else fix(b)) for a, b in v.items()}
        return [fix(y) for y in v] if isinstance(v, list) else v
    key = 'fixed', k, json.dumps(x)
    if key not in wants:
        wants[key] = fix(alone(k, x))
    return wants[key]


def run_case(case, ctx):
    if case[0] == 'perm':
        return permutations(case, ctx)
    if case[0] == 'pairs':
        return orders(case, ctx)
    if case[0] == 'before':
        return before(case, ctx)
    _, n, a, b = case
    for k, (_, xs) in SUBJECTS.items():
        for x in xs:
            expected(k, x)
    for rest in itertools.product(OPS, repeat=n - 2):
        history([OPS[a], OPS[b], *rest], ctx)
