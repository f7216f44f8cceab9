"""C33: every selection and order of dialects, in one catalog and in several, against the reference evaluation of each dialect."""
import itertools
import json

from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Catalog
from jschon.exc import CatalogError, JSONSchemaError

import evalcheck
import refeval
from evalcheck import META
from gen import fresh

MEANING = ('states: distinct (history of creating catalogs, catalog, dialect, way of choosing the dialect, schema); transitions: catalogs created, schemas constructed and '
           'evaluations by the real code; traces: schemas of which every verdict was compared with the reference evaluation in that dialect, or whose refusal was checked')
BOUNDS = {
    'quick': 'every sequence of up to 3 versions out of 3, and with an unknown one at every position; every pair of the 16 selections in order, as two catalogs of different and of '
             'the same name; for each catalog, before and after the other was created, all 3 dialects by argument, by $schema and in an embedded resource, with 50 schemas',
    'thorough': 'every sequence of up to 4 versions; every triple of selections of up to 2 versions'}
ASSUMPTIONS = ['the future dialect is compared on what it has in common with 2020-12']
VERSIONS = ('2019-09', '2020-12', 'next')
PICKS = [p for n in range(4) for p in itertools.permutations(VERSIONS, n)]
N, S = {'type': 'number'}, {'type': 'string'}
# one schema per keyword, so that each decides differently where the keyword is known
KEYWORDS = [
    ({'type': 'string'}, [1, 's']), ({'enum': [1]}, [1, 2]), ({'const': 1}, [1, 2]), ({'multipleOf': 2}, [3, 4]), ({'maximum': 2}, [1, 3]), ({'exclusiveMaximum': 2}, [1, 2]), ({'minimum': 2}, [1, 3]),
    ({'exclusiveMinimum': 2}, [2, 3]), ({'maxLength': 1}, ['a', 'ab']), ({'minLength': 2}, ['a', 'ab']), ({'pattern': 'b'}, ['a', 'ab']), ({'maxItems': 1}, [[1], [1, 1]]), ({'minItems': 2}, [[1], [1, 1]]),
    ({'uniqueItems': True}, [[1, 2], [1, 1]]), ({'contains': N}, [['s'], [1]]), ({'contains': N, 'minContains': 2}, [[1], [1, 1]]), ({'contains': N, 'maxContains': 1}, [[1], [1, 1]]),
    ({'maxProperties': 1}, [{'a': 1}, {'a': 1, 'b': 1}]), ({'minProperties': 2}, [{'a': 1}, {'a': 1, 'b': 1}]), ({'required': ['a']}, [{}, {'a': 1}]), ({'dependentRequired': {'a': ['b']}}, [{'a': 1}, {'a': 1, 'b': 1}]),
    ({'allOf': [N]}, [1, 's']), ({'anyOf': [N]}, [1, 's']), ({'oneOf': [N, True]}, [1, 's']), ({'not': N}, [1, 's']), ({'if': N, 'then': {'minimum': 1}, 'else': S}, [0, 1, 's', []]),
    ({'dependentSchemas': {'a': {'required': ['b']}}}, [{'a': 1}, {'a': 1, 'b': 1}]), ({'prefixItems': [N]}, [[1], ['s'], [1, 's']]), ({'items': N}, [[1], ['s'], [1, 's']]),
    ({'prefixItems': [S], 'items': N}, [['s', 1], ['s', 's'], [1, 1]]), ({'items': [S], 'additionalItems': N}, [['s', 1], ['s', 's'], [1, 1]]), ({'additionalItems': N}, [['s']]), ({'properties': {'a': N}}, [{'a': 1}, {'a': 's'}]),
    ({'patternProperties': {'a': N}}, [{'ba': 1}, {'ba': 's'}]), ({'properties': {'a': True}, 'additionalProperties': N}, [{'a': 's', 'b': 1}, {'b': 's'}]), ({'propertyNames': {'maxLength': 1}}, [{'a': 1}, {'ab': 1}]),
    ({'allOf': [{'properties': {'a': True}}], 'unevaluatedProperties': False}, [{'a': 1}, {'b': 1}]), ({'allOf': [{'prefixItems': [True]}], 'unevaluatedItems': False}, [[1], [1, 1]]), ({'unevaluatedItems': N}, [[1], ['s']]),
    ({'$ref': '#/$defs/n', '$defs': {'n': N}}, [1, 's']), ({'$ref': '#n', '$defs': {'n': {'$anchor': 'n', **N}}}, [1, 's']),
    ({'$defs': {'e': {'$id': 'e', '$defs': {'x': {'$dynamicAnchor': 'n', **N}}, '$dynamicRef': '#n'}, 'o': {'$dynamicAnchor': 'n', **S}}, '$ref': 'e'}, [1, 's']),
    ({'$recursiveAnchor': True, 'maxProperties': 1, '$defs': {'e': {'$id': 'e', '$recursiveAnchor': True, 'properties': {'a': {'$recursiveRef': '#'}}}}, '$ref': 'e'}, [{'a': {}}, {'a': {'b': 1, 'c': 1}}]),
    ({'$comment': 'c', 'title': 't', 'description': 'd', 'default': 1, 'deprecated': True, 'readOnly': True, 'writeOnly': True, 'examples': [1], 'format': 'json-pointer', 'contentMediaType': 'text/plain', 'contentEncoding': 'base64',
      'contentSchema': {'type': 'null'}}, [1, 's']),
    ({'definitions': {'a': N}, 'dependencies': {'a': ['b']}, 'unknown': N}, [{'a': 1}, 's']), ({}, [1, {}]), ({'additionalProperties': False, 'minProperties': 0}, [{'a': 1}, {}]),
]
# a value of the wrong form, and the dialects whose metaschema refuses it
WRONG = [({'minimum': '1'}, VERSIONS), ({'minContains': -1}, VERSIONS), ({'prefixItems': []}, VERSIONS[1:]), ({'title': 1}, VERSIONS), ({'required': ['a', 'a']}, VERSIONS), ({'contentSchema': {'minLength': -1}}, VERSIONS),
         ({'unevaluatedItems': {'minLength': -1}}, VERSIONS), ({'additionalItems': {'minLength': -1}}, VERSIONS[:1]), ({'type': 'string', 'pattern': 'a'}, ()), ({'dependentRequired': {'a': ['b', 'b']}}, VERSIONS)]
serial = 0


def cases(tier):
    deep = tier == 'thorough'
    for n in range(5 if deep else 4):
        for p in itertools.product(VERSIONS, repeat=n):
            yield ['one', p]
    for i in range(len(PICKS)):
        for same in (False, True):
            yield ['two', i, same]
    if deep:
        for a, b in itertools.product([p for p in PICKS if len(p) < 3], repeat=2):
            yield ['three', a, b]
    for p in PICKS:
        yield ['unknown', p]


def fails(f, *types):
    try:
        f()
    except types:
        return True
    except Exception as e:
        return e
    return False


def probe(ctx, history, catalog, name, versions, part):
    """Everything that can be seen of the dialects in one catalog."""
    label = f'{history}: {name} {versions}'
    ctx.check(Catalog.get_catalog(name) is catalog, f'{label}: get_catalog gives another catalog')
    for v in VERSIONS:
        meta = URI(META[v])
        if v not in versions:
            for s in ({'type': 'string'}, {'unknown': 1}, {'$schema': META[v], 'title': 't'}, {'$schema': META[v], '$id': 'https://ex.org/a', 'type': 'string'}):
                with catalog.cache() as cid:
                    kw = {} if '$schema' in s else {'metaschema_uri': meta}
                    got = fails(lambda: JSONSchema(fresh(s), catalog=catalog, cacheid=cid, **kw), CatalogError)
                    ctx.step()
                    ctx.check(got is True, f'{label}: constructing {s} in the absent dialect {v} gives {got!r}')
            for f in (lambda: catalog.get_metaschema(meta), lambda: catalog.get_vocabulary(URI(META[v].replace('schema', 'vocab/validation').replace('json-vocab/validation', 'json-schema'))),
                      lambda: catalog.get_schema(meta)):
                got = fails(f, CatalogError)
                ctx.check(got is True, f'{label}: something of the absent dialect {v} is found: {got!r}')
            ctx.trace()
            continue
        m = catalog.get_metaschema(meta)
        ctx.check(m.validate().valid and m.catalog is catalog and str(m.uri) == META[v] and m is catalog.get_metaschema(URI(META[v])), f'{label}: the metaschema of {v} is {m.uri} of {m.catalog}')
        others = [o for o in versions if o != v]
        for n, (s, instances) in enumerate(KEYWORDS):
            if n % part[1] != part[0] or isinstance(s.get('items'), list) and v != '2019-09':
                continue
            for way in ('argument', 'keyword', 'both') + (('embedded',) if others else ()):
                meta_uri, t = meta, s
                outer = v
                if way == 'keyword':
                    meta_uri, t = None, {'$schema': META[v], **s}
                elif way == 'both':
                    meta_uri, t = URI(META[others[0]] if others else META[v]), {**s, '$schema': META[v]}
                elif way == 'embedded':
                    outer = others[n % len(others)]
                    if {'$recursiveAnchor', '$recursiveRef', '$dynamicRef'} & set(json.dumps(s).split('"')):
                        continue
                    meta_uri, t = URI(META[outer]), {'$ref': 'emb', '$defs': {'x': {'$id': 'emb', '$schema': META[v], **s}}}
                ctx.state((history, name, v, way, n))
                ev, node = evalcheck.ref(t, outer)
                with catalog.cache() as cid:
                    try:
                        real = JSONSchema(fresh(t), catalog=catalog if n % 2 else name, cacheid=cid, uri=URI(evalcheck.BASE), metaschema_uri=meta_uri)
                    except (CatalogError, JSONSchemaError) as e:
                        ctx.violation(f'{label}: {json.dumps(t)} ({way}) is refused: {e}')
                        continue
                    ctx.step()
                    for i in instances:
                        want, got = ev.run(node, i).valid, real.evaluate(JSON(fresh(i))).valid
                        ctx.step()
                        ctx.outcome((way, want))
                        ctx.check(got is want, f'{label}: {json.dumps(t)} ({way} {v}) on {json.dumps(i)} evaluates to {got}, the specification says {want}')
                ctx.trace()
        for s, refusing in WRONG if part[0] == 0 else ():
            with catalog.cache() as cid:
                got = JSONSchema(fresh(s), catalog=catalog, cacheid=cid, metaschema_uri=meta).validate().valid
                ctx.step()
                ctx.check(got is (v not in refusing), f'{label}: validating {s} in {v} gives {got}')


def make(ctx, name, versions):
    ctx.step()
    return create_catalog(*versions, name=name)


def new_name():
    global serial
    serial += 1
    return f'c33-{serial}'


def run_case(case, ctx):
    what = case[0]
    try:
        if what == 'one':
            versions = tuple(case[1])
            name = new_name()
            probe(ctx, (versions,), make(ctx, name, versions), name, versions, (0, 1))
        elif what == 'two':
            for second in PICKS:
                first = PICKS[case[1]]
                names = [new_name()]
                names.append(names[0] if case[2] else new_name())
                a = make(ctx, names[0], first)
                if case[1] % 2:
                    probe(ctx, (first, 'before'), a, names[0], first, (1, 7))
                b = make(ctx, names[1], second)
                if not case[2]:
                    probe(ctx, (first, second), a, names[0], first, (case[1] % 3, 3))
                probe(ctx, (first, second, case[2]), b, names[1], second, (case[1] % 3, 3))
        elif what == 'three':
            for third in [p for p in PICKS if len(p) < 3]:
                all_ = [(new_name(), tuple(p)) for p in (case[1], case[2], third)]
                cats = [make(ctx, n, p) for n, p in all_]
                for c, (n, p) in zip(cats, all_):
                    probe(ctx, (tuple(case[1]), tuple(case[2]), third), c, n, p, (len(p), 5))
        else:
            for at in range(len(case[1]) + 1):
                for unknown in ('2019', 'draft7', '', '2020-12 ', '2020_12', 'Next', META['2020-12']):
                    versions = list(case[1])
                    versions.insert(at, unknown)
                    name = new_name()
                    got = fails(lambda: make(ctx, name, versions), ValueError)
                    ctx.check(got is True, f'creating a catalog of {versions} gives {got!r}')
                    got = fails(lambda: Catalog.get_catalog(name), CatalogError)
                    ctx.check(got is True, f'after a failed creation of a catalog of {versions}, get_catalog gives {got!r}')
                    old = make(ctx, name, case[1][:1])
                    ctx.check(fails(lambda: make(ctx, name, versions), ValueError) is True and Catalog.get_catalog(name) is old, f'a failed creation of a catalog of {versions} replaces the one of that name')
                    probe(ctx, ('unknown', tuple(versions)), old, name, tuple(case[1][:1]), (at, 9))
                    Catalog._catalog_registry.pop(name, None)
                    ctx.trace()
    finally:
        for n in [n for n in Catalog._catalog_registry if str(n).startswith('c33-')]:
            del Catalog._catalog_registry[n]
