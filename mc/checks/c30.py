"""C30: every node of every small schema document, against the source value and an independent reading of its identifiers."""
import itertools
import json
import os
import shutil
import tempfile

from jschon import JSON, JSONPointer, JSONSchema, URI
from jschon.vocabulary import Keyword

import evalcheck
import refeval
import refuri
import sizes
from gen import exact, fresh
from treecheck import diff

MEANING = ('states: distinct (schema document, way of obtaining it); transitions: schema nodes examined; traces: schema documents of which every node was compared '
           'with the source value and with an independent computation of its parent schema, resource, base URI, location and dialect')
BOUNDS = {
    'quick': 'both drafts: a subschema with each of 4 $id and 3 anchors at each of 20 keyword positions, below each of 4 outer schemas, obtained in 7 ways (constructor, '
             '$schema, text, file, catalog, unnamed, named catalog), before and after evaluation; every order of 5 keywords in a schema and of 4 in its subschema; every '
             'nesting of 6 applicators to depth 3; 60 awkward member names; values of every JSON type under known and unknown keywords; '
             '9 to 257 subschemas, identifiers and keywords; 9 applicators 5 to 65 deep with identifiers at 5 choices of levels',
    'thorough': 'the same with every pair of positions nested and every way of obtaining each, nesting of 9 applicators to depth 4'}
ASSUMPTIONS = ['no two resources of one document have the same identifier']

BASE = 'https://ex.org/a/root'
IDS = [None, 'x', '/y/z', 'https://o.org/w', '../q?k=1', './p#']
POSITIONS = [('$defs', 'named'), ('allOf', 'many'), ('anyOf', 'many'), ('oneOf', 'many'), ('not', 'one'), ('if', 'one'), ('then', 'one'), ('else', 'one'), ('dependentSchemas', 'named'),
             ('properties', 'named'), ('patternProperties', 'named'), ('additionalProperties', 'one'), ('propertyNames', 'one'), ('contains', 'one'),
             ('unevaluatedItems', 'one'), ('unevaluatedProperties', 'one'), ('items', 'one'), ('prefixItems', 'many'), ('additionalItems', 'one'), ('items', 'many')]
WAYS = ['constructor', '$schema', 'text', 'file', 'catalog', 'unnamed', 'name']
NAMES = ['', '~', '/', '~1', '~0', '~01', 'a/b', '%', '%25', '"', '\\', ' ', '0', '-', '-1', '00', 'é', '😀', '#', '?', '$ref', '$id', '$schema', '$anchor', '$defs', '^a$', 'a b', '+', '&', "'", '[', '{', '|', '^',
         '`', '<', 'allOf', 'not', 'type', 'const', 'items', '\x00', '\n', '\x7f', '\u2028', '中', 'a' * 300, 'data', 'keywords', 'parent', 'value', 'key', '__class__', '$', '$$', 'é', 'A', 'Z.z', '=', ';', ':', '@']
SCALARS = [None, True, False, 0, -1, 1.5, 1.0, 10 ** 30, '', 'x', [], {}, [[]], [{}], {'a': []}, {'$id': 'n', '$ref': '#/none', '$anchor': 'q'}, [{'$id': 'n'}], {'$schema': 'n'}]

bench = None
tmp = None


def setup(ctx):
    global bench, tmp
    bench = evalcheck.Bench('c30')
    tmp = tempfile.mkdtemp(prefix='c30-')


def teardown(ctx):
    shutil.rmtree(tmp, ignore_errors=True)


def usable(v, kw, shape):
    if v == '2019-09':
        return kw != 'prefixItems'
    return kw != 'additionalItems' and (kw, shape) != ('items', 'many')


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2020-12', '2019-09'):
        ps = [p for p in range(len(POSITIONS)) if usable(v, *POSITIONS[p])]
        for p in ps:
            for q in ps if deep else ps[p % 3::3]:
                yield ['position', v, p, q]
            yield ['values', v, p]
        for way in range(len(WAYS)):
            yield ['orders', v, way]
        yield ['names', v]
        yield ['scalars', v]
        n, d = (9, 4) if deep else (6, 3)
        for first in range(n):
            for second in range(n):
                yield ['nest', v, first, second, n, d]
    yield ['roots']
    for v in ('2020-12', '2019-09'):
        for n in sizes.SIZES:
            yield ['many', v, n]
        for d in sizes.DEPTH:
            yield ['depth', v, d]


def put(shape, sub, other):
    return [other, sub] if shape == 'many' else {'k/~%': sub, 'l': other} if shape == 'named' else sub


def obtain(ctx, doc, v, way, cid):
    """The schema obtained in the given way, and the URI it is known by (None if generated)."""
    meta = evalcheck.META[v]
    bench.source.docs = {}
    if way == 'constructor':
        return bench.real(doc, v, cid, uri=BASE), BASE
    if way == 'name':
        return JSONSchema(fresh(doc), catalog='c30', cacheid=cid, uri=URI(BASE), metaschema_uri=URI(meta)), BASE
    if way == '$schema':
        return JSONSchema({**fresh(doc), '$schema': meta}, catalog=bench.catalog, cacheid=cid, uri=URI(BASE)), BASE
    if way == 'text':
        return JSONSchema.loads(json.dumps(doc), catalog=bench.catalog, cacheid=cid, uri=URI(BASE), metaschema_uri=URI(meta)), BASE
    if way == 'file':
        path = os.path.join(tmp, 's.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(doc, f)
        return JSONSchema.loadf(path, catalog=bench.catalog, cacheid=cid, uri=URI(BASE), metaschema_uri=URI(meta)), BASE
    if way == 'catalog':
        bench.source.docs = {BASE: doc}
        return bench.catalog.get_schema(URI(BASE), cacheid=cid, metaschema_uri=URI(meta)), BASE
    return JSONSchema(fresh(doc), catalog=bench.catalog, cacheid=cid, metaschema_uri=URI(meta)), None


def absolute(doc):
    """Whether every identifier in the document stands on its own."""
    if isinstance(doc, dict):
        i = doc.get('$id')
        return (not isinstance(i, str) or i.startswith('https:')) and all(map(absolute, doc.values()))
    return not isinstance(doc, list) or all(map(absolute, doc))


def examine(ctx, doc, v, way, use=True):
    if way == 'unnamed' and not absolute(doc):
        way = 'constructor'
    if way == '$schema' and not (isinstance(doc, dict) and '$schema' not in doc):
        way = 'constructor'
    text = f'{v} {json.dumps(doc)[:1500]} ({way})'
    ctx.state(text)
    with bench.catalog.cache() as cid:
        schema, uri = obtain(ctx, doc, v, way, cid)
        if way == '$schema':
            doc = {**doc, '$schema': evalcheck.META[v]}
        ctx.trace()
        same(ctx, text, schema, doc, v, uri, cid)
        if use:
            schema.evaluate(JSON({'k': [1], 'l': {'a': 'b'}}))
            schema.evaluate(JSON([[], 1, 'x']))
            if isinstance(doc, dict):
                schema.validate()
            same(ctx, text + ' after evaluation', schema, doc, v, uri, cid)


def same(ctx, text, schema, doc, v, uri, cid):
    d = diff(schema, doc)
    ctx.step()
    ctx.outcome(f'{schema.type} {len(schema.keywords)}')
    if not ctx.check(d is None, f'{text}: {d}'):
        return
    if uri is None and isinstance(doc, dict):
        uri = str(schema.base_uri)
        ctx.check('$id' in doc or uri.startswith('urn:uuid:'), f'{text}: an unnamed schema got the URI {uri}')
    reg = refeval.Registry()
    reg.add(uri or BASE, doc, refeval.DIALECTS[evalcheck.META[v]], retrieved=False)
    walk(ctx, text, reg, schema, doc, (), uri or BASE, None, cid, evalcheck.META[v], uri is None)


def walk(ctx, text, reg, node, value, path, uri, above, cid, meta, unnamed):
    want = reg.nodes.get((uri, path))
    at = f'{text} at {path}'
    if want is None:
        ctx.check(not isinstance(node, JSONSchema) and type(node) is JSON, f'{at}: a {type(node).__name__}, though no schema belongs there')
    else:
        ctx.step()
        if not ctx.check(isinstance(node, JSONSchema), f'{at}: a {type(node).__name__}, though a schema belongs there'):
            return
        if isinstance(value, dict) and isinstance(value.get('$schema'), str):
            meta = value['$schema']
        ctx.check(node.parentschema is above, f'{at}: parentschema is {node.parentschema!r:.100}')
        root = node
        while root.parentschema is not None:
            root = root.parentschema
        ctx.check(node.document_rootschema is root, f'{at}: document_rootschema is not the document')
        r = root
        for k in want.root.path:
            r = r[k] if r.type == 'object' else r[int(k)]
        ctx.check(node.resource_rootschema is r, f'{at}: resource_rootschema is at {node.resource_rootschema.path}, expected {want.root.path}')
        ctx.check(node.catalog is bench.catalog, f'{at}: another catalog')
        ctx.check(node.cacheid == cid, f'{at}: cacheid {node.cacheid!r}')
        ctx.check(str(node.metaschema_uri) == meta, f'{at}: metaschema_uri is {node.metaschema_uri}, expected {meta}')
        ctx.check(node.metaschema is bench.catalog.get_metaschema(URI(meta)), f'{at}: another metaschema')
        if not unnamed:
            ctx.check(refuri.normalize(str(node.base_uri)) == refuri.normalize(want.base), f'{at}: base_uri is {node.base_uri}, expected {want.base}')
            loc = str(node.canonical_uri)
            u, _, frag = loc.partition('#')
            rel = path[len(want.root.path):]
            ctx.check(refuri.normalize(u) == refuri.normalize(want.base) and refuri.fragment_keys(frag) == rel, f'{at}: canonical_uri is {loc}, expected {want.base} and {rel}')
            if isinstance(value, dict) or path:
                try:
                    got = bench.catalog.get_schema(URI(loc), cacheid=cid)
                except Exception as e:
                    got = e
                ctx.check(got is node, f'{at}: get_schema({loc!r}) gives {got!r:.200}')
        if isinstance(value, dict):
            kws = node.keywords
            ctx.check(set(kws) == set(value), f'{at}: keywords are {list(kws)}')
            for k, kw in kws.items():
                ctx.check(isinstance(kw, Keyword) and kw.key == k and kw.json is node[k] and kw.parentschema is node, f'{at}: keyword {k!r} is not that of its schema')
        else:
            ctx.check(not node.keywords, f'{at}: a boolean schema has keywords')
        above = node
    if isinstance(value, dict):
        for k, w in value.items():
            walk(ctx, text, reg, node[k], w, path + (k,), uri, above, cid, meta, unnamed)
    elif isinstance(value, list):
        for i, w in enumerate(value):
            walk(ctx, text, reg, node[i], w, path + (str(i),), uri, above, cid, meta, unnamed)


APPLY = [('$defs', 'named'), ('allOf', 'many'), ('not', 'one'), ('properties', 'named'), ('dependentSchemas', 'named'), ('contentSchema', 'one'), ('unevaluatedProperties', 'one'),
         ('oneOf', 'many'), ('then', 'one')]


def run_case(case, ctx):
    what = case[0]
    if what == 'roots':
        for v in ('2020-12', '2019-09'):
            for doc in (True, False, {}, {'$id': 'https://ex.org/r'}, {'$id': 'https://ex.org/r#'}, {'$id': 'r'}, {'title': 'x'}):
                for way in WAYS:
                    if way != 'catalog' or not isinstance(doc, bool):
                        examine(ctx, doc, v, way)
        # a document of one draft inside one of the other
        for a, b in (('2020-12', '2019-09'), ('2019-09', '2020-12')):
            for sub in ({}, {'title': 'x', 'not': {'const': [1]}}, {'items': [{'$anchor': 'A'}], 'additionalItems': {}}, {'prefixItems': [{}], 'items': {'$id': 'n', 'not': {}}}):
                if not usable(b, 'additionalItems' if 'additionalItems' in sub else 'items', 'one') or (b == '2019-09' and 'prefixItems' in sub):
                    continue
                for order in (0, 1):
                    head = [('$id', 'inner'), ('$schema', evalcheck.META[b])]
                    inner = dict((head[::-1] if order else head) + list(sub.items())) if order < 2 else None
                    for kw, shape in (('$defs', 'named'), ('allOf', 'many'), ('not', 'one')):
                        for inn in (inner, dict(list(inner.items())[::-1])):
                            for way in WAYS[:5]:
                                examine(ctx, {kw: put(shape, inn, {'title': 'x'}), 'title': [1]}, a, way)
        return
    v = case[1]
    if what == 'many':
        n = case[2]
        subs = [{'$anchor': f'a{i}', 'title': i} for i in range(n)]
        ids = [{'$id': f'i{i}', 'not': {'$anchor': 'A'}} for i in range(n)]
        for doc in ({'allOf': subs}, {'$defs': {f'k{i}': s for i, s in enumerate(ids)}}, {'properties': {f'k{i}': s for i, s in enumerate(subs)}, 'required': sizes.names(n)}, {'anyOf': ids + [True]},
                    {'not': {'$id': 'q', 'oneOf': subs[::-1]}}, {f'x-{i}': {'not': [i]} for i in range(n)}, {'enum': list(range(n)), 'const': {f'k{i}': {} for i in range(n)}}):
            examine(ctx, doc, v, WAYS[n % 5], use=False)
        examine(ctx, {'title': 'x' * n, '$defs': {'y' * n: {'$anchor': 'z' * n, 'not': {'$id': 'w' * n}}}}, v, 'constructor', use=False)
    elif what == 'depth':
        d = case[2]
        for kw, shape in APPLY:
            for at in ((), (0,), (d // 2,), (1, d - 1), range(d)):
                doc = {'const': 1}
                for i in range(d):
                    doc = {kw: put(shape, doc, True), **({'$id': f'd{d - 1 - i}/'} if d - 1 - i in at else {}), '$anchor': f'A{i}'}
                examine(ctx, doc, v, 'constructor' if kw != 'not' else 'text', use=False)
        doc = [1, {'a': None}]
        for i in range(d):
            doc = [doc] if i % 2 else {'k': doc}
        examine(ctx, {'const': doc, 'x-y': doc}, v, 'constructor', use=False)
    elif what == 'position':
        (kw, shape), (kw2, shape2) = POSITIONS[case[2]], POSITIONS[case[3]]
        n = case[2] + case[3]
        for i, (oid, sid) in enumerate(itertools.product(IDS[:4], IDS)):
            for anc in [None, '$anchor'] + (['$dynamicAnchor'] if v == '2020-12' else []):
                sub = {'title': 't', kw2: put(shape2, {'const': [2, {'a': None}]}, True)}
                if sid:
                    sub['$id'] = sid
                if anc:
                    sub[anc] = 'A'
                outer = {kw: put(shape, sub, False), 'description': 'd'}
                if oid:
                    outer['$id'] = {'x': 'out', '/y/z': '/out/y', 'https://o.org/w': 'https://o.org/out'}[oid]
                for j, doc in enumerate((outer, {'$defs': {'o': outer}, 'enum': [outer]}, {'allOf': [True, outer]}, {'not': outer, '$id': 'https://r.org/'})):
                    for way in WAYS if ctx.thorough else [WAYS[(n + i + j) % len(WAYS)]]:
                        examine(ctx, doc, v, way, use=j == 1)
    elif what == 'values':
        kw, shape = POSITIONS[case[2]]
        for val in SCALARS:
            sub = {'unknownKw': val, 'default': val, 'const': val, 'examples': [val]}
            examine(ctx, {kw: put(shape, sub, {'enum': [val]}), 'x-y': val}, v, WAYS[case[2] % len(WAYS)])
        for k in (1, 2, 3, 11):
            if shape == 'many':
                examine(ctx, {kw: [{'title': i} for i in range(k)]}, v, 'constructor')
            elif shape == 'named':
                examine(ctx, {kw: {str(i): {'title': i} for i in range(k)}}, v, 'text')
    elif what == 'orders':
        way = WAYS[case[2]]
        anc = '$dynamicAnchor' if v == '2020-12' else '$anchor'
        inner = [('$id', 'https://o.org/in'), (anc, 'I'), ('$defs', {'d': {'$anchor': 'D', 'not': {}}}), ('$schema', evalcheck.META[v])]
        outer = [('$anchor', 'O'), ('properties', {'p': {'$anchor': 'P', '$ref': '#O'}}), ('$ref', '#/$defs/u'), ('contains', {'minItems': 1})]
        for perm in itertools.permutations([('$id', 'https://ex.org/b/c')] + outer):
            examine(ctx, {**dict(perm), '$defs': {'s': dict(inner), 'u': True}}, v, way, use=False)
            examine(ctx, {'$defs': {'s': dict(inner[::-1]), 'u': True}, **dict(perm)}, v, way, use=False)
        for perm in itertools.permutations(inner):
            for out in itertools.permutations(outer[:2]):
                examine(ctx, {**dict(out), '$defs': {'s': dict(perm), 'u': {}}}, v, way, use=False)
                examine(ctx, {'allOf': [{'title': 1}, {'not': dict(perm)}], **dict(out)}, v, way, use=False)
    elif what == 'names':
        for n in NAMES:
            for kw in ('$defs', 'properties', 'dependentSchemas'):
                if n == '' and kw == 'dependentSchemas':
                    continue
                examine(ctx, {kw: {n: {'title': n, 'not': {'$anchor': 'A'}}, 'b': True}, 'enum': [{n: 1}]}, v, 'constructor', use=False)
                examine(ctx, {'not': {'$id': 'q', kw: {n: {'$defs': {n: {}}}}}}, v, 'text', use=False)
            if n and n[0] != '$' and n not in ('allOf', 'not', 'type', 'const', 'items'):
                examine(ctx, {n: {'a': [{}]}, 'not': {n: [1]}}, v, 'constructor', use=False)
    elif what == 'scalars':
        for a, b in itertools.product(SCALARS, repeat=2):
            examine(ctx, {'const': a, 'unknown': b, 'allOf': [{'default': a, 'enum': [b]}]}, v, 'constructor', use=False)
    else:
        first, second, n, d = case[2:]
        for combo in itertools.product(range(n), repeat=d - 2):
            doc = {'const': 1}
            for depth, a in enumerate(reversed((first, second) + combo)):
                kw, shape = APPLY[a]
                doc = {kw: put(shape, doc, {'$anchor': f'A{depth}'}), 'maxItems': depth}
                if (a + depth) % 3 == 0:
                    doc['$id'] = f'i{depth}'
            examine(ctx, doc, v, 'constructor', use=False)
