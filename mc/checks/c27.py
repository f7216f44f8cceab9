"""C27: schema.validate() of every constructible schema in a bounded space, against the reference evaluation of the published metaschemas."""
import itertools
import json
import os

from jschon import JSON, JSONSchema, URI

import env
import evalcheck
import refeval
from gen import fresh
from refeval import D19, D20, Dialect, Evaluator, Registry, VOCABS_19, VOCABS_20

MEANING = ('states: distinct (metaschema, schema document) that can be constructed; transitions: schemas constructed and (sub)schemas validated by the real code; traces: '
           'verdicts of validate() compared with the reference evaluation of the metaschema')
BOUNDS = {
    'quick': 'every keyword of both drafts and 6 others x 62 values at the root; x 5 values at every one of 26 subschema positions; 2 malformed keywords at every pair of positions '
             '(depth 2) and chains to depth 5; every pair of keywords of 14; 4 metaschemas derived from each draft; embedded resources of other dialects, each subschema validated '
             'on its own; validation repeated and in every order; plain JSON and JSONSchema form of the same document',
    'thorough': 'as quick, with 62 values at every position, 4 malformed keywords at depth 2, and depth 3'}
ASSUMPTIONS = ['the metaschema documents are those in mc/metaschemas, as published (the submodules in /repo are empty)', 'format does not assert']

M20, M19 = evalcheck.META['2020-12'], evalcheck.META['2019-09']
V20, V19 = 'https://json-schema.org/draft/2020-12/vocab/', 'https://json-schema.org/draft/2019-09/vocab/'
VALUES = [None, True, False, 0, 1, 2, -1, 0.0, 1.0, -1.0, 0.5, -0.5, 1e20, -0.0, 10 ** 20, '', 'a', 'b', 'string', 'integer', 'number', 'null', 'strin', '#', '#a', '#/', '#/$defs/a', 'x y', 'A-b._:1', '_a', '1a',
          'a\n', '#\n', 'é', 'https://h.org/x', 'https://h.org/x#', 'https://h.org/x#f', '(', '^a', [], ['a'], ['a', 'a'], ['a', 1], ['string'], ['string', 'null'], ['string', 'string'], ['string', 'x'], [True],
          [{}], [{}, 1], [[]], [1, 1.0], [{'type': 5}], {}, {'a': True}, {'a': {}}, {'a': 1}, {'a': []}, {'a': ['b']}, {'a': ['b', 'b']}, {'a': {'type': 5}}, {'https://h.org/v': True}, {'type': 5}]
KEYWORDS = sorted((D19.keywords | D20.keywords) - {'$schema'}) + ['definitions', 'dependencies', 'unknown', '', 'Type', '$defs ']
POSITIONS = [('properties', 'p'), ('properties', ''), ('patternProperties', 'p'), ('additionalProperties',), ('propertyNames',), ('items',), ('items', 0), ('items', 1), ('prefixItems', 0), ('prefixItems', 1),
             ('additionalItems',), ('contains',), ('not',), ('allOf', 0), ('anyOf', 1), ('oneOf', 0), ('if',), ('then',), ('else',), ('dependentSchemas', 'p'), ('unevaluatedItems',), ('unevaluatedProperties',),
             ('contentSchema',), ('$defs', 'p'), ('definitions', 'p'), ('dependencies', 'p'), ('unknown',), ('const',), ('enum', 0), ('default',), ('examples', 0)]
BAD = [('type', 'strin'), ('minLength', -1), ('required', ['a', 'a']), ('title', 0)]
PAIR = [('type', 5), ('type', 'string'), ('minLength', -1), ('maximum', 'x'), ('title', 0), ('required', ['a', 'a']), ('enum', 1), ('uniqueItems', 1), ('dependentRequired', {'a': 1}), ('$comment', 1),
        ('properties', {'a': {'format': 5}}), ('allOf', []), ('contentEncoding', 5), ('$defs', {'a': 5})]
DERIVED = ['own', 'parts', 'wrap', 'deaf']
bench = None
META = {}


def cases(tier):
    deep = tier == 'thorough'
    for v in ('2020-12', '2019-09'):
        for k in range(len(KEYWORDS)):
            yield ['root', v, k]
        for p in range(len(POSITIONS)):
            for part in range(4):
                yield ['at', v, p, part, deep]
            yield ['deep', v, p, 4 if deep else 2]
            if deep:
                for q in range(len(POSITIONS)):
                    yield ['deep3', v, p, q]
        for i in range(len(PAIR)):
            yield ['pairs', v, i]
        for d in DERIVED:
            for part in range(4):
                yield ['derived', v, d, part]
        for p in range(len(POSITIONS)):
            yield ['mixed', v, p]
        yield ['chain', v]
        yield ['history', v]
    yield ['official']


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c27')
    for v, m in (('2020-12', M20), ('2019-09', M19)):
        base = m[:-len('schema')]
        root = os.path.join(env.META, v)
        docs = {}
        for f in ['schema.json'] + ['meta/' + n for n in sorted(os.listdir(os.path.join(root, 'meta')))]:
            with open(os.path.join(root, f), encoding='utf-8') as fp:
                docs[base + f[:-len('.json')]] = json.load(fp)
        META[v] = docs


class Ref:
    """The reference verdict of one metaschema."""

    def __init__(self, version, uri=None, doc=None, dialect=None):
        dialects = dict(refeval.DIALECTS)
        if doc is not None:
            dialects[uri] = dialect
        reg = Registry(dialects)
        for v in ('2020-12', '2019-09'):
            for u, d in META[v].items():
                reg.add(u, d, D20 if v == '2020-12' else D19)
        if doc is not None:
            reg.add(uri, doc, D20 if version == '2020-12' else D19)
        self.node = reg.resources[uri or (M20 if version == '2020-12' else M19)]
        self.ev = Evaluator(reg)
        self.memo = {}

    def __call__(self, value):
        k = repr(value)
        if k not in self.memo:
            if len(self.memo) > 50000:
                self.memo.clear()
            self.memo[k] = self.ev.run(self.node, value).valid
        return self.memo[k]


refs = {}


def ref(version):
    if version not in refs:
        refs[version] = Ref(version)
    return refs[version]


def construct(value, meta, cid):
    try:
        return JSONSchema(fresh(value), catalog=bench.catalog, cacheid=cid, uri=URI(evalcheck.BASE), metaschema_uri=URI(meta))
    except Exception:
        return None         # the property is about schemas that can be constructed


def compare(ctx, value, meta, reference, label='', plain=False):
    """-> (schema verdict) or None if it cannot be constructed."""
    ctx.step()
    with bench.catalog.cache() as cid:
        s = construct(value, meta, cid)
        if s is None:
            ctx.outcome('not constructible')
            return None
        ctx.state((meta, label, repr(value)))
        want = reference(value)
        got = s.validate().valid
        ctx.step()
        ctx.trace()
        ctx.outcome(want)
        ctx.check(got is want, f'{label or meta} {json.dumps(value)[:400]}: validate() says {got}, the metaschema says {want}', detail={'schema': value})
        if plain:
            p = bench.catalog.get_metaschema(URI(meta)).evaluate(JSON(fresh(value))).valid
            ctx.check(p is want, f'{label or meta} {json.dumps(value)[:400]}: the metaschema evaluates the plain document to {p}, should be {want}')
            again = s.validate()
            ctx.check(again.valid is want and again.instance is s, f'{label or meta} {json.dumps(value)[:400]}: validate() says {again.valid} the second time')
        return want


def put(pos, sub):
    p = POSITIONS[pos] if isinstance(pos, int) else pos
    if len(p) == 1:
        return {p[0]: sub}
    if isinstance(p[1], int):
        return {p[0]: [True] * p[1] + [sub]}
    return {p[0]: {p[1]: sub}}


def derived(version, how):
    """A metaschema derived from a draft: (URI, document, dialect)."""
    m, voc, names, draft = (M20, V20, list(VOCABS_20), D20) if version == '2020-12' else (M19, V19, list(VOCABS_19), D19)
    base = m[:-len('schema')]
    dyn = {'$dynamicAnchor': 'meta'} if version == '2020-12' else {'$recursiveAnchor': True}
    u = f'https://c27.org/{version}/{how}'
    doc = {'$id': u, '$schema': m, '$vocabulary': {voc + n: True for n in names}}
    if how == 'own':        # extends the draft; subschemas at any depth are held to it as well
        doc.update(dyn, allOf=[{'$ref': m}], propertyNames={'maxLength': 12}, **{'not': {'required': ['title', 'description']}})
    elif how == 'parts':    # made of some of the parts only
        doc.update(dyn, allOf=[{'$ref': base + 'meta/' + n} for n in ('core', 'applicator', 'validation')], type=['object', 'boolean'])
        doc['$vocabulary'] = {voc + n: True for n in ('core', 'applicator', 'validation')}
    elif how == 'wrap':     # refers to the draft without taking its place: subschemas are held to the draft alone
        doc.update(allOf=[{'$ref': m}], required=['title'])
    elif how == 'deaf':     # says nothing about any keyword
        doc.update(type=['object', 'boolean'])
    vocabs = VOCABS_20 if version == '2020-12' else VOCABS_19
    d = Dialect(version, set().union(*(vocabs[n[len(voc):]] for n in doc['$vocabulary'])))
    return u, doc, d


def run_case(case, ctx):
    kind = case[0]
    if kind == 'official':
        for v, other in (('2020-12', '2019-09'), ('2019-09', '2020-12')):
            for u, doc in META[v].items():
                s = JSONSchema(fresh(doc), catalog=bench.catalog, cacheid='official')
                ctx.check(s.validate().valid is ref(v)(doc) is True, f'{u} does not conform to its metaschema')
                m = bench.catalog.get_metaschema(URI(evalcheck.META[v]))
                ctx.check(m.validate().valid, f'the metaschema of {v} does not conform to itself')
                compare(ctx, {k: x for k, x in doc.items() if k not in ('$schema', '$id', '$recursiveAnchor', '$dynamicAnchor')}, evalcheck.META[other], ref(other), f'{u} as a schema of {other}')
        return
    v = case[1]
    meta, reference = evalcheck.META[v], ref(v)
    if kind == 'root':
        k = KEYWORDS[case[2]]
        for i, x in enumerate(VALUES):
            compare(ctx, {k: x}, meta, reference, plain=i % 4 == 0)
    elif kind == 'at':
        _, _, p, part, deep = case
        for i, k in enumerate(KEYWORDS):
            if i % 4 != part:
                continue
            vals = VALUES if deep else [None, 1, 'a#b', ['a', 'a'], {'a': {'type': 5}}]
            for x in vals:
                compare(ctx, put(p, {k: x}), meta, reference)
    elif kind == 'deep':
        _, _, p, n = case
        for q in range(len(POSITIONS)):
            for b, x in BAD[:n]:
                compare(ctx, put(p, put(q, {b: x})), meta, reference)
            compare(ctx, put(p, {**put(q, {'type': 'string'}), 'title': ''}), meta, reference)
        compare(ctx, put(p, 5), meta, reference)
        compare(ctx, put(p, None), meta, reference)
        compare(ctx, put(p, True), meta, reference)
    elif kind == 'deep3':
        _, _, p, q = case
        for r in range(len(POSITIONS)):
            compare(ctx, put(p, put(q, put(r, {'minLength': -1}))), meta, reference)
    elif kind == 'pairs':
        a = PAIR[case[2]]
        for b in PAIR:
            if a[0] != b[0]:
                compare(ctx, dict([a, b]), meta, reference)
                compare(ctx, {'properties': {'a': dict([a]), 'b': dict([b])}}, meta, reference)
                compare(ctx, {'allOf': [True, {'not': dict([a, b])}]}, meta, reference)
                for c in PAIR[::4]:
                    compare(ctx, dict([a, b, c]), meta, reference)
    elif kind == 'derived':
        _, _, how, part = case
        u, doc, d = derived(v, how)
        bench.source.docs[u] = doc
        key = (v, how)
        if key not in refs:
            refs[key] = Ref(v, u, doc, d)
        r = refs[key]
        leaves = [{'type': 5}, {'type': 'string'}, {'title': 'a'}, {'title': 't', 'description': 'd'}, {'minLength': -1, 'title': 't'}, {'averyverylongkeyword': 1}, {'title': 5}, {'contentEncoding': 5}, True, 5]
        for x in leaves:
            if isinstance(x, (dict, bool)) and part == 0:
                compare(ctx, x, u, r, f'{v} {how}', plain=True)
            for p in range(part, len(POSITIONS), 4):
                compare(ctx, put(p, x), u, r, f'{v} {how}')
                compare(ctx, {'title': '', **put(p, x)}, u, r, f'{v} {how}')
                compare(ctx, {'title': '', **put(p, {'title': '', **put((p * 7) % len(POSITIONS), x)})}, u, r, f'{v} {how}')
    elif kind == 'mixed':
        mixed(case[2], v, ctx)
    elif kind == 'chain':
        for p in range(len(POSITIONS)):
            for n in range(3, 6):
                for b, x in BAD + [('type', 'string')]:
                    s = {b: x}
                    for i in range(n):
                        s = put((p + i * 5) % len(POSITIONS), s)
                    compare(ctx, s, meta, reference)
    elif kind == 'history':
        history(v, ctx)


def own_metaschema(value, path, meta):
    """The $schema in force at `path`."""
    m = meta
    at = value
    for k in (None,) + path:
        if k is not None:
            at = at[k]
        if isinstance(at, dict) and isinstance(at.get('$schema'), str):
            m = at['$schema']
    return m


def nodes(s):
    """All JSONSchema nodes below (and including) a JSON node, with their paths."""
    if isinstance(s, JSONSchema):
        yield s
    if s.type == 'object':
        for c in s.data.values():
            yield from nodes(c)
    elif s.type == 'array':
        for c in s.data:
            yield from nodes(c)


def mixed(p, v, ctx):
    """Resources of other dialects embedded at a position; each (sub)schema is validated by its own metaschema."""
    metas = {M20: ref('2020-12'), M19: ref('2019-09')}
    for how in DERIVED[:2]:
        for w in ('2020-12', '2019-09'):
            u, doc, d = derived(w, how)
            bench.source.docs[u] = doc
            if (w, how) not in refs:
                refs[w, how] = Ref(w, u, doc, d)
            metas[u] = refs[w, how]
    leaves = [{'type': 5}, {'type': 'string'}, {'title': 'a', 'description': 'b'}, {'title': 5}, {'contentEncoding': 5}, {'$anchor': 'a:b'}, {'allOf': [{'minLength': -1}]}, {'not': {'title': '', 'description': ''}}]
    for root, sub in itertools.product(metas, metas):
        for i, x in enumerate(leaves):
            for first in (True, False) if ctx.thorough else (i % 2 == 0,):
                inner = {'$schema': sub, '$id': 'inner', **x} if first else {**x, '$id': 'inner', '$schema': sub}
                value = {'$schema': root, 'maximum': 1, **put(p, inner)} if first else {**put(p, inner), '$schema': root}
                ctx.step()
                with bench.catalog.cache() as cid:
                    s = construct(value, root, cid)
                    if s is None:
                        ctx.outcome('not constructible')
                        continue
                    ctx.state((root, sub, repr(value)))
                    order = list(nodes(s))
                    for n in order + order[:1]:
                        plain = n.value
                        m = own_metaschema(value, fix(value, tuple(n.path)), root)
                        want = metas[m](plain)
                        got = n.validate().valid
                        ctx.step()
                        ctx.trace()
                        ctx.outcome(want)
                        ctx.check(got is want, f'{json.dumps(value)}: validate() of {"/".join(n.path)!r} says {got}, its metaschema {m} says {want}', detail={'schema': value})


def fix(value, keys):
    out = []
    for k in keys:
        if isinstance(value, list):
            k = int(k)
        out.append(k)
        value = value[k]
    return tuple(out)


def history(v, ctx):
    """Validations interleaved with constructions, evaluations and validations of others, in every order."""
    meta, reference = evalcheck.META[v], ref(v)
    docs = [{'type': 5}, {'allOf': [{'title': 'x'}]}, {'properties': {'a': {'minLength': -1}}}, {'$defs': {'a': {'$anchor': 'x', 'required': []}}}]
    for perm in itertools.permutations(range(4)):
        with bench.catalog.cache() as cid:
            made = []
            for i in perm:
                s = JSONSchema(fresh(docs[i]), catalog=bench.catalog, cacheid=cid, uri=URI(f'https://example.com/{i}'), metaschema_uri=URI(meta))
                made.append((i, s))
                for j, t in made + made[::-1]:
                    ctx.step()
                    ctx.trace()
                    ctx.state((v, perm, i, j))
                    r = t.validate()
                    ctx.check(r.valid is reference(docs[j]), f'{v} {perm}: validate() of {docs[j]} says {r.valid} after {i} was constructed')
                    if j == 1:
                        t.evaluate(JSON({'a': 'x'}))
            # an edited schema value is what is validated
    for i, d in enumerate(docs):
        with bench.catalog.cache() as cid:
            s = JSONSchema(fresh(d), catalog=bench.catalog, cacheid=cid, uri=URI('https://example.com/e'), metaschema_uri=URI(meta))
            a = s.validate()
            other = JSONSchema({'minLength': -1} if i % 2 else {}, catalog=bench.catalog, cacheid=cid, uri=URI('https://example.com/e2'), metaschema_uri=URI(meta))
            b = other.validate()
            ctx.check(a.valid is reference(d) and b.valid is not bool(i % 2), f'{v}: results of two validations disturb one another')
            ctx.check(a.output('basic')['valid'] is reference(d) and a.output('flag')['valid'] is reference(d), f'{v}: output of validate() of {d} disagrees')
