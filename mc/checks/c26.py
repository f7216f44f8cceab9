"""C26: every declaration of vocabularies, every nesting of dialects, every creation order of metaschemas, on the real catalog against the reference."""
import collections
import itertools
import json

from jschon import JSON, Catalog, JSONSchema, URI, create_catalog
from jschon.exc import JschonError
from jschon.vocabulary import Keyword, Subschema

import evalcheck
import refeval
from gen import fresh
from refeval import D19, D20, Dialect, Evaluator, NoSchema, Registry, VOCABS_19, VOCABS_20

MEANING = ('states: distinct (vocabulary declaration or dialect nesting or creation history, witness schema); transitions: operations on the real catalog, constructions and '
           'evaluations; traces: evaluations whose verdict and annotations were compared with those of a reference evaluator restricted to the declared keywords')
BOUNDS = {
    'quick': 'each draft: every assignment of absent/optional/required to its vocabularies other than core, alone, and with an optional '
             'unknown vocabulary and a required custom one (required unknown: refused), with one witness schema for every keyword of both drafts; 5 mixtures of drafts; every nesting of 5 dialects to depth 3 at 12 '
             'positions, in one document and across documents; every creation order of 4 metaschemas by 3 routes in 2 catalogs; every pair of 12 requests to a catalog of no version; metaschemas without $schema; 34 metaschemas that must be refused, by every '
             'route, three times, and after every other request',
    'thorough': 'as quick, with every vocabulary declared in two orders and with and without $id, nesting with witness pairs'}
ASSUMPTIONS = ['no two vocabularies of one metaschema declare the same keyword', 'the annotation of dependentSchemas, and of contains in 2019-09, is not compared']

M20, M19 = evalcheck.META['2020-12'], evalcheck.META['2019-09']
V20, V19 = 'https://json-schema.org/draft/2020-12/vocab/', 'https://json-schema.org/draft/2019-09/vocab/'
CUSTOM, UNKNOWN = 'https://v.org/custom', 'https://v.org/unknown'
OWN = {'xEven', 'xSub'}


class XEven(Keyword):
    key = 'xEven'
    instance_types = 'number',

    def evaluate(self, instance, result):
        if instance.data % 2:
            result.fail('odd')


class XOdd(Keyword):
    key = 'xEven'
    instance_types = 'number',

    def evaluate(self, instance, result):
        if not instance.data % 2:
            result.fail('even')


class XSub(Keyword, Subschema):
    key = 'xSub'

    def evaluate(self, instance, result):
        self.json.evaluate(instance, result)


def k_xsub(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    o = ev.sub(node, (k,), inst, ipath, epath, scope)
    done(o.valid)
    if o.valid:
        out.take(o)


refeval.ONE.add('xSub')
refeval.ASSERT['xEven'] = (('number',), lambda v, i: i % 2 == 0)
refeval.KEYWORDS['xSub'] = k_xsub

F = False
AX = {'a': 1, 'x': 2}
# one schema for every keyword, with instances that tell whether it is in effect
WITNESSES = {
    'allOf': ({'allOf': [F]}, [1]), 'anyOf': ({'anyOf': [F]}, [1]), 'oneOf': ({'oneOf': [True, True]}, [1]), 'not': ({'not': True}, [1]),
    'if': ({'if': F, 'then': True, 'else': F}, [1]), 'then': ({'if': True, 'then': F}, [1]), 'else': ({'else': F, 'if': F}, [1]),
    'dependentSchemas': ({'dependentSchemas': {'a': F}}, [AX, {}]), 'prefixItems': ({'prefixItems': [True, F]}, [[1, 2], [1]]),
    'items': ({'items': F}, [[1], []]), 'items2': ({'prefixItems': [True], 'items': F}, [[1], [1, 2]]),
    'additionalItems': ({'items': [True], 'additionalItems': F}, [[1], [1, 2]]), 'additionalItems2': ({'additionalItems': F}, [[1]]),
    'contains': ({'contains': F}, [[1], []]), 'contains2': ({'contains': True}, [[1], []]), 'properties': ({'properties': {'a': F}}, [AX, {}]),
    'patternProperties': ({'patternProperties': {'^a': F}}, [AX, {}]), 'additionalProperties': ({'additionalProperties': F}, [AX, {}]),
    'additionalProperties2': ({'additionalProperties': F, 'properties': {'a': True}, 'patternProperties': {'x': True}}, [AX, {'b': 1}]),
    'propertyNames': ({'propertyNames': F}, [AX, {}]), 'unevaluatedItems': ({'unevaluatedItems': F}, [[1], []]), 'unevaluatedProperties': ({'unevaluatedProperties': F}, [AX, {}]),
    'unevaluatedItems2': ({'prefixItems': [True], 'unevaluatedItems': F}, [[1], [1, 2]]), 'unevaluatedItems3': ({'items': [True], 'unevaluatedItems': F}, [[1], [1, 2]]),
    'unevaluatedItems4': ({'items': True, 'unevaluatedItems': F}, [[1]]), 'unevaluatedItems5': ({'contains': {'const': 1}, 'unevaluatedItems': F}, [[1], [1, 2]]),
    'unevaluatedItems6': ({'contains': True, 'unevaluatedItems': F}, [[1]]), 'unevaluatedItems7': ({'items': 1, 'prefixItems': 1, 'additionalItems': True, 'unevaluatedItems': F}, [[1]]),
    'unevaluatedProperties2': ({'properties': {'a': True}, 'unevaluatedProperties': F}, [{'a': 1}, AX]),
    'unevaluatedProperties3': ({'patternProperties': {'a': True}, 'unevaluatedProperties': F}, [{'a': 1}, AX]),
    'unevaluatedProperties4': ({'additionalProperties': True, 'unevaluatedProperties': F}, [{'a': 1}, AX]),
    'unevaluatedProperties5': ({'$ref': '#/$defs/d', '$defs': {'d': {'properties': {'a': True}}}, 'unevaluatedProperties': F}, [{'a': 1}, AX]),
    'type': ({'type': 'string'}, [1, 's']), 'enum': ({'enum': [2]}, [1, 2]), 'const': ({'const': 2}, [1, 2]), 'multipleOf': ({'multipleOf': 2}, [1, 2]), 'maximum': ({'maximum': 0}, [1]),
    'exclusiveMaximum': ({'exclusiveMaximum': 1}, [1]), 'minimum': ({'minimum': 2}, [1]), 'exclusiveMinimum': ({'exclusiveMinimum': 1}, [1]), 'maxLength': ({'maxLength': 0}, ['a']),
    'minLength': ({'minLength': 2}, ['a']), 'pattern': ({'pattern': 'b'}, ['a']), 'maxItems': ({'maxItems': 0}, [[1]]), 'minItems': ({'minItems': 2}, [[1]]),
    'uniqueItems': ({'uniqueItems': True}, [[1, 1]]), 'maxContains': ({'contains': True, 'maxContains': 1}, [[1, 2], [1]]), 'minContains': ({'contains': {'const': 1}, 'minContains': 2}, [[1, 2], [1, 1], []]),
    'minContains0': ({'contains': F, 'minContains': 0}, [[1], []]), 'minContains1': ({'contains': {'const': 1, 'title': ''}, 'minContains': 3}, [[1, 1], []]), 'minContains2': ({'minContains': 2}, [[]]),
    'maxContains0': ({'contains': {'const': 1}, 'maxContains': 0}, [[2], [1]]), 'maxProperties': ({'maxProperties': 0}, [AX]), 'minProperties': ({'minProperties': 3}, [AX]), 'required': ({'required': ['z']}, [AX]),
    'dependentRequired': ({'dependentRequired': {'a': ['z']}}, [AX]),
    'title': ({'title': 't', 'description': 'd', 'default': 1, 'deprecated': True, 'readOnly': True, 'writeOnly': True, 'examples': [1]}, [1]),
    'content': ({'contentMediaType': 'm', 'contentEncoding': 'e', 'contentSchema': {'title': 'x'}}, ['s', 1]), 'contentSchema': ({'contentSchema': True}, ['s']), 'format': ({'format': 'json-pointer'}, ['s', 1]),
    '$dynamicRef': ({'$dynamicRef': '#/$defs/f', '$defs': {'f': F}}, [1]), '$recursiveRef': ({'properties': {'a': {'$recursiveRef': '#'}}, 'required': ['a']}, [{'a': {}}, {}]),
    '$anchor': ({'$ref': '#x', '$defs': {'d': {'$anchor': 'x', 'const': 1}}}, [1, 2]), '$dynamicAnchor': ({'$ref': '#x', '$defs': {'d': {'$dynamicAnchor': 'x', 'const': 1}}}, [1, 2]),
    '$recursiveAnchor': ({'$recursiveAnchor': True}, [1]), '$comment': ({'$comment': 'x', '$unknown': 1, 'unknown': {'$id': 'q'}}, [1]), '$ref': ({'$ref': '#/$defs/f', '$defs': {'f': F}}, [1]),
    'into-not': ({'$ref': '#/not', 'not': {'const': 1}}, [1, 2]), 'into-properties': ({'$ref': '#/properties/p', 'properties': {'p': {'const': 1}}}, [1]),
    'into-prefix': ({'$ref': '#/prefixItems/0', 'prefixItems': [{'const': 1}]}, [1]), 'into-items': ({'$ref': '#/items/0', 'items': [{'const': 1}]}, [1]),
    'into-uneval': ({'$ref': '#/unevaluatedItems', 'unevaluatedItems': {'const': 1}}, [1]), 'into-content': ({'$ref': '#/contentSchema', 'contentSchema': {'const': 1}}, [1]),
    'id-in-not': ({'$ref': 'inner', 'not': {'$id': 'inner', 'const': 1}}, [1, 2]), 'id-in-else': ({'$ref': 'inner', 'else': {'$id': 'inner', 'const': 1}}, [1, 2]),
    'anchor-in-any': ({'$ref': '#an', 'anyOf': [{'$anchor': 'an', 'const': 1}]}, [1, 2]), 'anchor-in-additional': ({'$ref': '#an', 'additionalItems': {'$anchor': 'an', 'const': 1}}, [1, 2]),
    'into-unknown': ({'$ref': '#/zzz', 'zzz': {'const': 1}}, [1]), 'into-custom': ({'$ref': '#/xSub', 'xSub': {'const': 1}}, [1]),
    'malformed': ({'not': 'x', 'unevaluatedItems': 5, 'zzz': {'a': [None]}}, [1, [1]]), 'xEven': ({'xEven': True}, [1, 2, 's']), 'xSub': ({'xSub': {'xSub': F}}, [1]), 'xSub2': ({'xSub': {'minimum': 2}}, [1]),
    'nested': ({'allOf': [{'properties': {'a': {'type': 'string', 'xEven': 1, 'items': [F]}}}]}, [AX, {'a': [1]}]),
}
# witnesses that mean nothing unless certain keywords are (not) known: a malformed value of a known keyword
NEEDS_UNKNOWN = {'items2': (), 'unevaluatedItems7': ('items', 'prefixItems'), 'malformed': ('not', 'unevaluatedItems')}


def usable(name, kws, kind):
    if any(k in kws for k in NEEDS_UNKNOWN.get(name, ())):
        return False
    # an array of schemas is not a value of items in 2020-12
    if 'items' in kws and kind == '2020-12' and name in ('additionalItems', 'unevaluatedItems3', 'into-items', 'nested'):
        return False
    return True


def cases(tier):
    deep = tier == 'thorough'
    for kind, vocabs in (('2020-12', VOCABS_20), ('2019-09', VOCABS_19)):
        names = [n for n in vocabs if n != 'core']
        for combo in itertools.product((None, False, True), repeat=len(names)):
            for form in range(4 if deep else 1):
                yield ['declare', kind, list(combo), form]
    for i in range(len(MIXES)):
        yield ['mix', i]
    for pos in range(len(POSITIONS)):
        for root in range(len(DIALECTS)):
            yield ['nest', pos, root]
    for route in range(3):
        for order in itertools.permutations(range(4)):
            yield ['order', route, list(order)]
    for n in REFUSED:
        yield ['refuse', n]
    yield ['defaults']
    yield ['plain']
    yield ['bare']
    yield ['described']
    for order in itertools.permutations(range(4)):
        yield ['catalogs', list(order)]


serial = 0
bench = None


def setup(ctx):
    global bench
    bench = evalcheck.Bench('c26')
    bench.catalog.create_vocabulary(URI(CUSTOM), XEven, XSub)


def uri(name):
    global serial
    serial += 1
    return f'https://m.org/{serial}/{name}'


def words(vocabulary):
    out = set()
    for v in vocabulary:
        if v == CUSTOM:
            out |= OWN
        elif v.startswith(V20):
            out |= VOCABS_20[v[len(V20):]]
        elif v.startswith(V19):
            out |= VOCABS_19[v[len(V19):]]
    return out


def witness(ctx, dialect, meta, text, how=0, only=None, catalog=None, name=None):
    """Every witness schema, governed by the metaschema `meta`, behaves as the dialect says."""
    cat = catalog or bench.catalog
    for n, (schema, insts) in WITNESSES.items():
        if not usable(n, dialect.keywords, dialect.kind) or (only and n not in only):
            continue
        check(ctx, schema, insts, {meta: dialect}, meta, f'{text}: {n}', how, cat=cat)


def check(ctx, schema, insts, dialects, meta, text, how=0, docs=(), cat=None, keep=None):
    cat = cat or bench.catalog
    value = fresh(schema)
    if how == 0 and meta:
        value = {'$schema': meta, **value}
    elif how == 2 and meta:
        value = {**value, '$schema': meta}
    reg = Registry(dict(refeval.DIALECTS, **dialects))
    node = reg.add(evalcheck.BASE, value, dialects.get(meta) or refeval.DIALECTS.get(meta), retrieved=False)
    for u, d, dia in docs:
        reg.add(u, d, dia)
    try:
        reg.check_refs(node)
        sound = True
    except NoSchema:
        sound = False
    ctx.state(text)
    ctx.step()
    with cat.cache() as cid:
        try:
            s = JSONSchema(fresh(value), catalog=cat, cacheid=cid, uri=URI(evalcheck.BASE), metaschema_uri=URI(meta) if how == 1 else None)
        except JschonError as e:
            ctx.check(not sound, f'{text}: {json.dumps(value)} is rejected: {e!r} {e.__cause__!r}')
            ctx.outcome('rejected')
            return None
        if not ctx.check(sound, f'{text}: {json.dumps(value)} is accepted, though a reference does not lead to a schema'):
            return None
        ev = Evaluator(reg)
        compare(ctx, s, ev, node, insts, value, text)
        return s, ev, node


def compare(ctx, s, ev, node, insts, value, text):
    version = node.dialect.kind
    for inst in insts:
        o = ev.run(node, inst)
        try:
            r = s.evaluate(JSON(fresh(inst)))
        except Exception as e:
            ctx.violation(f'{text}: {json.dumps(value)} on {json.dumps(inst)} raises {e!r}')
            continue
        ctx.step()
        ctx.trace()
        ctx.outcome(r.valid)
        if not ctx.check(r.valid is o.valid, f'{text}: {json.dumps(value)} on {json.dumps(inst)} evaluates to {r.valid}, the declared keywords say {o.valid}'):
            continue
        if r.valid:
            want = evalcheck.wanted_notes(o, version)
            got = collections.Counter()
            for u in r.output('basic')['annotations']:
                ep, ip = evalcheck.ptr(u['keywordLocation']), evalcheck.ptr(u['instanceLocation'])
                if ep[-1] not in evalcheck.IGNORED_NOTES and not (version == '2019-09' and ep[-1] == 'contains'):
                    note = evalcheck.got_note if ep[-1] in node.dialect.keywords else lambda k, ip, ep, v, *_: evalcheck.canon_note(k, ip, ep, v)
                    got[note(ep[-1], ip, ep, u['annotation'], inst, version)] += 1
            ctx.check(want == got, f'{text}: {json.dumps(value)} on {json.dumps(inst)}: annotations missing {list(want - got)[:3]}, extra {list(got - want)[:3]}')


def make(vocabulary, kind='2020-12', extra=None, with_id=True, u=None, last=False):
    """A metaschema document in the source; its URI and the dialect it stands for."""
    u = u or uri('m')
    core = (V20 if kind == '2020-12' else V19) + 'core'
    if core not in vocabulary:
        vocabulary = {**vocabulary, core: True} if last else {core: True, **vocabulary}
    doc = {'$schema': M20 if kind == '2020-12' else M19, '$vocabulary': vocabulary, 'type': ['object', 'boolean'], **(extra or {})}
    if with_id:
        doc['$id'] = u
    bench.source.docs[u] = doc
    appl = next((v for v in vocabulary if v.endswith('/applicator')), core)
    return u, Dialect('2019-09' if appl.startswith(V19) else '2020-12', words(vocabulary))


MIXES = [
    ('2020-12', {V19 + 'applicator': True, V20 + 'validation': True}),
    ('2020-12', {V20 + 'unevaluated': True, V20 + 'validation': True}),
    ('2019-09', {V20 + 'applicator': True, V19 + 'validation': True, V19 + 'content': True}),
    ('2019-09', {V20 + 'applicator': False, V20 + 'unevaluated': True, V19 + 'validation': False, V20 + 'meta-data': True}),
    ('2020-12', {V19 + 'validation': True, V19 + 'meta-data': True, V19 + 'format': True, CUSTOM: True}),
]

# dialects to nest
DIALECTS = [
    ('full20', None, None), ('full19', None, None),
    ('few', '2020-12', {V20 + 'applicator': True}), ('old', '2019-09', {V19 + 'applicator': True, V19 + 'validation': True, CUSTOM: False}),
    ('own', '2020-12', {V20 + 'applicator': True, V20 + 'validation': True, CUSTOM: True}),
]
POSITIONS = [('properties', 'a'), ('allOf', 0), ('not',), ('anyOf', 0), ('if',), ('additionalProperties',), ('items',), ('dependentSchemas', 'a'), ('contains',), ('$ref',), ('$ref2',), ('patternProperties', 'a')]
LEAF = {'type': 'object', 'xEven': True, 'items': {'xEven': True, 'maximum': 5}, 'maxItems': 2, 'properties': {'a': {'xEven': 1}}}
NESTINST = [1, 2, [2], [7], [1, 2, 3], {'a': 1}, {'a': 2}, {'a': {'a': 3}}, {'a': [9]}, [[1], [8]], {'a': {'a': {'a': [2]}}}]


def embed(sub, pos, i):
    p = POSITIONS[pos]
    if p == ('$ref',):
        return {'$ref': f'#/$defs/d{i}', '$defs': {f'd{i}': sub}} if i == 0 else {'$ref': f'e{i}', '$defs': {'d': {**sub, '$id': f'e{i}'}}}
    if p == ('$ref2',):
        return {'$ref': f'f{i}', '$defs': {'d': {'$id': f'f{i}', **sub}}}
    if len(p) == 1:
        return {p[0]: sub}
    return {p[0]: [sub] if p[1] == 0 else {p[1]: sub}}


def nest(case, ctx):
    pos, root = case[1:]
    dialects = {}
    metas = []
    for n, kind, voc in DIALECTS:
        if kind is None:
            metas.append(M20 if n == 'full20' else M19)
        else:
            u, d = make(voc, kind)
            dialects[u] = d
            metas.append(u)
    for mid, leaf in itertools.product([None] + metas, [None] + metas):
        for form in range(2):
            inner = ({'$schema': leaf, **LEAF} if form == 0 else {**LEAF, '$schema': leaf}) if leaf else dict(LEAF)
            middle = embed(inner, pos, 1)
            if mid:
                middle = {'$schema': mid, **middle} if form == 0 else {**middle, '$schema': mid}
            middle['maximum'] = 10
            schema = embed(middle, pos, 0)
            schema['minProperties'] = 1
            for how in (0, 1) if ctx.thorough else (form,):
                check(ctx, schema, NESTINST, dialects, metas[root], f'nest {pos} {root} {metas.index(mid) if mid else None} {metas.index(leaf) if leaf else None} {form} {how}', how)
        # across documents: a document without $schema takes the dialect of the one referring to it
        a, b = uri('a'), uri('b')
        da = {**({'$schema': mid} if mid else {}), 'allOf': [{'properties': {'a': {'$ref': b}}}], 'maximum': 10}
        db = {**({'$schema': leaf} if leaf else {}), **LEAF}
        bench.source.docs[a], bench.source.docs[b] = da, db
        every = dict(refeval.DIALECTS, **dialects)
        dr = every[metas[root]]
        dm = every[mid] if mid else dr
        check(ctx, embed({'$ref': a}, pos, 0), NESTINST, dialects, metas[root], f'across {pos} {root} {metas.index(mid) if mid else None} {metas.index(leaf) if leaf else None}', 0,
              docs=[(a, da, dm), (b, db, every[leaf] if leaf else dm)])
        if mid and not leaf:
            # the one referring to it may itself be embedded in a document of another dialect
            da = {k: v for k, v in da.items() if k != '$schema'}
            bench.source.docs[a] = da
            for kw in ('$ref',) + (('$dynamicRef',) if every[mid].kind == '2020-12' else ()):
                for sub in ({'$schema': mid, '$id': uri('k'), kw: a}, {'$id': uri('k'), 'not': {'not': {kw: a}}, '$schema': mid}):
                    check(ctx, embed(sub, pos, 0), NESTINST, dialects, metas[root], f'across from an embedded resource {pos} {root} {metas.index(mid)} {kw} {len(sub)}', 0,
                          docs=[(a, da, dm), (b, db, dm)])
        del bench.source.docs[a], bench.source.docs[b]


# metaschemas to refuse: (kind of document, document)
C20 = V20 + 'core'
OK20 = {C20: True, V20 + 'applicator': True, V20 + 'validation': True}
REFUSED = {
    'unknown-required': {'$vocabulary': {**OK20, UNKNOWN: True}}, 'unknown-required-first': {'$vocabulary': {UNKNOWN: True, **OK20}}, 'unknown-only': {'$vocabulary': {UNKNOWN: True}},
    'two-unknown': {'$vocabulary': {**OK20, UNKNOWN: False, UNKNOWN + '2': True}}, 'unknown-official': {'$vocabulary': {**OK20, V20 + 'validations': True}},
    'unknown-version-vocab': {'$vocabulary': {**OK20, 'https://json-schema.org/draft/2030-01/vocab/validation': True}}, 'custom-case': {'$vocabulary': {**OK20, CUSTOM + '/': True}},
    'no-core': {'$vocabulary': {V20 + 'applicator': True}}, 'core-false': {'$vocabulary': {**OK20, C20: False}}, 'two-cores': {'$vocabulary': {**OK20, V19 + 'core': True}}, 'core-two-false': {'$vocabulary': {**OK20, V19 + 'core': False}},
    'unknown-core': {'$vocabulary': {'https://json-schema.org/draft/2030-01/vocab/core': True}}, 'unknown-core-too': {'$vocabulary': {**OK20, 'https://json-schema.org/draft/2030-01/vocab/core': False}},
    'other-core': {'$vocabulary': {'https://v.org/vocab/core': True}}, 'empty': {'$vocabulary': {}}, 'relative-vocab': {'$vocabulary': {**OK20, 'vocab/x': False}},
    'unnormalized-vocab': {'$vocabulary': {**OK20, 'HTTPS://V.org/custom': True}}, 'unnormalized-vocab-optional': {'$vocabulary': {**OK20, 'https://v.org/a/../custom': False}},
    'no-vocabulary': {}, 'no-vocabulary-title': {'title': 'x'}, 'core-suffix': {'$vocabulary': {C20 + '/x': True}}, 'core-prefix': {'$vocabulary': {'x' + C20: True}}, 'core-http': {'$vocabulary': {'http://json-schema.org/draft/2020-12/vocab/core': True}},
    'invalid-type': {'$vocabulary': OK20, 'minLength': -1}, 'invalid-deep': {'$vocabulary': OK20, 'properties': {'a': {'not': {'required': 'x'}}}}, 'invalid-title': {'$vocabulary': OK20, 'title': 5},
    'invalid-comment': {'$vocabulary': OK20, '$comment': 5}, 'invalid-vocab-value': {'$vocabulary': {**OK20, UNKNOWN: 0}}, 'invalid-other': {'$vocabulary': OK20, '$schema': '@strict', 'title': 'x'}, 'broken-ref': {'$vocabulary': OK20, '$ref': '#/nope'},
    'unknown-meta': {'$vocabulary': OK20, '$schema': '@nowhere'}, 'bad-meta': {'$vocabulary': OK20, '$schema': '@bad'}, 'list': [], 'true': True, 'false': False, 'missing': None,
}


def attempt(f):
    try:
        f()
    except JschonError as e:
        return type(e).__name__
    return None


def refuse(case, ctx):
    name = case[1]
    doc = REFUSED[name]
    for with_id in (True, False):
        base = uri('')
        u = base + 'm'
        strict = {'$schema': M20, '$vocabulary': OK20, '$id': base + 'strict', 'not': {'required': ['title']}}
        good, gd = make(OK20)
        docs = {base + 'strict': strict, base + 'bad': {'$schema': M20, '$vocabulary': {**OK20, UNKNOWN: True}}}
        if isinstance(doc, dict):
            text = json.dumps({'$schema': M20, 'type': ['object', 'boolean'], **({'$id': u} if with_id else {}), **doc})
            docs[u] = json.loads(text.replace('"@', '"' + base))
        elif doc is not None:
            docs[u] = doc
        elif not with_id:
            return
        for k, v in docs.items():
            bench.source.docs[k] = v
        cat = bench.catalog

        def build(v, **k):
            with cat.cache() as cid:
                return JSONSchema(v, catalog=cat, cacheid=cid, uri=URI(base + 'schema'), **k)
        m = URI(u)
        routes = [
            ('get_metaschema', lambda: cat.get_metaschema(m)), ('create_metaschema', lambda: cat.create_metaschema(m)),
            ('$schema', lambda: build({'$schema': u, 'type': 'string'})), ('$schema last', lambda: build({'type': 'string', '$schema': u})),
            ('metaschema_uri', lambda: build({'type': 'string'}, metaschema_uri=m)), ('$id', lambda: build({'$id': 'x', '$schema': u})),
            ('subschema', lambda: build({'$schema': good, 'properties': {'a': {'$schema': u, 'type': 'string'}}})),
            ('$defs', lambda: build({'$schema': M20, '$defs': {'d': {'$id': 'x', '$schema': u, 'type': 'string'}}})),
        ]
        for order in itertools.permutations(range(len(routes)), 2):
            for r in order + order:
                ctx.step()
                ctx.trace()
                ctx.state((name, with_id, order, r))
                e = attempt(routes[r][1])
                ctx.outcome(e)
                if not ctx.check(e is not None, f'metaschema {name}: {json.dumps(docs.get(u))} is accepted by {routes[r][0]}, after {[routes[x][0] for x in order]}'):
                    return
        witness(ctx, gd, good, f'after refusals of {name}', only=('type', 'properties', 'xEven', 'title'))
        # once it is mended it is accepted
        bench.source.docs[u] = {'$schema': M20, '$vocabulary': OK20, '$id': u}
        for r in range(len(routes)):
            if r != 1:
                e = attempt(routes[r][1])
                ctx.check(e is None, f'metaschema {name}: after it is mended, {routes[r][0]} fails: {e}')
        witness(ctx, Dialect('2020-12', words(OK20)), u, f'after the repair of {name}', only=('type', 'properties', 'xEven', 'title'))
        for k in docs:
            bench.source.docs.pop(k, None)


ORDERED = [('2020-12', {V20 + 'applicator': True}), ('2020-12', {V20 + 'applicator': True, V20 + 'validation': True, UNKNOWN: False}),
           ('2019-09', {V19 + 'applicator': True, V19 + 'meta-data': False}), ('2020-12', {V20 + 'validation': True, CUSTOM: True, V20 + 'meta-data': True})]


def order(case, ctx):
    route, perm = case[1:]
    made = []
    cat = bench.catalog
    for i in perm:
        kind, voc = ORDERED[i]
        u, d = make(voc, kind)
        if route == 0:
            cat.get_metaschema(URI(u))
        elif route == 1:
            cat.create_metaschema(URI(u))
        made.append((i, u, d))
        for j, mu, md in made:
            witness(ctx, md, mu, f'order {route} {perm} at {i}: dialect {j}', how=(1, 0, 2)[route])
    for m, d in ((M20, D20), (M19, D19)):
        witness(ctx, d, m, f'order {route} {perm}: {m}')


def two_catalogs(case, ctx):
    """The same URIs mean different things in different catalogs."""
    made = []
    for i in case[1]:
        cat = create_catalog('2020-12', '2019-09', name=f'c26-{i}')
        src = evalcheck.DictSource()
        cat.add_uri_source(None, src)
        u = 'https://m.org/same'
        voc = {C20: True, **([{V20 + 'validation': True, CUSTOM: True}, {V20 + 'validation': True, CUSTOM: False}, {CUSTOM: True}, {V20 + 'applicator': True, CUSTOM: False}][i])}
        src.docs[u] = {'$id': u, '$schema': M20, '$vocabulary': voc}
        if i in (0, 2):
            cat.create_vocabulary(URI(CUSTOM), XEven, XSub)
        d = Dialect('2020-12', words(voc) - (OWN if i in (1, 3) else set()))
        made.append((i, cat, u, d))
        for j, c, mu, md in made:
            witness(ctx, md, mu, f'catalogs {case[1]} at {i}: catalog {j}', catalog=c)
            if j in (1, 3):
                bad = 'https://m.org/needs'
                c._uri_sources and src.docs.setdefault(bad, {'$schema': M20, '$vocabulary': {C20: True, CUSTOM: True}})
                ctx.check(attempt(lambda: c.get_metaschema(URI(bad))) is not None, f'catalogs {case[1]}: catalog {j} accepts a metaschema that requires a vocabulary unknown in it')
    # a vocabulary defined anew serves the metaschemas created afterwards, not the earlier ones
    i, cat, u, d = next(m for m in made if m[0] == 0)
    cat.create_vocabulary(URI(CUSTOM), XOdd)
    witness(ctx, d, u, 'vocabulary defined anew: earlier metaschema', catalog=cat)
    src = evalcheck.DictSource()
    src.docs['m'] = {'$schema': M20, '$vocabulary': {C20: True, CUSTOM: True}}
    cat.add_uri_source(URI('https://new.org/'), src)
    s = JSONSchema({'$schema': 'https://new.org/m', 'xEven': 1}, catalog=cat)
    ctx.check(s.evaluate(JSON(1)).valid and not s.evaluate(JSON(2)).valid, 'vocabulary defined anew: a later metaschema uses the old one')


def defaults(ctx):
    """Vocabularies given to create_metaschema apply exactly if the document declares none."""
    cat = bench.catalog
    names = [V20 + n for n in ('applicator', 'validation', 'meta-data')] + [CUSTOM, V20 + 'unevaluated']
    for n in range(len(names) + 1):
        for given in itertools.combinations(names, n):
            for declared in (None, {C20: True}, {C20: True, V20 + 'validation': True}, {C20: True, UNKNOWN: False, CUSTOM: True}):
                u = uri('d')
                doc = {'$id': u, '$schema': M20}
                if declared is not None:
                    doc['$vocabulary'] = declared
                bench.source.docs[u] = doc
                ctx.step()
                cat.create_metaschema(URI(u), URI(C20), *map(URI, given))
                d = Dialect('2020-12', words(declared) if declared is not None else words([C20, *given]))
                witness(ctx, d, u, f'defaults {given}, declared {declared}')
    for given in ([UNKNOWN], [C20, UNKNOWN], [C20, V20 + 'validation', UNKNOWN]):
        u = uri('d')
        bench.source.docs[u] = {'$id': u, '$schema': M20}
        for turn in range(2):
            e = attempt(lambda: cat.create_metaschema(URI(u), *map(URI, given)))
            ctx.check(e is not None, f'create_metaschema with the unknown vocabulary among {given} succeeds')
        ctx.check(attempt(lambda: cat.get_metaschema(URI(u))) is not None, f'after create_metaschema with {given} failed, get_metaschema succeeds without any core vocabulary')


def bare(ctx):
    """A catalog of no version, with vocabularies of its own: metaschemas that describe themselves, requested in every order before any other."""
    from jschon.vocabulary.applicator import PropertiesKeyword
    from jschon.vocabulary.core import IdKeyword, SchemaKeyword, VocabularyKeyword
    from jschon.vocabulary.validation import RequiredKeyword, TypeKeyword
    core, own = C20, 'https://v.org/own'
    voc = {core: True, own: True}
    u = 'https://bare.org/'
    docs = {'good': {'$vocabulary': voc, 'type': ['object', 'boolean']}, 'bad': {'$vocabulary': voc, 'required': ['zz']}, 'needs': {'$vocabulary': {**voc, UNKNOWN: True}}, 'none': {'type': 'object'}}
    docs = {k: {'$schema': u + k, '$id': u + k, **v} for k, v in docs.items()}
    routes = [('get', k) for k in docs] + [('create', k) for k in docs] + [('$schema', k) for k in docs]
    for seq in itertools.product(routes, repeat=2):
        cat = Catalog(name='c26-bare')
        cat.create_vocabulary(URI(core), IdKeyword, SchemaKeyword, VocabularyKeyword)
        cat.create_vocabulary(URI(own), TypeKeyword, RequiredKeyword, PropertiesKeyword)
        src = evalcheck.DictSource()
        cat.add_uri_source(None, src)
        for k, v in docs.items():
            src.docs[u + k] = v

        def go(way, k):
            m = URI(u + k)
            if way == 'get':
                return attempt(lambda: cat.get_metaschema(m))
            if way == 'create':
                return attempt(lambda: cat.create_metaschema(m))
            return attempt(lambda: JSONSchema({'$schema': str(m), 'type': 'string'}, catalog=cat))
        text = f'a catalog of no version, requests {seq}'
        for way, k in seq + seq:
            ctx.step()
            e = go(way, k)
            ctx.check((e is None) is (k == 'good'), f'{text}: {way} of {docs[k]} gives {e}')
        ctx.trace()
        ctx.state(seq)
        s = JSONSchema({'$schema': u + 'good', 'properties': {'a': {'type': 'string'}}, 'minimum': 5}, catalog=cat)
        for x, want in ((1, True), ({'a': 'x'}, True), ({'a': 1}, False)):
            ctx.check(s.evaluate(JSON(x)).valid is want, f'{text}: a schema of it on {x} gives {not want}')
        for x, want in (({'type': 'object'}, True), (True, True)):
            s = JSONSchema(x, catalog=cat, metaschema_uri=URI(u + 'good'))
            ctx.check(s.validate().valid is want, f'{text}: the schema {x} does not validate')


def described(ctx):
    """A metaschema without $schema, whose own metaschema is given to create_metaschema."""
    cat = bench.catalog
    for voc in (None, OK20, {C20: True}, {C20: True, V20 + 'validation': True}):
        for extra, good in (({}, True), ({'type': ['object', 'boolean']}, True), ({'type': 5}, False), ({'$defs': {'a': {'minLength': -1}}}, False)):
            for with_id in (True, False):
                for meta in (M20, 'own'):
                    u = uri('described')
                    few, fd = make({V20 + 'applicator': True})
                    bench.source.docs[u] = {**({'$id': u} if with_id else {}), **({} if voc is None else {'$vocabulary': voc}), **extra}
                    given = [C20, V20 + 'applicator', V20 + 'validation']

                    def create():
                        return cat.create_metaschema(URI(u), *map(URI, given), metaschema_uri=URI(M20 if meta == M20 else few))
                    text = f'create_metaschema of {json.dumps(bench.source.docs[u])} with the metaschema {meta}'
                    for turn in range(2):
                        ctx.step()
                        ctx.trace()
                        ctx.state((text, turn))
                        e = attempt(create)
                        ok = good or meta == 'own'
                        if not ctx.check((e is None) is ok, f'{text}: {e}'):
                            return
                        if not ok:
                            ctx.check(e == 'CatalogError', f'{text} raises {e}')
                            ctx.check(attempt(lambda: cat.get_metaschema(URI(u))) is not None, f'{text}: found after it was refused')
                    if ok and extra.get('type') != 5:
                        witness(ctx, Dialect('2020-12', words(voc) if voc is not None else words(given)), u, text, only=('type', 'properties', 'xEven', 'title'))


def plain(ctx):
    """$vocabulary elsewhere than at the root of a metaschema has no effect; ordinary documents are no metaschemas."""
    cat = bench.catalog
    for voc in ({}, {UNKNOWN: True}, {C20: True}, {C20: False}, {V19 + 'core': True}, OK20):
        for n, (schema, insts) in WITNESSES.items():
            if usable(n, D20.keywords, '2020-12'):
                for s in ({'$vocabulary': voc, **schema}, {**schema, '$vocabulary': voc}):
                    check(ctx, s, insts, {}, M20, f'$vocabulary {list(voc)} in a schema: {n}', 1)
        for with_id in ({}, {'$id': 'sub'}):
            u, d = make({V20 + 'applicator': True}, extra={'$defs': {'x': {**with_id, '$vocabulary': voc}}})
            witness(ctx, d, u, f'$vocabulary {list(voc)} in a subschema of the metaschema')
    # a metaschema that describes itself, and one described by another of fewer keywords
    u = uri('self')
    bench.source.docs[u] = {'$id': u, '$schema': u, '$vocabulary': OK20, 'type': ['object', 'boolean']}
    witness(ctx, Dialect('2020-12', words(OK20)), u, 'a metaschema that describes itself')
    u = uri('self')
    bench.source.docs[u] = {'$id': u, '$schema': u, '$vocabulary': OK20, 'maxProperties': 2}
    for turn in range(3):
        e = attempt(lambda: cat.get_metaschema(URI(u)))
        ctx.check(e is not None, 'a metaschema that describes itself, but does not conform to itself, is accepted')
    few, fd = make({V20 + 'applicator': True})
    u = uri('other')
    bench.source.docs[u] = {'$id': u, '$schema': few, '$vocabulary': OK20, 'type': 5, 'minLength': 'x'}
    witness(ctx, Dialect('2020-12', words(OK20)), u, 'a metaschema whose own metaschema does not know the validation keywords')
    for name in ('meta/core', 'meta/applicator', 'meta/validation'):
        for draft in ('2020-12', '2019-09'):
            for turn in range(3):
                e = attempt(lambda: cat.get_metaschema(URI(f'https://json-schema.org/draft/{draft}/{name}')))
                ctx.step()
                if name == 'meta/core':
                    ctx.outcome(e)
    # documents in the metaschema cache that are no metaschemas
    u, d = make({V20 + 'applicator': True}, extra={'$defs': {'x': {'$id': 'inner', 'title': 'x'}, 'y': {'$anchor': 'y'}}})
    cat.get_metaschema(URI(u))
    for ref in (u.rsplit('/', 1)[0] + '/inner', u + '#y'):
        for turn in range(2):
            e = attempt(lambda: cat.get_metaschema(URI(ref)))
            ctx.check(e == 'CatalogError', f'get_metaschema of a subschema of a metaschema gives {e}')


def run_case(case, ctx):
    kind = case[0]
    if kind == 'declare':
        _, draft, combo, form = case
        vocabs, base = (VOCABS_20, V20) if draft == '2020-12' else (VOCABS_19, V19)
        names = [n for n in vocabs if n != 'core']
        chosen = {base + n: r for n, r in zip(names, combo) if r is not None}
        if form & 1:
            chosen = dict(reversed(chosen.items()))
        for extra in ({}, {UNKNOWN: False, CUSTOM: True}):
            voc = {**extra, **chosen} if form & 1 else {**chosen, **extra}
            u, d = make(voc, draft, with_id=not form & 2, last=bool(form & 1))
            witness(ctx, d, u, f'{draft} {combo} {form} {list(extra)}', how=sum(map(bool, combo)) % 3)
            del bench.source.docs[u]
            bench.catalog.del_schema(URI(u), cacheid='__meta__')
        u, d = make({**chosen, UNKNOWN: True}, draft)
        for turn in range(2):
            ctx.check(attempt(lambda: bench.catalog.get_metaschema(URI(u))) is not None, f'{draft} {combo}: a metaschema that requires an unknown vocabulary is accepted')
        del bench.source.docs[u]
    elif kind == 'mix':
        draft, voc = MIXES[case[1]]
        for v in (voc, dict(reversed(voc.items()))):
            u, d = make(v, draft)
            witness(ctx, d, u, f'mix {case[1]}')
    elif kind == 'nest':
        nest(case, ctx)
    elif kind == 'order':
        order(case, ctx)
    elif kind == 'refuse':
        refuse(case, ctx)
    elif kind == 'catalogs':
        two_catalogs(case, ctx)
    elif kind == 'defaults':
        defaults(ctx)
    elif kind == 'plain':
        plain(ctx)
    elif kind == 'bare':
        bare(ctx)
    elif kind == 'described':
        described(ctx)
