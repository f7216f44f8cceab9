"""Families of schemas shared by the checks on evaluation results, and transformations of them."""
import itertools
import urllib.parse

from gen import fresh
from refeval import D19, D20, MANY, NAMED, ONE

BASE = 'https://example.com/s/root'


def positions(schema, version, path=()):
    """Paths of all subschemas that are objects or booleans, the root included."""
    yield path
    if not isinstance(schema, dict):
        return
    kws = (D19 if version == '2019-09' else D20).keywords
    for k, v in schema.items():
        if k not in kws:
            continue
        if k in ONE and isinstance(v, (dict, bool)):
            yield from positions(v, version, path + (k,))
        elif (k in MANY or k == 'items') and isinstance(v, list):
            for i, s in enumerate(v):
                yield from positions(s, version, path + (k, i))
        elif k in NAMED and isinstance(v, dict):
            for n, s in v.items():
                yield from positions(s, version, path + (k, n))


def get(v, path):
    for k in path:
        v = v[k]
    return v


def put(v, path, x):
    if not path:
        return x
    v = fresh(v)
    c = v
    for k in path[:-1]:
        c = c[k]
    c[path[-1]] = x
    return v


def label(schema, version, kw='title', values=None):
    """Every object subschema gets an annotation of its own."""
    n = itertools.count(1)
    for p in list(positions(schema, version)):
        s = get(schema, p)
        if isinstance(s, dict):
            schema = put(schema, p, {kw: (values or (lambda i: f't{i}'))(next(n)), **s})
    return schema


NAMES = ['s', '', '~', 'a/b', '%', 'é', ' ', '"', '0']


def outline(schema, p, way, name='s'):
    """(schema, documents): the subschema at `p` placed elsewhere and referred to, in one of several ways."""
    sub = get(schema, p)
    if way == 'id':
        if not isinstance(sub, dict) or '$id' in sub:
            return None
        return put(schema, p, {'$id': 'in/place', **sub}), {}
    if not p or not isinstance(schema, dict):
        return None
    enc = urllib.parse.quote(name.replace('~', '~0').replace('/', '~1'), safe='')
    defs = dict(schema.get('$defs', {}))
    if name in defs:
        return None
    if way == 'pointer':
        s = put(schema, p, {'$ref': f'#/$defs/{enc}'})
        return {**s, '$defs': {**s.get('$defs', {}), name: sub}}, {}
    if not isinstance(sub, dict):
        return None
    if way == 'resource':
        s = put(schema, p, {'$ref': 'res/one'})
        return {**s, '$defs': {**s.get('$defs', {}), name: {'$id': 'res/one', **sub}}}, {}
    if way == 'anchor':
        s = put(schema, p, {'$ref': '#anc'})
        return {**s, '$defs': {**s.get('$defs', {}), name: {'$anchor': 'anc', **sub}}}, {}
    if way == 'chain':
        s = put(schema, p, {'$ref': '#/$defs/' + enc})
        return {**s, '$defs': {**s.get('$defs', {}), name: {'$id': 'hop/a', '$ref': '../root#/$defs/t', '$comment': 'x'}, 't': {'$ref': 'far'}, 'u': {'$id': 'far', **sub}}}, {}
    if way == 'document':
        s = put(schema, p, {'$ref': f'other#/$defs/{enc}'})
        return s, {'https://example.com/s/other': {'$defs': {name: sub}}}
    if way == 'docid':
        s = put(schema, p, {'$ref': 'third'})
        return s, {'https://example.com/s/third': {'$id': 'https://example.com/elsewhere/third', 'allOf': [{'$ref': '#/$defs/x'}], '$defs': {'x': sub}}}
    if way == 'dynamic':
        s = put(schema, p, {'$dynamicRef': '#dyn'})
        return {**s, '$defs': {**s.get('$defs', {}), name: {'$dynamicAnchor': 'dyn', **sub}}}, {}
    if way == 'dynres':
        s = put(schema, p, {'$ref': 'mid'})
        return {**s, '$defs': {**s.get('$defs', {}), name: {'$dynamicAnchor': 'dyn', **sub},
                               'm': {'$id': 'mid', 'anyOf': [{'$dynamicRef': '#dyn'}], '$defs': {'d': {'$dynamicAnchor': 'dyn', 'const': 'static'}}}}}, {}
    raise ValueError(way)


WAYS19 = ['id', 'pointer', 'resource', 'anchor', 'chain', 'document', 'docid']
WAYS20 = WAYS19 + ['dynamic', 'dynres']


def variants(schema, version, ways=None, name='s'):
    """The schema itself, and with each of its subschemas outlined in each way."""
    yield schema, {}
    for p in list(positions(schema, version)):
        for w in ways or (WAYS20 if version == '2020-12' else WAYS19):
            r = outline(schema, p, w, name)
            if r is not None:
                yield r


OBJS = [{}, {'a': 1}, {'a': 'x'}, {'b': 1}, {'a': 1, 'b': 'x'}, {'a': 'x', 'b': 1, 'c': 1}, {'p': 0}, {'p': 0, 'q': [1]}, {'q': ['x', 1], 'r': {'a': 1}}]
ARRS = [[], [1], ['x'], [1, 'x'], ['x', 1], [1, 2, 'x'], [[1], ['x']], [{'a': 1}, {'a': 'x'}], [{'a': 'x'}, {'a': 1, 'b': 2}], [1, 1, 'x', 'x']]
SCAL = [3, 'str', None]
INST = OBJS + ARRS + SCAL

A, B = {'required': ['p']}, {'maxProperties': 1}
I, S = {'type': 'integer'}, {'type': 'string'}


def single(x, version):
    """Every applicator with `x` as a subschema (one level)."""
    out = [{'allOf': [x, B]}, {'anyOf': [x, A]}, {'anyOf': [A, x]}, {'oneOf': [x, S]}, {'not': x}, {'not': {'not': x}}, {'if': x, 'then': B}, {'if': x, 'else': B},
           {'if': A, 'then': x}, {'if': A, 'else': x}, {'if': x}, {'then': x}, {'dependentSchemas': {'p': x, 'zz': I}}, {'dependentSchemas': {'a': B, 'b': x}},
           {'properties': {'a': x, 'b': I}}, {'patternProperties': {'^[ab]': x, 'b': S}}, {'additionalProperties': x}, {'properties': {'a': I}, 'additionalProperties': x},
           {'propertyNames': {'maxLength': 1}, 'properties': {'p': x}}, {'unevaluatedProperties': x}, {'properties': {'a': True}, 'unevaluatedProperties': x},
           {'anyOf': [{'properties': {'a': S}}, {'properties': {'b': I}}], 'unevaluatedProperties': x}, {'contains': x}, {'contains': x, 'minContains': 0},
           {'contains': x, 'maxContains': 1}, {'contains': x, 'minContains': 2}, {'items': x}, {'unevaluatedItems': x}]
    if version == '2020-12':
        out += [{'prefixItems': [x]}, {'prefixItems': [I, x]}, {'prefixItems': [I], 'items': x}, {'prefixItems': [I], 'unevaluatedItems': x}, {'contains': I, 'unevaluatedItems': x},
                {'allOf': [{'prefixItems': [True]}], 'unevaluatedItems': x}]
    else:
        out += [{'items': [x]}, {'items': [I, x]}, {'items': [I], 'additionalItems': x}, {'items': [I], 'unevaluatedItems': x}, {'allOf': [{'items': [True]}], 'unevaluatedItems': x}]
    return out


def leaves():
    return [True, False, A, B, I, S, {'properties': {'a': I}}, {'properties': {'a': True}, 'additionalProperties': S}, {'minItems': 2}, {'const': 1}]


def depth1(version):
    return [s for x in leaves() for s in single(x, version)]


def depth2(version, xs):
    return [s for x in xs for y in single(x, version) for s in single(y, version)]
