"""Planted bugs, written from the properties' texts and the code; plant.py turns them into /verif/seeded."""
J = 'jschon/json.py'
P = 'jschon/jsonpatch.py'
PT = 'jschon/jsonpointer.py'
S = 'jschon/jsonschema.py'
O = 'jschon/output.py'
U = 'jschon/uri.py'
C = 'jschon/catalog/__init__.py'
V = 'jschon/vocabulary/__init__.py'
A = 'jschon/vocabulary/applicator.py'
K = 'jschon/vocabulary/core.py'
L = 'jschon/vocabulary/legacy.py'
VA = 'jschon/vocabulary/validation.py'
F = 'jschon/vocabulary/format.py'
H = 'from demolib import *\ncatalog()\n'
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append({'id': id, 'property': property, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo})


bug('c01-unique-by-text', 'C01', [(VA, """        uniquified = []
        for item in instance:
            if item not in uniquified:
                uniquified += [item]
""", """        uniquified = {item.dumps() for item in instance}
""")], 'an array with two equal items whose texts differ: 1 and 1.0, or objects with their members in another order',
    'uniqueItems compares serialized texts, so equal items count as unique', H + """
u = {'uniqueItems': True}
check(not valid(u, [1, 1]), 'duplicates')
check(valid(u, [1, True, '1', 0, False]), 'booleans are not numbers')
check(not valid(u, [1, 1.0]), '1 equals 1.0')
check(not valid(u, [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}]), 'member order is irrelevant')
""")

bug('c01-enum-plain', 'C01', [(VA, """        if instance not in self.json:
""", """        if instance.value not in self.json.value:
""")], 'an enum holding 1, 0, true or false, or a container of one of them, and an instance that Python considers equal to it',
    'enum confuses booleans with numbers', H + """
e = {'enum': [1, [0], 'a']}
for v in (1, 1.0, [0], 'a'):
    check(valid(e, v), v)
for v in (2, [1], 'b', True, [False]):
    check(not valid(e, v), v)
""")

bug('c02-dependent-schemas-first', 'C02', [(A, """                    subschema.evaluate(instance, subresult)
                    if subresult.passed:
                        annotation += [name]
                    else:
                        err_names += [name]
        if err_names:
            result.fail(f'Properties {err_names} are invalid against '
""", """                    if subschema.evaluate(instance, subresult).passed:
                        annotation += [name]
                    elif not annotation:
                        err_names += [name]
        if err_names:
            result.fail(f'Properties {err_names} are invalid against '
""")], 'two dependentSchemas that both apply, the first satisfied and the second not',
    'a failing dependent schema is ignored after one that passed', H + """
d = {'dependentSchemas': {'a': {'minProperties': 1}, 'b': {'minProperties': 3}}}
check(not valid(d, {'b': 1}), 'b alone')
check(valid(d, {'a': 1}), 'a alone')
check(not valid(d, {'a': 1, 'b': 2}), 'b after a')
""")

bug('c03-additional-match', 'C03', [(A, """                    re.search(regex, name) for regex in known_property_patterns
""", """                    re.match(regex, name) for regex in known_property_patterns
""")], 'a pattern that matches a name elsewhere than at its start, next to additionalProperties',
    'additionalProperties is applied to members that patternProperties has covered', H + """
d = {'patternProperties': {'^a': True, 'x': True}, 'additionalProperties': False}
check(valid(d, {'ab': 1, 'xy': 2}), 'anchored')
check(not valid(d, {'ab': 1, 'c': 2}), 'additional')
check(valid(d, {'ax': 1, 'bx': 2}), 'unanchored')
""")

bug('c03-mincontains-zero', 'C03', [(VA, """            if valid and not contains.valid:
                max_contains = result.sibling(instance, "maxContains")
                if not max_contains or max_contains.valid:
                    contains.pass_()
""", """            if valid and not contains.valid and len(instance) > 0:
                max_contains = result.sibling(instance, "maxContains")
                if not max_contains or max_contains.valid:
                    contains.pass_()
""")], 'minContains 0 and an empty array', 'an empty array fails contains although minContains is 0', H + """
d = {'contains': {'type': 'string'}, 'minContains': 0}
check(valid(d, [1]), 'no match')
check(not valid({'contains': {'type': 'string'}}, []), 'empty without minContains')
check(valid(d, []), 'empty')
""")

bug('c04-contains-last', 'C04', [(A, """            contains_indices |= set(contains_annotation)
""", """            contains_indices = set(contains_annotation)
""")], 'two contains in place at different depths that evaluate different items, next to unevaluatedItems',
    'only the items of one contains count as evaluated', H + """
d = {'allOf': [{'contains': {'type': 'string'}}, {'contains': {'type': 'number'}}], 'unevaluatedItems': False}
check(valid({'contains': {'type': 'string'}, 'unevaluatedItems': False}, ['a', 'b']), 'one contains')
check(not valid(d, ['a', 1, None]), 'unevaluated item')
check(valid(d, ['a', 1]), 'two contains')
""")

bug('c04-depends-dynamic', 'C04', [(A, """        "$ref",
        "$dynamicRef",
    )

    def evaluate(self, instance: JSON, result: Result) -> None:
        evaluated_names = set()
""", """        "$ref",
    )

    def evaluate(self, instance: JSON, result: Result) -> None:
        evaluated_names = set()
""")], 'unevaluatedProperties written before $dynamicRef in the same schema object',
    'unevaluatedProperties runs before $dynamicRef and does not see the members it evaluated', H + """
d = {'$dynamicRef': '#/$defs/p', 'unevaluatedProperties': False, '$defs': {'p': {'properties': {'a': True}}}}
check(valid(d, {'a': 1}) and not valid(d, {'b': 1}), 'after')
d = {'unevaluatedProperties': False, '$dynamicRef': '#/$defs/p', '$defs': {'p': {'properties': {'a': True}}}}
check(not valid(d, {'b': 1}), 'before')
check(valid(d, {'a': 1}), 'before')
""")

bug('c05-unquote-plus', 'C05', [(PT, """        return JSONPointer(urllib.parse.unquote(value))
""", """        return JSONPointer(urllib.parse.unquote_plus(value))
""")], 'a reference by JSON Pointer fragment through a member whose name contains a plus sign',
    'a plus sign in a fragment is decoded as a space, so the reference fails or designates another schema', H + """
d = {'$defs': {'a+b': {'type': 'string'}, 'a b': {'type': 'number'}}, 'properties': {'x': {'$ref': '#/$defs/a%20b'}, 'y': {'$ref': '#/$defs/a+b'}}}
check(valid(d, {'x': 1}), 'space')
check(valid(d, {'y': 'text'}) and not valid(d, {'y': 1}), 'plus')
""")

bug('c05-anchor-beside-id', 'C05', [(K, """        if (base_uri := parentschema.base_uri) is not None:
            uri = URI(f'{base_uri}#{value}')
        else:
            raise JSONSchemaError(f'No base URI for "$anchor" value "{value}"')
""", """        if (base_uri := (parentschema.parentschema or parentschema).base_uri) is not None:
            uri = URI(f'{base_uri}#{value}')
        else:
            raise JSONSchemaError(f'No base URI for "$anchor" value "{value}"')
""")], 'an $anchor beside the $id of an embedded resource',
    'the anchor is registered under the enclosing resource, so references to it fail', H + """
d = {'$id': 'https://x.org/root', '$ref': 'sub#here', '$defs': {'s': {'$id': 'sub', '$defs': {'t': {'$anchor': 'here', 'type': 'string'}}}}}
check(valid(d, 'x') and not valid(d, 1), 'below the $id')
d = {'$id': 'https://x.org/root2', '$ref': 'sub2#here', '$defs': {'s': {'$id': 'sub2', '$anchor': 'here', 'type': 'string'}}}
try:
    ok = valid(d, 'x') and not valid(d, 1)
except jschon.exc.JschonError:
    ok = False
check(ok, 'beside the $id')
""")

bug('c06-innermost', 'C06', [(L, """                        base_anchor.data is True:
                    refschema = target.schema
                target = target.parent
""", """                        base_anchor.data is True:
                    refschema = target.schema
                target = target.parent if base_anchor is None or base_anchor.data else None
""")], 'a $recursiveRef whose dynamic scope has a resource with $recursiveAnchor false between two with true',
    'the search for the outermost anchor stops at a resource whose $recursiveAnchor is false', H + """
d = {'$id': 'https://x.org/a', '$recursiveAnchor': True, '$ref': 'b', 'required': ['r'], '$defs': {
    'b': {'$id': 'b', '$recursiveAnchor': False, '$ref': 'c'},
    'c': {'$id': 'c', '$recursiveAnchor': True, 'properties': {'n': {'$recursiveRef': '#'}}}}}
check(valid(d, {'r': 1, 'n': {'r': 1}}, meta=M19), 'valid')
check(not valid(d, {'r': 1, 'n': {}}, meta=M19), 'outermost')
""")

bug('c07-const-memo', 'C07', [(VA, """        if instance != self.json:
            result.fail(f"The instance value must be equal to the defined constant")
""", """        key = instance.value if instance.type in ('number', 'string', 'boolean') else instance.dumps()
        memo = self.__dict__.setdefault('memo', {})
        if key not in memo:
            memo[key] = instance == self.json
        if not memo[key]:
            result.fail(f"The instance value must be equal to the defined constant")
""")], 'one schema evaluated against 1 and then true (or 0 and false), or a string that spells an array',
    'the verdict of const is remembered under a key that different instances share, so it depends on what was evaluated before', H + """
s = schema({'properties': {'a': {'const': 1}}})
check(not s.evaluate(JSON({'a': True})).valid, 'true')
check(not s.evaluate(JSON({'a': 2})).valid, 'two')
s = schema({'properties': {'a': {'const': 1}}})
check(s.evaluate(JSON({'a': 1})).valid, 'one')
check(not s.evaluate(JSON({'a': True})).valid, 'true after one')
""")

bug('c08-anyof-short', 'C08', [(A, """        valid = False
        for index, subschema in enumerate(self.json):
            with result(instance, str(index)) as subresult:
                subschema.evaluate(instance, subresult)
                if subresult.passed:
                    valid = True
""", """        valid = False
        for index, subschema in enumerate(self.json):
            with result(instance, str(index)) as subresult:
                valid = subschema.evaluate(instance, subresult).passed or valid
            if valid and not isinstance(instance.data, (dict, list)):
                # no need to look for evaluated items or properties
                break
""")], 'an anyOf with several passing branches that annotate, and a scalar instance',
    'annotations of the branches after the first that passes are lost for scalars', H + """
s = schema({'anyOf': [{'title': 'a'}, {'title': 'b'}]})
for v in ({}, [], 1, 'x'):
    got = sorted(s.evaluate(JSON(v)).collect_annotations(key='title'))
    check(got == ['a', 'b'], (v, got))
""")

bug('c09-ref-location', 'C09', [(S, """                return node._uri.copy(fragment=relpath.uri_fragment())
""", """                return node._uri.copy(fragment=str(relpath))
""")], 'a keyword or property whose name needs percent-encoding in a fragment',
    'the absolute keyword location is not percent-encoded, so it is not a URI and designates nothing', H + """
s = schema({'$id': 'https://x.org/s', 'properties': {'a': {'type': 'string'}, 'b%25 c': {'type': 'string'}}})
out = s.evaluate(JSON({'a': 1, 'b%25 c': 1})).output('basic')
locs = {e['instanceLocation']: e['absoluteKeywordLocation'] for e in out['errors']}
check(locs['/a'] == 'https://x.org/s#/properties/a/type', locs)
check(locs['/b%25 c'] == 'https://x.org/s#/properties/b%2525%20c/type', locs)
""")

bug('c10-detailed-collapse', 'C10', [(O, """        if not output[childkey]:
            del output[childkey]
            if (msgval := getattr(node, msgkey)) is not None:
                output[msgkey] = msgval
        elif len(output[childkey]) == 1:
            output = output[childkey][0]

        return output
""", """        if not output[childkey]:
            del output[childkey]
            if msgval := getattr(node, msgkey):
                output[msgkey] = msgval
        elif len(output[childkey]) == 1:
            output = output[childkey][0]

        return output
""")], 'a leaf annotation with a false value: 0, an empty string, false, an empty list',
    'detailed output drops falsy annotations that basic output lists', H + """
r = schema({'title': 'x', 'default': 0, 'deprecated': False}).evaluate(JSON(1))
leaves = [u.get('annotation') for u in r.output('detailed')['annotations']]
check(leaves == ['x', 0, False], leaves)
""")

bug('c11-uncached-stop', 'C11', [(J, """            del self.path
        except AttributeError:
            pass
""", """            del self.path
        except AttributeError:
            # this path has not been read, so there is nothing to forget
            return
""")], 'the path of a nested node is read, that of its container is not, and an earlier item of the array around them is deleted or inserted',
    'nested nodes keep their old paths when the path of their container has not been read', """
from demolib import *
j = JSON([[0], [1], {'a': [3]}])
check([str(j[1].path), str(j[1][0].path)] == ['/1', '/1/0'], 'before')
str(j[2]['a'][0].path)
del j[0]
check([str(j[0].path), str(j[0][0].path)] == ['/0', '/0/0'], 'path of the container was read')
check(str(j[1]['a'][0].path) == '/1/a/0', str(j[1]['a'][0].path))
""")

bug('c12-file-constants', 'C12', [('jschon/utils.py', """        json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
""", """        json.dump(obj, f, ensure_ascii=False, default=_serialize_custom_obj)
""")], 'a document with a number that is not finite, saved to a file', 'NaN and Infinity are written to files', """
from demolib import *
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f')
    JSON([1.5]).dumpf(p)
    check(JSON.loadf(p) == [1.5], 'finite')
    for v in (float('inf'), float('nan')):
        try:
            JSON({'a': v}).dumpf(p)
        except ValueError:
            continue
        check(False, v)
""")

bug('c13-object-subset', 'C13', [(J, """                return self.keys() == other.keys() and \\
                       all(item == other[k] for k, item in self.items())
            return self.data == other.data
""", """                return len(self) == len(other) and \\
                       all(item == other.data.get(k) for k, item in self.items())
            return self.data == other.data
""")], 'two objects of the same size with different keys, one of which has a null member',
    'an object with a null member equals one of the same size in which that member is absent', """
from demolib import *
check(JSON({'a': 1, 'b': 2}) == {'b': 2, 'a': 1}, 'order')
check(JSON({'a': 1}) != JSON({'b': 1}), 'keys')
check(JSON({'a': None}) != JSON({'b': None}), 'null member')
check(JSON({'a': None, 'c': 1}) != {'b': 2, 'c': 1}, 'null member')
""")

bug('c14-percent', 'C14', [(PT, """        return urllib.parse.quote(str(self), safe="/!$&'()*+,;=")
""", """        return urllib.parse.quote(str(self), safe="/!$&'()*+,;=%")
""")], 'a key that contains a percent sign followed by two hexadecimal digits',
    'a percent sign is not encoded in a fragment, so the fragment decodes to other keys', """
from demolib import *
from jschon import JSONPointer
for k in ('a', 'a b', 'é', '~', '/', '#'):
    check(JSONPointer.parse_uri_fragment(JSONPointer([k]).uri_fragment()) == JSONPointer([k]), k)
k = '%41'
check(JSONPointer.parse_uri_fragment(JSONPointer([k]).uri_fragment()) == JSONPointer([k]), k)
""")

bug('c15-unicode-digits', 'C15', [(PT, """JSON_INDEX_RE = '0|([1-9][0-9]*)'
""", r"""JSON_INDEX_RE = r'0|([1-9]\d*)'
""")], 'an array token written with digits that are not ASCII', 'a pointer with non-ASCII digits designates an array item', """
from demolib import *
from jschon import JSONPointer
doc = list(range(20))
check(JSONPointer('/12').evaluate(doc) == 12, 'index')
for t in ('01', '-1', '1_0', ' 1', '1\\u0662'):
    try:
        JSONPointer('/' + t).evaluate(doc)
    except jschon.exc.JSONPointerReferenceError:
        continue
    check(False, t)
""")

bug('c16-digit-member', 'C16', [(PT, """            return int(node.key) if node.parent.type == "array" else node.key
""", """            return int(node.key) if node.key.isdigit() else node.key
""")], 'the name of an object member that consists of digits', 'the name of a member such as "10" is returned as a number', """
from demolib import *
from jschon import RelativeJSONPointer
j = JSON({'a': [5, 6], '10': {'x': 1}})
R = RelativeJSONPointer
check(R('0#').evaluate(j['a'][1]) == 1 and R('1#').evaluate(j['a'][1]) == 'a', 'index and name')
check(R('1#').evaluate(j['10']['x']) == '10', 'digits')
""")

bug('c17-test-plain', 'C17', [(P, """        if JSON(path.evaluate(document)) != JSON(value):
""", """        if path.evaluate(document) != value:
""")], 'a test operation comparing true with 1 or false with 0', 'test succeeds for values of different JSON types', """
from demolib import *
from jschon import JSONPatch
P = lambda v: JSONPatch({'op': 'test', 'path': '/a', 'value': v})
P(1).evaluate({'a': 1}), P(1).evaluate({'a': 1.0}), P([]).evaluate({'a': []})
for d, v in ((1, 2), ('a', 'b'), (True, 1), (0, False), ([1], [True])):
    try:
        P(v).evaluate({'a': d})
    except jschon.exc.JSONPatchError:
        continue
    check(False, (d, v))
""")

bug('c18-copy-shares', 'C18', [(P, """    try:
        value = from_.evaluate(document)
    except JSONPointerError as e:
        raise JSONPatchError(f'Cannot copy from nonexistent location {from_}') from e

    return add(document, path, value)
""", """    try:
        value = from_.evaluate(document)
    except JSONPointerError as e:
        raise JSONPatchError(f'Cannot copy from nonexistent location {from_}') from e

    target = Node(document, path)
    if target.type == NodeType.OBJECT_PROPERTY:
        target.parent[target.index] = value
    else:
        document = add(document, path, value)
    return document
""")], 'a copy that replaces an existing member with a container, followed by an operation inside one of the two',
    'the two locations share one container, so a later change to one shows in the other', """
from demolib import *
from jschon import JSONPatch
copy = {'op': 'copy', 'from': '/a', 'path': '/b'}
edit = {'op': 'add', 'path': '/a/0', 'value': 9}
check(JSONPatch(copy, edit).evaluate({'a': [1]}) == {'a': [9, 1], 'b': [1]}, 'new member')
got = JSONPatch(copy, edit).evaluate({'a': [1], 'b': 0})
check(got == {'a': [9, 1], 'b': [1]}, got)
""")

bug('c19-replace-array', 'C19', [(J, """        if target.parent.type == 'array':
            target.parent[int(target.key)] = obj
""", """        if target.parent.type == 'array':
            if isinstance(obj, JSON):
                # already a tree: put it in place
                obj.parent, obj.key = target.parent, target.key
                target.parent.data[int(target.key)] = obj
                target.parent._invalidate_value()
            else:
                target.parent[int(target.key)] = obj
""")], 'replacing an array item by a JSON document that is part of, or held by, another document',
    'the given document is moved instead of copied, so later edits show in both and its paths go wrong', """
from demolib import *
j, k = JSON([1, 2]), JSON({'x': [5]})
j.replace('/0', [7])
check(j == [[7], 2], 'plain')
node = k['x']
str(node.path)
j.replace('/1', node)
check(j == [[7], [5]] and k == {'x': [5]}, 'value')
check(str(k['x'].path) == '/x' and k['x'].parent is k, 'the source keeps its node')
check(str(j[1].path) == '/1', str(j[1].path))
""")

bug('c20-null-value', 'C20', [(P, """            result['value'] = self.value
""", """            if self.value is not None or self.op == 'test':
                result['value'] = self.value
""")], 'an add or replace operation whose value is null', 'the plain form of the operation lacks its value member, so it is not a JSON Patch', """
from demolib import *
from jschon import JSONPatch
check(JSONPatch({'op': 'add', 'path': '/a', 'value': 0}).aslist() == [{'op': 'add', 'path': '/a', 'value': 0}], 'zero')
ops = [{'op': 'add', 'path': '/a', 'value': None}, {'op': 'replace', 'path': '/b', 'value': None}]
check(JSONPatch(*ops).aslist() == ops, 'null')
""")

bug('c22-reregister', 'C22', [(C, """        self._uri_sources[prefix] = source
""", """        self._uri_sources.setdefault(prefix, source)
        if source.suffix or prefix == '':
            self._uri_sources[prefix] = source
""")], 'registering a second source without a suffix for a base URI that already has one',
    're-registering a base URI keeps the old source', """
from demolib import *
from jschon.catalog import Source, Catalog


class Src(Source):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def __call__(self, rel):
        return {'title': self.tag + rel}


c = Catalog('demo')
c.add_uri_source(URI('https://x.org/'), Src('one:'))
check(c.load_json(URI('https://x.org/a')) == {'title': 'one:a'}, 'first')
c.add_uri_source(URI('https://x.org/'), Src('two:'))
check(c.load_json(URI('https://x.org/a')) == {'title': 'two:a'}, 'second')
""")

bug('c23-with-suffix', 'C23', [(C, """            filepath = str(filepath)
            filepath += self.suffix
""", """            filepath = filepath.with_suffix(self.suffix)
""")], 'a relative path whose last segment contains a dot', 'the suffix replaces what follows the last dot instead of being appended', """
from demolib import *
import tempfile
with tempfile.TemporaryDirectory() as d:
    for n in ('a.json', 'v1.2.json', 'v1.json'):
        with open(os.path.join(d, n), 'w') as f:
            json.dump({'title': n}, f)
    s = LocalSource(d, suffix='.json')
    check(s('a') == {'title': 'a.json'}, 'a')
    check(s('v1.2') == {'title': 'v1.2.json'}, 'v1.2')
""")

bug('c24-scope-kept', 'C24', [(C, """        try:
            yield cacheid
        finally:
            self._schema_cache.pop(cacheid, None)
""", """        yield cacheid
        self._schema_cache.pop(cacheid, None)
""")], 'a scoped cache block that ends by an exception', 'the scoped cache stays when its block ends by an exception', H + """
from jschon.catalog import Catalog
c = Catalog.get_catalog()
with c.cache('k') as k:
    schema({'title': 'x'}, cacheid=k, uri=URI('https://x.org/s'))
with c.cache('k'):
    pass
try:
    with c.cache('k'):
        raise ZeroDivisionError
except ZeroDivisionError:
    pass
try:
    with c.cache('k'):
        pass
except jschon.exc.CatalogError:
    check(False, 'the identifier is still in use')
""")

bug('c24-del-all-caches', 'C24', [(C, """        if cacheid in self._schema_cache:
            self._schema_cache[cacheid].pop(uri, None)
""", """        if self._schema_cache.get(cacheid, {}).pop(uri, None) is None:
            # not there: it may have been cached under its canonical form
            for cache in self._schema_cache.values():
                cache.pop(URI(str(uri).rstrip('#')), None)
""")], 'deleting a URI from a cache that does not hold it, while another cache does',
    'deleting from one cache removes the schema from the others', H + """
from jschon.catalog import Catalog
c = Catalog.get_catalog()
u = URI('https://x.org/s')
with c.cache('k') as k:
    s = schema({'title': 'x'}, cacheid=k, uri=u)
    d = schema({'title': 'd'}, uri=u)
    c.del_schema(u)
    check(c.get_schema(u, cacheid=k) is s, 'present in both')
    c.del_schema(u)
    try:
        ok = c.get_schema(u, cacheid=k) is s
    except jschon.exc.CatalogError:
        ok = False
    check(ok, 'present in the other only')
""")

bug('c26-shared-vocabulary', 'C26', [(V, """        self.kwclasses.update(self.core_vocabulary.kwclasses)
""", """        self.kwclasses = self.core_vocabulary.kwclasses
""")], 'two metaschemas with the same core vocabulary and different other vocabularies',
    'the keywords of every vocabulary declared by one metaschema take effect under the others', """
from demolib import *
from jschon.catalog import Source
c = catalog()
CORE, APP, VAL = ('https://json-schema.org/draft/2020-12/vocab/' + n for n in ('core', 'applicator', 'validation'))
DIALECTS = {'https://x.org/a': [CORE, APP], 'https://x.org/b': [CORE]}


class Src(Source):
    def __call__(self, rel):
        return {'$schema': str(M20), '$id': rel, '$vocabulary': {v: True for v in DIALECTS[rel]}, '$dynamicAnchor': 'meta'}


c.add_uri_source(None, Src())
a, b = (JSONSchema({'maximum': 1, 'not': True}, catalog=c, metaschema_uri=URI(u)) for u in DIALECTS)
check(not a.evaluate(JSON(2)).valid, 'not takes effect under a')
check(b.evaluate(JSON(2)).valid, 'nothing takes effect under b')
""")

bug('c27-root-metaschema', 'C27', [(S, """        return self.metaschema.evaluate(self)
""", """        return self.document_rootschema.metaschema.evaluate(self)
""")], 'validating a subschema that has its own $schema', 'a subschema is validated against the metaschema of its document instead of its own', H + """
s = schema({'$id': 'https://x.org/r', '$defs': {'o': {'$id': 'o', '$schema': str(M19), 'items': [True]}, 'n': {'items': True}}})
check(s['$defs']['n'].validate().valid, 'same dialect')
check(s['$defs']['o'].validate().valid, 'items may be an array in 2019-09')
""")

bug('c28-formats-shared', 'C28', [(C, """    _catalog_registry: Dict[Hashable, Catalog] = {}
""", """    _catalog_registry: Dict[Hashable, Catalog] = {}
    _enabled_formats: Set[str] = set()
"""), (C, """        self._enabled_formats: Set[str] = set()
""", "")], 'two catalogs, a format enabled in one', 'enabling a format in one catalog enables it in all', """
from demolib import *
a, b = catalog('a'), catalog('b')
f = {'format': 'json-pointer'}
check(valid(f, 'x', 'a') and valid(f, 'x', 'b'), 'not enabled')
a.enable_formats('json-pointer')
check(not valid(f, 'x', 'a'), 'enabled')
check(valid(f, 'x', 'b'), 'not enabled in b')
""")

bug('c28-format-types', 'C28', [(F, """        if self.validator and instance.type in self.validates_types:
""", """        if self.validator and (instance.type in self.validates_types or instance.type in ('number', 'boolean')):
""")], 'an enabled format whose validator does not test the type itself, and a number', 'the validator is run on instances of types it does not govern', H + """
from jschon.catalog import Catalog
from jschon.vocabulary.format import format_validator


@format_validator('never')
def never(value):
    raise ValueError


Catalog.get_catalog().enable_formats('never')
f = {'format': 'never'}
check(not valid(f, 'x'), 'string')
for v in (None, [], {}, 1, True):
    check(valid(f, v), v)
""")

bug('c29-contains-scratch', 'C29', [(A, """    def evaluate(self, instance: JSON, result: Result) -> None:
        annotation = []
        for index, item in enumerate(instance):
            if self.json.evaluate(item, result).passed:
                annotation += [index]
""", """    matched = ()

    def evaluate(self, instance: JSON, result: Result) -> None:
        self.matched = annotation = []
        for index, item in enumerate(instance):
            if self.json.evaluate(item, result).passed:
                self.matched += [index]
""")], 'two threads evaluating arrays against the same contains keyword, one starting while the other is between two items',
    'items matched in one thread are recorded for the other', H + """
import threading
s = schema({'contains': {'type': 'number'}, 'minContains': 3, 'maxContains': 3})
want = s.evaluate(JSON([1, 2, 3])).valid
check(want, 'alone')
gate, done = threading.Event(), threading.Event()
inner = s['contains']
orig = type(inner).evaluate


def evaluate(self, instance, result=None):
    if self is inner and threading.current_thread().name == 'first' and instance.path == jschon.JSONPointer('/1'):
        gate.set()
        done.wait(10)
    return orig(self, instance, result)


type(inner).evaluate = evaluate
out = []
t = threading.Thread(target=lambda: out.append(s.evaluate(JSON([1, 2, 3])).valid), name='first')
t.start()
gate.wait(10)
check(s.evaluate(JSON([7, 8, 9])).valid, 'second thread')
done.set()
t.join()
check(out == [True], 'first thread')
""")

bug('c25-failure-memo', 'C25', [(C, """            prefix, source = candidates[0]
            relative_path = uristr[len(prefix):]
            try:
                return source(relative_path)
            except CatalogError:
                raise
""", """            prefix, source = candidates[0]
            relative_path = uristr[len(prefix):]
            try:
                return self._load(uristr, source, relative_path)
            except CatalogError:
                self._unavailable.add(uristr)
                raise
"""), (C, """    def create_vocabulary(self,""", """    def _load(self, uristr, source, relative_path):
        if uristr in self._unavailable:
            raise CatalogError(f'"{uristr}" is not available')
        return source(relative_path)

    def create_vocabulary(self,"""), (C, """        self._enabled_formats: Set[str] = set()
""", """        self._enabled_formats: Set[str] = set()
        self._unavailable: Set[str] = set()
""")], 'a document that is missing, requested, then supplied, and requested again',
    'a failed load is remembered, so the request goes on failing after its cause is removed', """
from demolib import *
from jschon.catalog import Source
c = catalog()
docs = {}


class Src(Source):
    def __call__(self, rel):
        if rel not in docs:
            raise jschon.exc.CatalogError('missing ' + rel)
        return docs[rel]


c.add_uri_source(None, Src())


def ok():
    try:
        return schema({'$ref': 'https://x.org/d'}).evaluate(JSON('x')).valid
    except jschon.exc.CatalogError:
        return None


check(ok() is None, 'missing')
docs['https://x.org/d'] = {'type': 'string'}
check(ok() is True, 'supplied')
""")

bug('c21-eq-text', 'C21', [(U, """            return self._uriref == other._uriref
""", """            return str(self) == str(other) or self._uriref.fragment is None and self._uriref == other._uriref
""")], 'two spellings of one URI with a fragment, or a comparison in which only one operand has one',
    'URIs that differ in spelling and have a fragment are no longer equal', """
from demolib import *
check(URI('HTTP://x.org/a') == URI('http://X.org/a'), 'no fragment')
check(URI('http://x.org/a#b') == URI('http://x.org/a#b'), 'same text')
check(URI('HTTP://x.org/./a#b') == URI('http://X.org/a#b'), 'fragment')
check({URI('http://x.org/a#b'): 1}.get(URI('http://X.org/a#b')) == 1, 'key')
""")

bug('c29-dynamic-restore', 'C29', [(K, """        refschema = self.refschema

        if self.dynamic:
""", """        static = self.refschema

        if self.dynamic:
"""), (K, """                if (found_schema := resource.dynamic_anchors.get(self.fragment)) is not None:
                    refschema = found_schema

                target = target.parent

        refschema.evaluate(instance, result)
        result.refschema(refschema)
""", """                if (found_schema := resource.dynamic_anchors.get(self.fragment)) is not None:
                    self.refschema = found_schema

                target = target.parent

        self.refschema.evaluate(instance, result)
        result.refschema(self.refschema)
        self.refschema = static
""")], 'two threads in the same $dynamicRef at once: the second one starts while the first has moved the target, and goes on after the first has put it back',
    'the dynamic target is kept in the keyword while it is evaluated, so one thread can take it away from another', H + """
N = 'https://x.org/'
tree = {'$id': N + 'd', '$ref': 'tree', '$defs': {
    'x': {'$dynamicAnchor': 'n', 'type': 'string'},
    't': {'$id': 'tree', 'properties': {'a': {'$dynamicRef': '#n'}}, '$defs': {'n': {'$dynamicAnchor': 'n', 'type': 'integer'}}}}}
s = schema(tree)
check(s.evaluate(JSON({'a': 's'})).valid and not s.evaluate(JSON({'a': 1})).valid, 'alone')


def make():
    s['$defs']['t']['properties']['a'].keywords
    return [lambda: s.evaluate(JSON({'a': 's'})).valid, lambda: s.evaluate(JSON({'a': 1})).valid]


for out in interleave(make, 'core.py', second=True):
    check(out == [True, False], out)
""")

bug('c29-partial-regexes', 'C29', [(A, """    def evaluate(self, instance: JSON, result: Result) -> None:
        matched_names = set()
        err_names = []
        for name, item in instance.items():
            for regex, subschema in self.json.items():
                if re.search(regex, name) is not None:
                    with result(item, regex) as subresult:
""", """    def __init__(self, parentschema, value):
        super().__init__(parentschema, value)
        self.patterns = []

    def evaluate(self, instance: JSON, result: Result) -> None:
        matched_names = set()
        err_names = []
        if not self.patterns:
            for regex, subschema in self.json.items():
                self.patterns.append((regex, re.compile(regex), subschema))
        for name, item in instance.items():
            for regex, compiled, subschema in self.patterns:
                if compiled.search(name) is not None:
                    with result(item, regex) as subresult:
""")], 'a second thread that comes to the same patternProperties for the first time while the first one is between two patterns of its lazily filled list',
    'the second thread sees only some of the patterns', H + """
def make():
    s = schema({'patternProperties': {'^x': {'type': 'string'}, 'y': {'type': 'integer'}}})
    return [lambda: s.evaluate(JSON({'xy': 's'})).valid, lambda: s.evaluate(JSON({'ay': 's'})).valid]


for out in interleave(make, 'applicator.py'):
    check(out == [False, False], out)
""")

bug('c30-subschema-cache', 'C30', [(V, """            return JSONSchema(
                value,
                parent=parentschema,
                key=key,
                catalog=parentschema.catalog,
                cacheid=parentschema.cacheid,
            )
""", """            return JSONSchema(
                value,
                parent=parentschema,
                key=key,
                catalog=parentschema.catalog,
            )
""")], 'a schema constructed in a cache of its own, with an identified subschema under a keyword that takes a single schema',
    'the subschema is put into the default cache instead of that of its document', H + """
with Catalog.get_catalog().cache() as cid:
    s = schema({'$id': 'https://ex.org/s', 'not': {'allOf': [{'type': 'string'}]}, 'allOf': [{'$id': 'in'}]}, cacheid=cid)
    check(s.cacheid == s['allOf'][0].cacheid == cid, 'array')
    check(s['not'].cacheid == cid and s['not']['allOf'][0].cacheid == cid, 'single')
""".replace('with Catalog', 'from jschon.catalog import Catalog\nwith Catalog'))

bug('c30-dialect-of-document', 'C30', [(S, """        if self.parentschema is not None:
            return self.parentschema.metaschema_uri
""", """        if self.parentschema is not None:
            return self.document_rootschema.metaschema_uri
""")], 'a document of one draft that embeds a resource of the other, which has subschemas of its own',
    'the subschemas of the embedded resource are taken for the draft of the document', H + """
m19, m20 = 'https://json-schema.org/draft/2019-09/schema', 'https://json-schema.org/draft/2020-12/schema'
s = schema({'$schema': m20, '$id': 'https://ex.org/d', '$defs': {'e': {'$id': 'e', '$schema': m19, 'not': {'title': 'x'}}, 'f': {'not': {}}}})
check(str(s['$defs']['f']['not'].metaschema_uri) == m20, 'document')
check(str(s['$defs']['e'].metaschema_uri) == m19, 'embedded')
check(str(s['$defs']['e']['not'].metaschema_uri) == m19, 'within the embedded resource')
""")

bug('c31-result-class-lost', 'C31', [(S, """(child := (cls or self.__class__)(""", """(child := (cls or Result)(""")],
    'an extension keyword that evaluates its subschema with a Result class of its own, and a subschema with nested keywords',
    'only the topmost result of the subtree has the class', H + """
from jschon.catalog import Catalog
from jschon.jsonschema import Result
from jschon.vocabulary import Keyword, Subschema


class Mine(Result):
    pass


seen = []


class Spy(Keyword):
    key = 'spy'

    def evaluate(self, instance, result):
        seen.append(type(result))


class Own(Keyword, Subschema):
    key = 'own'

    def evaluate(self, instance, result):
        with result(instance, 'x', self.json, cls=Mine) as r:
            seen.append(type(r))
            self.json.evaluate(instance, r)


c = Catalog.get_catalog()
core = 'https://json-schema.org/draft/2020-12/vocab/core'
c.create_vocabulary(URI('https://ex.org/v'), Spy, Own)
m = {'$schema': str(M20), '$id': 'https://ex.org/m', '$vocabulary': {core: True, 'https://ex.org/v': True}}
from jschon.catalog import Source


class S(Source):
    def __call__(self, path):
        return m


c.add_uri_source(URI('https://ex.org/'), S())
s = JSONSchema({'own': {'spy': 1}, 'spy': 2}, metaschema_uri=URI('https://ex.org/m'))
s.evaluate(JSON(1))
check(sorted(t.__name__ for t in seen) == ['Mine', 'Mine', 'Result'], seen)
""")

bug('c31-order-by-count', 'C31', [(S, """        while dependencies:
            for kwclass, depclasses in dependencies.items():
                if not depclasses:
                    del dependencies[kwclass]
                    for deps in dependencies.values():
                        try:
                            deps.remove(kwclass)
                        except ValueError:
                            pass
                    yield kwclass
                    break
""", """        yield from sorted(dependencies, key=lambda kwclass: len(dependencies[kwclass]))
""")], 'a keyword with one dependency that itself has two or, written later, one',
    'keywords are ordered by how many dependencies they have', H + """
from jschon.catalog import Catalog, Source
from jschon.vocabulary import Keyword

log = []


def kw(name, *deps):
    return type(name, (Keyword,), {'key': name, 'depends_on': deps, 'evaluate': lambda self, instance, result: log.append(name)})


c = Catalog.get_catalog()
c.create_vocabulary(URI('https://ex.org/v'), kw('a'), kw('b'), kw('c', 'a', 'b'), kw('d', 'c'))
m = {'$schema': str(M20), '$id': 'https://ex.org/m', '$vocabulary': {'https://json-schema.org/draft/2020-12/vocab/core': True, 'https://ex.org/v': True}}


class S(Source):
    def __call__(self, path):
        return m


c.add_uri_source(URI('https://ex.org/'), S())
import itertools
for order in itertools.permutations('abcd'):
    log.clear()
    JSONSchema({k: 1 for k in order}, metaschema_uri=URI('https://ex.org/m')).evaluate(JSON(1))
    check(log.index('c') > max(log.index('a'), log.index('b')), (order, log))
    check(log.index('d') > log.index('c'), (order, log))
""")

bug('c31-first-formatter', 'C31', [(O, """        _formatters[format] = f
""", """        _formatters.setdefault(format, f)
""")], 'registering an output format under a name that already has one', 'the second registration is ignored', H + """
from jschon.output import output_formatter


@output_formatter('own')
def one(result):
    return 1


r = schema({}).evaluate(JSON(1))
check(r.output('own') == 1, 'first')


@output_formatter('own')
def two(result, x=2):
    return x


check(r.output('own') == 2, 'second')
check(r.output('own', x=3) == 3, 'argument')
""")

# --- C32, and further ones ---

bug('c32-not-noassert', 'C32', [(A, """            result.fail('The instance must not be valid against the subschema')
        else:
            result.pass_()
""", """            result.fail('The instance must not be valid against the subschema')
        else:
            result.noassert()
""")], 'a satisfied not, in an evaluation that fails elsewhere: the verdict is the same',
    'the failed subschema of a satisfied not is listed among the errors', H + """
def errors(s, v):
    return sorted(u['keywordLocation'] for u in schema(s).evaluate(JSON(v)).output('basic').get('errors', []))


check(errors({'not': {'type': 'string'}}, 'x')[0] == '/not', 'not')
got = errors({'not': {'type': 'string'}, 'minimum': 5}, 1)
check(got == ['/minimum'] or got == ['', '/minimum'], got)
got = errors({'allOf': [{'not': {'required': ['a']}}, {'required': ['b']}]}, {})
check('/allOf/1/required' in got and not [e for e in got if '/not' in e], got)
""")

bug('c32-pattern-once', 'C32', [(A, """                            matched_names |= {name}
                        else:
                            err_names += [name]
""", """                            matched_names |= {name}
                            continue
                        err_names += [name]
                    break
""")], 'a property matching two patterns, of which the first fails', 'only the first failing pattern of a property is evaluated: the further failures are not reported', H + """
def errors(s, v):
    return [u['keywordLocation'] for u in schema(s).evaluate(JSON(v)).output('basic').get('errors', [])]


got = errors({'patternProperties': {'^a': {'type': 'string'}, 'b$': {'type': 'string'}}}, {'a': 1, 'b': 2})
check('/patternProperties/^a/type' in got and '/patternProperties/b$/type' in got, got)
got = errors({'patternProperties': {'^a': {'type': 'string'}, 'b$': {'type': 'array'}}}, {'ab': 1})
check('/patternProperties/^a/type' in got and '/patternProperties/b$/type' in got, got)
""")

bug('c32-errors-need-message', 'C32', [(S, """                yield self.error
            for child in self.children.values():
                yield from child.collect_errors(instance, key)
""", """                yield self.error
            if key is None or key != self.key:
                for child in self.children.values():
                    yield from child.collect_errors(instance, key)
""")], 'collect_errors restricted to a keyword that fails again below itself', 'errors of a keyword nested in a failing one of the same name are not collected', H + """
s = {'properties': {'a': {'properties': {'b': False}}}}
r = schema(s).evaluate(JSON({'a': {'b': 1}}))
errors = [u['error'] for u in r.output('basic')['errors'] if u['keywordLocation'].endswith('properties')]
check(len(errors) == 2, errors)
check(len(list(r.collect_errors())) == len(r.output('basic')['errors']), 'all errors')
check(sorted(map(str, r.collect_errors(key='properties'))) == sorted(map(str, errors)), list(r.collect_errors(key='properties')))
""")

bug('c06-static-anchor', 'C06', [(K, """        if (dynamic_anchor := self.refschema.keywords.get("$dynamicAnchor")) and \\
                dynamic_anchor.json.data == self.fragment:
            self.dynamic = True
""", """        self.dynamic = "$dynamicAnchor" in self.refschema.keywords
""")], 'a $dynamicRef to a plain anchor of a schema that also has a dynamic anchor, below a resource with a dynamic anchor of the first name',
    '$dynamicRef through a plain $anchor becomes dynamic', H + """
def doc(which):
    return {'$id': 'https://ex.org/root', '$ref': 'inner', '$defs': {
        'over': {'$dynamicAnchor': 'n', 'type': 'string'},
        'inner': {'$id': 'inner', '$dynamicRef': '#' + which, '$defs': {'t': {'$anchor': 'n', '$dynamicAnchor': 'm', 'type': 'integer'}}}}}


check(valid(doc('m'), 1) and not valid(doc('m'), 'x'), 'dynamic anchor without override')
d = doc('n')
check(valid(d, 1) and not valid(d, 'x'), 'plain anchor')
""")

bug('c26-ref-document-dialect', 'C26', [(K, """        self.refschema = self.parentschema.catalog.get_schema(
            uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
        )

    def evaluate(self, instance: JSON, result: Result) -> None:
        self.refschema.evaluate(instance, result)
""", """        self.refschema = self.parentschema.catalog.get_schema(
            uri, metaschema_uri=self.parentschema.document_rootschema.metaschema_uri, cacheid=self.parentschema.cacheid
        )

    def evaluate(self, instance: JSON, result: Result) -> None:
        self.refschema.evaluate(instance, result)
""")], 'an embedded resource of another dialect refers to a document on its own that has no $schema',
    'the referenced document gets the dialect of the outermost document instead of that of the referring schema', H + """
from jschon.catalog import Catalog, Source


class S(Source):
    def __call__(self, path):
        return {'prefixItems': [False]}


Catalog.get_catalog().add_uri_source(URI('https://ex.org/'), S())
check(valid({'$ref': 'https://ex.org/a'}, [1], meta=M19), 'prefixItems is unknown in 2019-09')
check(not valid({'$ref': 'https://ex.org/b'}, [1]), 'prefixItems in 2020-12')
s = {'$id': 'https://x.org/r', '$schema': str(M19), '$ref': 'e', '$defs': {'e': {'$id': 'e', '$schema': str(M20), '$ref': 'https://ex.org/c'}}}
check(not valid(s, [1], meta=M19), 'embedded 2020-12')
""")

bug('c01-maximum-float', 'C01', [(VA, """        if instance > self.json:
            result.fail(f"The value may not be greater than {self.json}")
""", """        if not float(instance.data) <= float(self.json.data):
            result.fail(f"The value may not be greater than {self.json}")
""")], 'an integer above maximum that has the same nearest float', 'maximum compares in floating point', H + """
for m, v, ok in [(5, 5, True), (5, 6, False), (5, 5.5, False), (0.5, 0.25, True), (2 ** 53, 2 ** 53, True), (2 ** 53, 2 ** 53 + 1, False), (10 ** 20, 10 ** 20 + 1, False)]:
    check(valid({'maximum': m}, v) is ok, (m, v))
""")

bug('c33-catalog-reused', 'C33', [('jschon/__init__.py', """    catalog = Catalog(name=name)
    for version in versions:
""", """    catalog = Catalog._catalog_registry.get(name) or Catalog(name=name)
    for version in versions:
""")], 'a catalog created under the name of an earlier catalog with other versions', 'the new catalog also has the dialects and the contents of the earlier one', """
from demolib import *


def works(meta, name):
    try:
        return JSONSchema({'type': 'integer'}, catalog=name, metaschema_uri=meta, cacheid='t').evaluate(JSON(1)).valid
    except Exception:
        return False


a = create_catalog('2019-09', name='one')
check(works(M19, 'one') and not works(M20, 'one'), '2019-09 only')
b = create_catalog('2020-12', name='two')
check(works(M20, 'two') and not works(M19, 'two'), '2020-12 only')
c = create_catalog('2020-12', name='one')
check(works(M20, 'one') and not works(M19, 'one'), '2020-12 only, after 2019-09 under the same name')
check(works(M19, a) and not works(M20, a), 'the earlier catalog')
""")

bug('c33-first-of-name', 'C33', [(C, """        self.__class__._catalog_registry[name] = self
""", """        self.__class__._catalog_registry.setdefault(name, self)
""")], 'two catalogs created under one name, and the name used to find the catalog', 'the name keeps denoting the first catalog', """
from demolib import *
from jschon.catalog import Catalog
a = create_catalog(name='n')
check(Catalog.get_catalog('n') is a, 'first')
create_catalog(name='m')
b = create_catalog(name='n')
check(Catalog.get_catalog('n') is b, 'second')
""")

bug('c24-bounded-cache', 'C24', [(C, """        self._schema_cache[cacheid][uri] = schema
""", """        cache = self._schema_cache[cacheid]
        if len(cache) >= 256 and cacheid != '__meta__':
            # keep the cache small: drop the oldest entry
            del cache[next(iter(cache))]
        cache[uri] = schema
""")], 'a cache holding more than 256 schemas', 'the oldest schemas of a large cache are dropped', H + """
from jschon.catalog import Catalog
cat = Catalog.get_catalog()
for n in (10, 300):
    with cat.cache() as cid:
        made = [JSONSchema({'title': str(i)}, cacheid=cid, uri=URI(f'https://ex.org/{i}'), metaschema_uri=M20) for i in range(n)]
        for i, s in enumerate(made):
            try:
                check(cat.get_schema(URI(f'https://ex.org/{i}'), cacheid=cid, metaschema_uri=M20) is s, (n, i))
            except Exception as e:
                check(False, (n, i, e))
""")

bug('c06-scope-limit', 'C06', [(K, """            target = result
            while target is not None:
                resource""", """            target = result
            for _ in range(100):
                if target is None:
                    break
                resource""")], 'a dynamic reference evaluated more than a hundred result nodes below the outermost dynamic anchor',
    'the dynamic scope is searched only a hundred steps up', H + """
def doc(n):
    inner = {'$ref': 'base'}
    for i in range(n):
        inner = {'$id': f'layer{i}', 'allOf': [inner]}
    return {'$id': 'https://ex.org/root', '$dynamicAnchor': 'n', 'anyOf': [{'type': 'integer'}, {'type': 'array'}], 'items': inner, '$defs': {
        'base': {'$id': 'base', '$defs': {'d': {'$dynamicAnchor': 'n'}}, '$dynamicRef': '#n'}}}


for n in (1, 20, 80):
    check(valid(doc(n), [1]) and not valid(doc(n), ['x']), n)
""")

bug('c33-next-max-contains', 'C33', [('jschon/catalog/_next.py', """        MaxContainsKeyword,
""", "")], 'a schema of draft next with maxContains, with a bound that the instance exceeds', 'maxContains is unknown in draft next', """
from demolib import *
import demolib
create_catalog('2020-12', 'next', name='catalog')
N = URI('https://json-schema.org/draft/next/schema')
for meta in (M20, N):
    s = {'contains': {'type': 'integer'}, 'maxContains': 1}
    check(valid(s, [1, 'x'], meta=meta) and not valid(s, [1, 2], meta=meta), str(meta))
""")
