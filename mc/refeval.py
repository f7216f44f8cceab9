"""Reference evaluator for JSON Schema 2019-09 and 2020-12, written from the specifications.

It interprets plain Python values; it shares nothing with the code under test.  Besides the verdict it
yields the annotations, and the outcome of every keyword application by (evaluation path, instance path)."""
import math
import re
from fractions import Fraction

import refuri
from gen import jeq

ONE = {'not', 'if', 'then', 'else', 'additionalProperties', 'propertyNames', 'contains', 'unevaluatedItems', 'unevaluatedProperties', 'items',
       'additionalItems'}
MANY = {'allOf', 'anyOf', 'oneOf', 'prefixItems'}
NAMED = {'$defs', 'properties', 'patternProperties', 'dependentSchemas'}
VOCABS = {
    'core': {'$schema', '$vocabulary', '$id', '$ref', '$anchor', '$defs', '$comment'},
    'applicator': {'allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'items', 'contains', 'properties',
                   'patternProperties', 'additionalProperties', 'propertyNames'},
    'validation': {'type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength',
                   'pattern', 'maxItems', 'minItems', 'uniqueItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required',
                   'dependentRequired'},
    'meta-data': {'title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples'},
    'content': {'contentMediaType', 'contentEncoding', 'contentSchema'},
    'format': {'format'},
}
VOCABS_19 = dict(VOCABS, core=VOCABS['core'] | {'$recursiveRef', '$recursiveAnchor'},
                 applicator=VOCABS['applicator'] | {'additionalItems', 'unevaluatedItems', 'unevaluatedProperties'})
VOCABS_20 = dict(VOCABS, core=VOCABS['core'] | {'$dynamicRef', '$dynamicAnchor'}, applicator=VOCABS['applicator'] | {'prefixItems'},
                 unevaluated={'unevaluatedItems', 'unevaluatedProperties'})
VOCABS_20['format-annotation'] = VOCABS_20.pop('format')


NOTHING = object()      # no annotation; null is one


class Dialect:
    def __init__(self, kind, keywords=None):
        self.kind = kind
        vocabs = VOCABS_19 if kind == '2019-09' else VOCABS_20
        self.keywords = frozenset(k for v in vocabs.values() for k in v) if keywords is None else frozenset(keywords)


D19, D20, DNEXT = Dialect('2019-09'), Dialect('2020-12'), Dialect('next')
DIALECTS = {
    'https://json-schema.org/draft/2019-09/schema': D19,
    'https://json-schema.org/draft/2020-12/schema': D20,
    'https://json-schema.org/draft/next/schema': DNEXT,
}


class NoSchema(Exception):
    """A reference designates no schema."""


class Node:
    __slots__ = ('value', 'doc', 'path', 'base', 'dialect', 'root', 'anchors', 'id')

    def __init__(self, value, doc, path, base, dialect, root):
        self.value, self.doc, self.path, self.base, self.dialect = value, doc, path, base, dialect
        self.root = root or self            # the root schema of the resource this belongs to
        self.anchors = {} if root is None else None


class Registry:
    def __init__(self, dialects=DIALECTS):
        self.dialects = dialects
        self.resources = {}        # normalized URI without fragment -> Node
        self.plain = {}            # (normalized URI, anchor) -> Node
        self.nodes = {}            # (doc, path) -> Node

    def add(self, uri, value, dialect=None, retrieved=True):
        """A document; one that is retrieved is known by the URI it is retrieved from, besides its $id."""
        root = self._walk(value, uri, (), uri, dialect, None)
        if retrieved or root.base == uri:
            self.resources[refuri.normalize(uri)] = root
        return root

    def _walk(self, v, doc, path, base, dialect, root):
        is_obj = isinstance(v, dict)
        if is_obj and '$schema' in v and (v['$schema'] in self.dialects):
            dialect = self.dialects[v['$schema']]
        if is_obj and isinstance(v.get('$id'), str):
            base = refuri.resolve(base, v['$id']).partition('#')[0]
            root = None
        node = Node(v, doc, path, base, dialect, root)
        self.nodes[doc, path] = node
        if not is_obj:
            return node
        norm = refuri.normalize(base)
        if node.root is node:
            self.resources[norm] = node
        kws = dialect.keywords
        if '$anchor' in v and '$anchor' in kws:
            self.plain[norm, v['$anchor']] = node
        if '$dynamicAnchor' in v and '$dynamicAnchor' in kws:
            self.plain[norm, v['$dynamicAnchor']] = node
            node.root.anchors[v['$dynamicAnchor']] = node
        for k, sub in v.items():
            if k not in kws:
                continue
            if k in ONE and isinstance(sub, (dict, bool)):
                self._walk(sub, doc, path + (k,), base, dialect, node.root)
            elif (k in MANY or (k == 'items' and dialect.kind == '2019-09')) and isinstance(sub, list):
                for i, s in enumerate(sub):
                    self._walk(s, doc, path + (k, str(i)), base, dialect, node.root)
            elif k in NAMED and isinstance(sub, dict):
                for n, s in sub.items():
                    self._walk(s, doc, path + (k, n), base, dialect, node.root)
        return node

    def resolve(self, ref, base):
        uri = refuri.resolve(base, ref)
        u, _, frag = uri.partition('#')
        u = refuri.normalize(u)
        if u not in self.resources:
            raise NoSchema(uri)
        root = self.resources[u]
        keys = refuri.fragment_keys(frag)
        if keys is None:
            name = refuri.unquote(frag)
            if (u, name) not in self.plain:
                raise NoSchema(uri)
            return self.plain[u, name]
        try:
            return self.nodes[root.doc, root.path + keys]
        except KeyError:
            raise NoSchema(uri)

    def locate(self, uri):
        """(document, path) of whatever value the URI designates, schema or not."""
        u, _, frag = uri.partition('#')
        root = self.resources.get(refuri.normalize(u))
        if root is None:
            return None
        keys = refuri.fragment_keys(frag)
        if keys is None:
            n = self.plain.get((refuri.normalize(u), refuri.unquote(frag)))
            return n and (n.doc, n.path)
        v = root.value
        for k in keys:
            try:
                v = v[k] if isinstance(v, dict) else v[int(k)]
            except (KeyError, IndexError, ValueError, TypeError):
                return None
        return root.doc, root.path + keys

    def check_refs(self, node):
        """Raises NoSchema if a reference in the document `node` belongs to, or in one it refers to, designates no schema."""
        done, todo = set(), [node.doc]
        while todo:
            d = todo.pop()
            if d in done:
                continue
            done.add(d)
            for (doc, path), n in list(self.nodes.items()):
                if doc == d and isinstance(n.value, dict):
                    for k in ('$ref', '$dynamicRef', '$recursiveRef'):
                        if k in n.value and k in n.dialect.keywords:
                            todo.append(self.resolve(n.value[k], n.base).doc)


class Out:
    """What evaluating one schema (or keyword) against one instance gives."""
    __slots__ = ('valid', 'props', 'items', 'notes')

    def __init__(self):
        self.valid, self.props, self.items, self.notes = True, set(), set(), []

    def take(self, o):
        """Include the annotations of a successful in-place subschema."""
        self.props |= o.props
        self.items |= o.items
        self.notes += o.notes

    def drop(self):
        self.props, self.items, self.notes = set(), set(), []


EITHER = 'either'


class Evaluator:
    def __init__(self, registry, record=False):
        self.reg = registry
        self.record = record
        self.outcome = {}      # (epath, ipath) -> (valid, (doc, path)) for keyword applications and listed subschemas
        self.vague = 0

    def run(self, node, inst, ipath=()):
        self.outcome = {}
        o = self.schema(node, inst, ipath, (), ())
        return o

    def rec(self, epath, ipath, valid, where):
        if self.record:
            self.outcome[epath, ipath] = (EITHER if self.vague else valid, where)

    def schema(self, node, inst, ipath, epath, scope):
        out = Out()
        v = node.value
        if isinstance(v, bool):
            out.valid = v
            return out
        if not scope or scope[-1] is not node.root:
            scope = scope + (node.root,)
        kws = node.dialect.keywords
        later = []
        st = {}
        order = [k for k in v if k not in ('then', 'else', 'minContains', 'maxContains')] + \
                [k for k in ('then', 'else', 'minContains', 'maxContains') if k in v]
        for k in order:
            if k in ('unevaluatedItems', 'unevaluatedProperties') and k in kws:
                later.append(k)
                continue
            self.keyword(k, node, inst, ipath, epath, scope, out, st, kws)
        for k in later:
            # what a failed schema's other keywords evaluated is not defined
            vague = not out.valid
            self.vague += vague
            self.keyword(k, node, inst, ipath, epath, scope, out, st, kws)
            self.vague -= vague
        if not out.valid:
            out.drop()
        return out

    def sub(self, node, keys, inst, ipath, epath, scope):
        n = self.reg.nodes[node.doc, node.path + keys]
        return self.schema(n, inst, ipath, epath + keys, scope)

    def keyword(self, k, node, inst, ipath, epath, scope, out, st, kws):
        v = node.value[k]
        ep = epath + (k,)
        where = (node.doc, node.path + (k,))

        def done(valid, at=where, note=NOTHING):
            self.rec(ep, ipath, valid, at)
            if not valid:
                out.valid = False
            elif note is not NOTHING:
                out.notes.append((k, ipath, ep, at, note))

        if k not in kws:
            done(True, note=v)
            return
        f = KEYWORDS.get(k)
        if f is not None:
            f(self, k, v, node, inst, ipath, epath, scope, out, st, kws, done)
            return
        f = ASSERT.get(k)
        if f is not None:
            types, fn = f
            if types is None or kind(inst) in types:
                done(fn(v, inst))
            return
        if k in ('title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'format'):
            done(True, note=v)
        elif k in ('contentMediaType', 'contentEncoding') and isinstance(inst, str):
            done(True, note=v)
        elif k == 'contentSchema' and isinstance(inst, str) and 'contentMediaType' in node.value and 'contentMediaType' in kws:
            done(True, note=v)


def kind(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, str):
        return 'string'
    return 'array' if isinstance(v, list) else 'object'


def exactnum(x):
    return Fraction(x) if isinstance(x, int) else Fraction(repr(x))


def a_type(v, i):
    for t in ([v] if isinstance(v, str) else v):
        if t == kind(i) or (t == 'integer' and kind(i) == 'number' and (isinstance(i, int) or i.is_integer())):
            return True
    return False


def a_multiple(v, i):
    if isinstance(i, float) and not math.isfinite(i):
        return False
    return (exactnum(i) / exactnum(v)).denominator == 1


def a_unique(v, i):
    return not v or not any(jeq(i[a], i[b]) for a in range(len(i)) for b in range(a))


NUM, STR, ARR, OBJ = ('number',), ('string',), ('array',), ('object',)
ASSERT = {
    'type': (None, a_type),
    'enum': (None, lambda v, i: any(jeq(x, i) for x in v)),
    'const': (None, jeq),
    'multipleOf': (NUM, a_multiple),
    'maximum': (NUM, lambda v, i: i <= v),
    'exclusiveMaximum': (NUM, lambda v, i: i < v),
    'minimum': (NUM, lambda v, i: i >= v),
    'exclusiveMinimum': (NUM, lambda v, i: i > v),
    'maxLength': (STR, lambda v, i: len(i) <= v),
    'minLength': (STR, lambda v, i: len(i) >= v),
    'pattern': (STR, lambda v, i: re.search(v, i) is not None),
    'maxItems': (ARR, lambda v, i: len(i) <= v),
    'minItems': (ARR, lambda v, i: len(i) >= v),
    'uniqueItems': (ARR, a_unique),
    'maxProperties': (OBJ, lambda v, i: len(i) <= v),
    'minProperties': (OBJ, lambda v, i: len(i) >= v),
    'required': (OBJ, lambda v, i: all(n in i for n in v)),
    'dependentRequired': (OBJ, lambda v, i: all(d in i for n, ds in v.items() if n in i for d in ds)),
}


def k_ref(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    target = ev.reg.resolve(v, node.base)
    if k == '$dynamicRef':
        frag = v.partition('#')[2]
        if isinstance(target.value, dict) and target.value.get('$dynamicAnchor') == frag and '$dynamicAnchor' in target.dialect.keywords:
            for root in scope:
                if frag in (root.anchors or {}):
                    target = root.anchors[frag]
                    break
    elif k == '$recursiveRef':
        target = target.root
        if isinstance(target.value, dict) and target.value.get('$recursiveAnchor') is True:
            for root in scope:
                if isinstance(root.value, dict) and root.value.get('$recursiveAnchor') is True:
                    target = root
                    break
    o = ev.schema(target, inst, ipath, epath + (k,), scope)
    done(o.valid, (target.doc, target.path))
    if o.valid:
        out.take(o)


def k_many(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    outs = []
    for i in range(len(v)):
        o = ev.sub(node, (k, str(i)), inst, ipath, epath, scope)
        ev.rec(epath + (k, str(i)), ipath, o.valid, (node.doc, node.path + (k, str(i))))
        outs.append(o)
    n = sum(o.valid for o in outs)
    ok = n == len(v) if k == 'allOf' else n >= 1 if k == 'anyOf' else n == 1
    done(ok)
    if ok:
        for o in outs:
            if o.valid:
                out.take(o)


def k_not(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    o = ev.sub(node, (k,), inst, ipath, epath, scope)
    done(not o.valid)


def k_if(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    o = ev.sub(node, (k,), inst, ipath, epath, scope)
    st['if'] = o.valid
    ev.rec(epath + (k,), ipath, o.valid, (node.doc, node.path + (k,)))
    if o.valid:
        out.take(o)


def k_then(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if st.get('if') is (k == 'then'):
        o = ev.sub(node, (k,), inst, ipath, epath, scope)
        done(o.valid)
        if o.valid:
            out.take(o)


def k_depschemas(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if not isinstance(inst, dict):
        return
    ok, outs = True, []
    for n in v:
        if n in inst:
            o = ev.sub(node, (k, n), inst, ipath, epath, scope)
            ev.rec(epath + (k, n), ipath, o.valid, (node.doc, node.path + (k, n)))
            ok &= o.valid
            outs.append(o)
    done(ok)
    if ok:
        for o in outs:
            out.take(o)


def children(ev, k, node, pairs, ipath, epath, scope, named):
    """Apply subschemas to children: pairs of (keys of the subschema, child key, child)."""
    ok, notes = True, []
    for keys, ck, child in pairs:
        cp = ipath + (str(ck),)
        o = ev.sub(node, keys, child, cp, epath, scope)
        if named:
            ev.rec(epath + keys, cp, o.valid, (node.doc, node.path + keys))
        ok &= o.valid
        if o.valid:
            notes += o.notes
    return ok, notes


def k_props(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if not isinstance(inst, dict):
        return
    if k == 'properties':
        pairs = [((k, n), n, inst[n]) for n in inst if n in v]
    elif k == 'patternProperties':
        pairs = [((k, p), n, inst[n]) for n in inst for p in v if re.search(p, n)]
    elif k == 'additionalProperties':
        known = node.value.get('properties', {}) if 'properties' in kws else {}
        pats = node.value.get('patternProperties', {}) if 'patternProperties' in kws else {}
        pairs = [((k,), n, inst[n]) for n in inst if n not in known and not any(re.search(p, n) for p in pats)]
    elif k == 'unevaluatedProperties':
        pairs = [((k,), n, inst[n]) for n in inst if n not in out.props]
    ok, notes = children(ev, k, node, pairs, ipath, epath, scope, len(pairs) > 0 and len(pairs[0][0]) == 2)
    names = sorted({n for _, n, _ in pairs})
    done(ok, note=names)
    if ok:
        out.props |= set(names)
        out.notes += notes


def k_propnames(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if not isinstance(inst, dict):
        return
    ok, notes = True, []
    for n in inst:
        o = ev.sub(node, (k,), n, ipath + (n,), epath, scope)
        ok &= o.valid
        if o.valid:
            notes += o.notes
    done(ok)
    if ok:
        out.notes += notes


def k_items(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if not isinstance(inst, list):
        return
    old = node.dialect.kind == '2019-09'
    note = NOTHING
    named = False
    if k == 'prefixItems' or (k == 'items' and isinstance(v, list)):
        n = min(len(v), len(inst))
        pairs = [((k, str(i)), i, inst[i]) for i in range(n)]
        named = True
        if n:
            note = True if n == len(inst) else n - 1
    elif k == 'items':
        start = len(node.value['prefixItems']) if not old and 'prefixItems' in node.value and 'prefixItems' in kws else 0
        pairs = [((k,), i, inst[i]) for i in range(start, len(inst))]
        note = True if pairs else NOTHING
    elif k == 'additionalItems':
        if 'items' not in kws or not isinstance(node.value.get('items'), list):
            return
        pairs = [((k,), i, inst[i]) for i in range(len(node.value['items']), len(inst))]
        note = True if pairs else NOTHING
    elif k == 'unevaluatedItems':
        pairs = [((k,), i, inst[i]) for i in range(len(inst)) if i not in out.items]
        note = True if pairs else NOTHING
    ok, notes = children(ev, k, node, pairs, ipath, epath, scope, named)
    done(ok, note=note)
    if ok:
        out.items |= {i for _, i, _ in pairs}
        out.notes += notes


def k_contains(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if not isinstance(inst, list):
        return
    hits, notes = [], []
    for i, x in enumerate(inst):
        o = ev.sub(node, (k,), x, ipath + (str(i),), epath, scope)
        if o.valid:
            hits.append(i)
            notes += o.notes
    st['contains'] = len(hits)
    low = node.value['minContains'] if 'minContains' in node.value and 'minContains' in kws else 1
    # with a minimum of one or more, the failure is reported by contains, minContains, or both
    if hits or low == 0:
        ok = True
    else:
        ok = False
    done(ok, note=hits)
    if ok:
        if node.dialect.kind != '2019-09':
            out.items |= set(hits)
        out.notes += notes


def k_ncontains(ev, k, v, node, inst, ipath, epath, scope, out, st, kws, done):
    if isinstance(inst, list) and 'contains' in st:
        done(st['contains'] >= v if k == 'minContains' else st['contains'] <= v)


def k_nothing(*a):
    pass


KEYWORDS = {
    '$ref': k_ref, '$dynamicRef': k_ref, '$recursiveRef': k_ref, 'allOf': k_many, 'anyOf': k_many, 'oneOf': k_many, 'not': k_not, 'if': k_if,
    'then': k_then, 'else': k_then, 'dependentSchemas': k_depschemas, 'properties': k_props, 'patternProperties': k_props,
    'additionalProperties': k_props, 'unevaluatedProperties': k_props, 'propertyNames': k_propnames, 'prefixItems': k_items, 'items': k_items,
    'additionalItems': k_items, 'unevaluatedItems': k_items, 'contains': k_contains, 'minContains': k_ncontains, 'maxContains': k_ncontains,
    '$schema': k_nothing, '$vocabulary': k_nothing, '$id': k_nothing, '$anchor': k_nothing, '$dynamicAnchor': k_nothing,
    '$recursiveAnchor': k_nothing, '$defs': k_nothing, '$comment': k_nothing,
}
