"""Binds the reference evaluator (refeval) to the real evaluator: one call constructs a schema in the
real code, evaluates instances, and compares whatever aspects a check asks for."""
import json

from jschon import JSON, JSONSchema, URI, create_catalog
from jschon.catalog import Source
from jschon.exc import CatalogError

import refeval
from gen import fresh, jeq, typed
from refeval import EITHER, Evaluator, Registry

META = {
    '2019-09': 'https://json-schema.org/draft/2019-09/schema',
    '2020-12': 'https://json-schema.org/draft/2020-12/schema',
    'next': 'https://json-schema.org/draft/next/schema',
}
BASE = 'https://example.com/s/root'


class DictSource(Source):
    def __init__(self):
        super().__init__()
        self.docs = {}
        self.loads = []

    def __call__(self, relative_path):
        self.loads.append(relative_path)
        if relative_path not in self.docs:
            raise CatalogError(f'no document {relative_path}')
        return fresh(self.docs[relative_path])


class Bench:
    """A catalog of the real code with all dialects, and a source of documents."""

    def __init__(self, name='mc'):
        self.catalog = create_catalog('2019-09', '2020-12', 'next', name=name)
        self.source = DictSource()
        self.catalog.add_uri_source(None, self.source)

    def real(self, value, version, cacheid, uri=BASE):
        return JSONSchema(fresh(value), catalog=self.catalog, cacheid=cacheid, uri=URI(uri), metaschema_uri=URI(META[version]))


def ref(value, version, docs=None, uri=BASE, record=False, dialects=None):
    reg = Registry(dialects or refeval.DIALECTS)
    d = refeval.DIALECTS[META[version]]
    node = reg.add(uri, value, d, retrieved=False)
    for u, doc in (docs or {}).items():
        reg.add(u, doc, d)
    return Evaluator(reg, record), node


def results(result):
    """All nodes of a real result tree below the root."""
    stack = list(result.children.values())
    while stack:
        r = stack.pop()
        yield r
        stack.extend(r.children.values())


IGNORED_NOTES = {'dependentSchemas'}


def note_key(n, old=False):
    """Annotation in a canonical form that ignores representations the specification leaves open."""
    k, ipath, epath, v = n
    if k in ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties') and isinstance(v, list):
        v = sorted(v)
    return k, ipath, epath, json.dumps(v, sort_keys=True)


def verdicts(ctx, bench, value, version, instances, docs=None, label=''):
    """Compare the verdicts of schema `value` on `instances`.  Returns the pair (valid, invalid) counts."""
    ev, node = ref(value, version, docs)
    n = [0, 0]
    with bench.catalog.cache() as cid:
        schema = bench.real(value, version, cid)
        for inst in instances:
            want = ev.run(node, inst).valid
            got = schema.evaluate(JSON(fresh(inst))).valid
            ctx.step()
            n[want] += 1
            if got is not want:
                ctx.violation(f'{version}{label} {json.dumps(value)} on {json.dumps(inst)[:300]}: evaluates to {got}, the specification says {want}',
                              detail={'schema': value, 'instance': repr(inst), 'dialect': version, 'docs': docs, 'expected': want, 'got': got})
    return n


def ptr(text):
    """Keys of a JSON Pointer, by our own reading of RFC 6901; None if malformed."""
    if text == '':
        return ()
    if text[0] != '/':
        return None
    return tuple(t.replace('~1', '/').replace('~0', '~') for t in text[1:].split('/'))


def wanted_notes(out, version):
    import collections
    c = collections.Counter()
    for k, ipath, epath, where, v in out.notes:
        if k in IGNORED_NOTES or (version == '2019-09' and k == 'contains'):
            continue
        c[canon_note(k, ipath, epath, v)] += 1
    return c


def canon_note(k, ipath, epath, v):
    if k in ('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties') and isinstance(v, list):
        v = sorted(map(str, v))
    return k, ipath, epath, json.dumps(v, sort_keys=True)


def got_note(k, ipath, epath, v, inst, version):
    """Annotation as reported, with equivalent representations unified."""
    from gen import ptr_get
    if k in ('prefixItems', 'items') and type(v) is int:
        at = ptr_get(inst, ipath)
        if isinstance(at, list) and v == len(at) - 1:
            v = True
    if k == 'contains' and v is True:
        v = list(range(len(ptr_get(inst, ipath))))
    return canon_note(k, ipath, epath, v)
