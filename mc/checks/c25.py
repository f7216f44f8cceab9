"""C25: fault injection at every load, keyword and depth of schema construction; then retry, repair and retry."""
import gc
import itertools
import json
import sys

from jschon import JSON, Catalog, JSONSchema, URI, create_catalog
from jschon.catalog import Source
from jschon.exc import CatalogError

import env
import evalcheck
import refuri
import sizes

MEANING = ('states: distinct (document graph, cache contents before, request, fault) combinations; transitions: requests made to the real catalog; traces: fault '
           'histories (fail, fail again, repair, succeed) after each step of which every identifier was looked up in every cache with the source switched off, '
           'and compared with what was there before')
BOUNDS = {
    'quick': '12 document graphs (chains, diamonds, cycles, embedded resources, dynamic and recursive references, metaschemas of metaschemas) x up to 4 states of the cache x every '
             'request; each of 18 faults in every document, every pair of 4 faults in two documents, 9 kinds of exception at every load, an exception in the constructor '
             'or resolver of every keyword occurrence, every recursion depth at which Python runs out of stack; every file missing while a catalog is created; '
             'caches and documents of 9 to 257 schemas, chains of 5 to 65 documents, with faults at the start, within and at the end',
    'thorough': 'as quick, with all pairs of 18 faults, and each of the pairs with either repair first'}
ASSUMPTIONS = ['a complete, valid metaschema that was loaded on the way to a failure may stay cached',
               'loaded documents are not changed by the source after loading']

M20, M19 = evalcheck.META['2020-12'], evalcheck.META['2019-09']
V = 'https://json-schema.org/draft/2020-12/vocab/'
VOC = {V + 'core': True, V + 'applicator': True, V + 'validation': True}

# name -> (version, documents by name, roots, instances); '@' stands for the base URI of the run
GRAPHS = {
    'chain': ('2020-12', {'r': {'properties': {'p': {'$ref': 'a'}}}, 'a': {'$ref': 'b'}, 'b': {'type': 'string', '$ref': 'c#/$defs/x'},
                          'c': {'$defs': {'x': {'minLength': 2}}}}, ['r', 'a', 'r#/properties/p', 'c#/$defs/x', 'b#']),
    'diamond': ('2020-12', {'r': {'allOf': [{'$ref': 'a'}, {'$ref': 'b#t'}]}, 'a': {'properties': {'p': {'$ref': 'c'}}},
                            'b': {'$defs': {'t': {'$anchor': 't', 'properties': {'p': {'$ref': 'c#u'}}}}}, 'c': {'minLength': 2, '$defs': {'u': {'$anchor': 'u', 'type': 'string'}}}},
                ['r', 'b#t', 'c#u']),
    'cycle': ('2020-12', {'r': {'properties': {'p': {'$ref': 'a'}}}, 'a': {'properties': {'p': {'$ref': 'b'}}, 'type': ['object', 'string']},
                          'b': {'properties': {'p': {'$ref': 'a'}}, 'required': ['p']}}, ['r', 'a', 'b#/properties/p']),
    'self': ('2020-12', {'r': {'$anchor': 'top', 'properties': {'p': {'$ref': '#top'}}, 'type': 'object', '$defs': {'e': {'$id': 'e', '$ref': 'r'}}}}, ['r', 'r#top', 'r#/$defs/e']),
    'embedded': ('2020-12', {'r': {'$defs': {'e': {'$id': 'sub/e', '$defs': {'k': {'$anchor': 'k', '$ref': '../a'}}, 'properties': {'p': {'$ref': '#k'}}}}, '$ref': 'sub/e'},
                             'a': {'$id': '@a', '$ref': 'sub/f', '$defs': {'f': {'$id': 'sub/f', 'type': 'string', '$ref': '../b'}}}, 'b': {'minLength': 2}},
                 ['r', 'a', 'r#/$defs/e']),
    'moved': ('2020-12', {'r': {'$id': '@n', '$ref': 'a'}, 'a': {'$id': '@m', 'properties': {'p': {'$ref': 'b'}}}, 'b': {'minLength': 2, '$id': '@b'}}, ['r', 'a']),
    'dynamic': ('2020-12', {'r': {'$dynamicRef': 'a#n', '$defs': {'s': {'$dynamicAnchor': 'n', 'properties': {'p': {'type': 'string'}}}}},
                            'a': {'$defs': {'n': {'$dynamicAnchor': 'n', '$ref': 'b'}}}, 'b': {'minProperties': 1}}, ['r', 'a#n']),
    'recursive': ('2019-09', {'r': {'$recursiveAnchor': True, 'type': ['object', 'string'], '$ref': 'a'},
                              'a': {'$recursiveAnchor': True, 'properties': {'p': {'$recursiveRef': '#'}}, '$ref': 'b'}, 'b': {'maxProperties': 1}}, ['r', 'a']),
    'meta': ('2020-12', {'r': {'$schema': '@m', 'properties': {'p': {'minLength': 2}}, 'unevaluatedProperties': False},
                         'm': {'$id': '@m', '$schema': M20, '$vocabulary': VOC, '$dynamicAnchor': 'meta', '$ref': 'n'}, 'n': {'$schema': M20, 'type': ['object', 'boolean']}},
             ['r', 'r#/properties/p', 'm!', 'm+']),
    'metameta': ('2020-12', {'r': {'$schema': '@m', 'properties': {'p': {'minLength': 2, '$ref': 'a'}}}, 'a': {'$schema': '@o', 'type': 'string'},
                             'm': {'$schema': '@o', '$vocabulary': VOC, 'type': ['object', 'boolean']},
                             'o': {'$schema': M20, '$vocabulary': VOC, 'type': ['object', 'boolean'], '$dynamicAnchor': 'meta'}}, ['r', 'a', 'm!', 'o+', 'm+']),
    'submeta': ('2020-12', {'r': {'properties': {'p': {'$id': 'sub/e', '$schema': '@m', 'minLength': 2, '$ref': '../a'}}}, 'a': {'type': 'string'},
                            'm': {'$id': '@m', '$schema': M20, '$vocabulary': VOC, 'type': ['object', 'boolean']}}, ['r', 'm!']),
    'mixed': ('2019-09', {'r': {'items': [{'$ref': 'a'}], 'properties': {'p': {'$ref': 'a'}}}, 'a': {'$schema': M20, '$id': '@a', '$dynamicRef': 'b#z'},
                          'b': {'$anchor': 'z', 'type': 'string'}}, ['r', 'a']),
}
INSTANCES = [{}, {'p': 'a'}, {'p': 'ab'}, {'p': {'p': 'ab'}}, {'q': 1, 'p': 1}, 'a', ['ab'], [1]]

FAULTS = {
    'missing': None,
    'list': [], 'number': 1, 'null': None, 'string': 'x',
    'ref': {'$ref': 'nowhere'}, 'pointer': {'$ref': '#/nope'}, 'anchor': {'$ref': '#nope'}, 'dynref': {'$dynamicRef': '#nope'},
    'id': {'$id': '#x'}, 'regex': {'pattern': '('}, 'notschema': {'not': 'x'}, 'items': {'allOf': [{}, 7]}, 'schema': {'$id': 'deep/z', '$schema': '@unknown', 'title': ''},
    'relschema': {'$id': 'deep/z', '$schema': 'rel', 'title': ''}, 'idtype': {'$id': 5}, 'reftype': {'$ref': 5}, 'props': {'properties': {'a': {'$id': 'deep/y'}, 'b': 0}}}
PAIRED = ('missing', 'list', 'ref', 'regex')
METAFAULTS = {'invalid': {'type': ['object', 'boolean'], '$vocabulary': {**VOC, V + 'core': True}, 'minLength': -1}, 'vocab': {'$vocabulary': {**VOC, '@unknownvocab': True}},
              'nocore': {'$vocabulary': {V + 'validation': True}}, 'corefalse': {'$vocabulary': {**VOC, V + 'core': False}}}
EXCS = [CatalogError('e'), OSError('e'), ValueError('e'), KeyError('e'), RuntimeError('e'), MemoryError(), RecursionError('e'), KeyboardInterrupt(), SystemExit(3)]
LEAK = ('chain', 'diamond', 'self', 'embedded', 'dynamic', 'recursive')
serial = 0
bench = last = None


class Boom(Exception):
    pass


class Off(Exception):
    pass


class Faulty(Source):
    def __init__(self):
        super().__init__()
        self.docs, self.loads, self.at, self.exc, self.off = {}, [], None, None, False

    def __call__(self, rel):
        if self.off:
            raise Off()
        self.loads.append(rel)
        if self.at is not None and len(self.loads) == self.at:
            raise self.exc
        if rel not in self.docs:
            raise CatalogError(f'no document {rel}')
        return json.loads(json.dumps(self.docs[rel]))


def setup(ctx):
    global bench
    bench = create_catalog('2019-09', '2020-12', name='c25')
    gc.freeze()


def at(value, base):
    return json.loads(json.dumps(value).replace('"@', '"' + base))


def requests(g):
    version, docs, roots = GRAPHS[g]
    for r in roots:
        if r.endswith('!'):
            yield 'get_metaschema', r[:-1]
        elif r.endswith('+'):
            yield 'create_metaschema', r[:-1]
        else:
            yield 'get', r
            if '#' not in r:
                yield 'build', r


def pres(g):
    docs = list(GRAPHS[g][1])
    return ['none', 'other', 'old'] + ([f'have:{docs[-1]}'] if g in ('chain', 'diamond', 'embedded', 'moved', 'dynamic', 'recursive') else [])


def cases(tier):
    deep = tier == 'thorough'
    for g in GRAPHS:
        for req in requests(g):
            for pre in pres(g):
                yield ['single', g, list(req), pre]
                yield ['loads', g, list(req), pre]
            docs = list(GRAPHS[g][1])
            for d, e in itertools.combinations(docs, 2):
                yield ['pair', g, list(req), d, e, deep]
            yield ['keywords', g, list(req)]
            yield ['depth', g, list(req)]
    for g in LEAK:
        for req in requests(g):
            yield ['leak', g, list(req)]
    yield ['versions']
    for i in range(6):
        yield ['files', i]
    for n in sizes.SIZES:
        yield ['many', n]
    for d in sizes.DEPTH:
        yield ['long', d]


class Run:
    """One catalog cache with a fresh set of URIs."""

    def __init__(self, g, req, pre, ctx, label):
        global serial, last
        serial += 1
        if last:
            last.drop()
        last = self
        self.g, self.kind, self.target, self.ctx = g, req[0], req[1], ctx
        self.version, docs, _ = GRAPHS[g]
        self.base = f'https://f.org/{serial}/'
        self.good = {self.base + k: at(v, self.base) for k, v in docs.items()}
        self.src = Faulty()
        self.src.docs = dict(self.good)
        bench.add_uri_source(None, self.src)
        self.cid = f'c{serial}'
        self.text = f'{g} {req} {pre} {label}'
        self.m = URI(evalcheck.META[self.version])
        self.kept, self.uris = {}, None
        if pre == 'other':
            for u in ('https://o.org/x', 'urn:o:y'):
                self.kept[u] = JSONSchema({'$anchor': 'w', 'type': 'string'}, catalog=bench, cacheid=self.cid, uri=URI(u), metaschema_uri=self.m)
                self.kept[u + '#w'] = self.kept[u]
        elif pre == 'old':
            ids = {'build': [self.target]}.get(self.kind, []) + ['old']
            for i in ids:
                u = self.base + i
                self.kept[u] = JSONSchema({'$anchor': 'top', 'type': 'string'}, catalog=bench, cacheid=self.cid, uri=URI(u), metaschema_uri=self.m)
                self.kept[u + '#top'] = self.kept[u]
        elif pre.startswith('have:'):
            bench.get_schema(URI(self.base + pre[5:]), cacheid=self.cid, metaschema_uri=self.m)
            self.kept = {u: s for u, s in self.snapshot().items() if s is not None}
            self.uris = None
        self.before = self.snapshot()
        self.metas_before = self.metas()
        self.src.loads = []

    def drop(self):
        for u, uri in self.uris or ():
            for cid in (self.cid, '__meta__'):
                bench.del_schema(uri, cacheid=cid)

    def ids(self):
        out = set(self.kept)
        for d in list(self.good):
            stack = [(d, self.good[d])]
            out.add(d)
            while stack:
                b, v = stack.pop()
                if isinstance(v, dict):
                    if isinstance(v.get('$id'), str):
                        b = refuri.resolve(b, v['$id'])
                        out.add(b)
                    for k in ('$anchor', '$dynamicAnchor'):
                        if k in v:
                            out |= {b + '#' + v[k], d + '#' + v[k]}
                    stack += [(b, x) for x in v.values()]
                elif isinstance(v, list):
                    stack += [(b, x) for x in v]
        return out | {self.base + x for x in ('deep/z', 'deep/y', 'nowhere', 'unknown')} | {self.base + 'r#/properties/p'}

    def snapshot(self):
        self.src.off = True
        snap = {}
        if self.uris is None:
            self.uris = [(u, URI(u)) for u in sorted(self.ids())]
        main = self.base + self.target
        for cid in (self.cid, 'default', self.cid + 'other'):
            for u, uri in self.uris:
                if cid != self.cid and u != main:
                    continue
                try:
                    s = bench.get_schema(uri, cacheid=cid, metaschema_uri=self.m)
                except CatalogError:
                    s = None
                if cid == self.cid:
                    snap[u] = s
                elif s is not None:
                    self.ctx.violation(f'{self.text}: {u} is found in the cache {cid!r}')
        self.src.off = False
        return snap

    def metas(self):
        self.src.off = True
        out = {}
        for n in ('m', 'o', 'n', 'a', 'r', 'unknown'):
            u = self.base + n
            try:
                out[u] = bench.get_schema(URI(u), cacheid='__meta__')
            except CatalogError:
                out[u] = None
        self.src.off = False
        return out

    def request(self):
        self.ctx.step()
        self.src.loads = []
        u = URI(self.base + self.target)
        if self.kind == 'get':
            return bench.get_schema(u, cacheid=self.cid, metaschema_uri=self.m)
        if self.kind == 'build':
            doc = self.src.docs.get(str(u))
            return JSONSchema(json.loads(json.dumps(doc if isinstance(doc, dict) else self.good[str(u)])), catalog=bench, cacheid=self.cid, uri=u, metaschema_uri=self.m)
        if self.kind == 'get_metaschema':
            return bench.get_metaschema(u)
        return bench.create_metaschema(u)

    def attempt(self):
        try:
            return None, self.request()
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            return e, None

    def unchanged(self, when):
        after = self.snapshot()
        bad = [u for u in after if after[u] is not self.before[u]]
        self.ctx.check(not bad, f'{self.text}: {when}, the cache entries of {bad} have changed')
        for u, s in self.kept.items():
            self.ctx.check(type(s.evaluate(JSON('x')).valid) is bool, f'{self.text}: {when}, {u} no longer evaluates')

    def metas_unchanged(self, when, broken):
        """Only metaschemas all of whose documents are sound may have been added."""
        after = self.metas()
        for u, s in after.items():
            if s is not self.metas_before[u] and (s is None or self.metas_before[u] is not None or closure(self, u) & broken):
                self.ctx.violation(f'{self.text}: {when}, the metaschema cache entry of {u} has changed')

    def fine(self, want, when):
        e, s = self.attempt()
        if not self.ctx.check(e is None, f'{self.text}: {when}, the request fails: {e!r}'):
            return
        got = outcome(s, self.base, serial % 4 == 0)
        self.ctx.check(got == want[:len(got)], f'{self.text}: {when}, the evaluation differs from that in a fresh catalog: {diff(want, got)}')
        if self.kind in ('get', 'build') and '#' not in self.target:
            canon = refuri.resolve(self.base, self.good[self.base + self.target].get('$id', self.target)) if isinstance(self.good[self.base + self.target], dict) else None
            self.src.off = True
            try:
                self.ctx.check(bench.get_schema(URI(canon), cacheid=self.cid) is s, f'{self.text}: {when}, {canon} is not the schema constructed')
            except CatalogError as e:
                self.ctx.violation(f'{self.text}: {when}, {canon} is not cached: {e!r}')
            self.src.off = False


def closure(run, u):
    """Documents reachable from metaschema document u."""
    seen, todo = set(), [u]
    while todo:
        x = todo.pop()
        if x in seen or x not in run.good:
            continue
        seen.add(x)
        text = json.dumps(run.good[x])
        for y in run.good:
            n = y[len(run.base):]
            if f'"{y}"' in text or f'"{n}"' in text:
                todo.append(y)
    return seen


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f'{x[:300]} / {y[:300]}'
    return ''


def outcome(s, base, full=True):
    out = []
    for i in INSTANCES:
        r = s.evaluate(JSON(i))
        out.append(json.dumps([r.valid, r.output('basic'), str(s.uri), str(s.canonical_uri)], default=str, sort_keys=True).replace(base, '@/'))
    if full:
        out.append(json.dumps([s.validate().valid, type(s).__name__]))
    return out


pristine = {}


def expected(g, req, ctx, pre='none'):
    """What the request gives in an undisturbed cache, and the documents it loads."""
    k = (g, tuple(req), pre)
    if k not in pristine:
        run = Run(g, req, pre, ctx, 'pristine')
        s = run.request()
        pristine[k] = outcome(s, run.base), [u[len(run.base):] for u in run.src.loads]
        # asking again finds the same, unless a new schema is constructed
        if req[0] in ('get', 'get_metaschema') and g != 'moved':
            ctx.check(run.request() is s and not run.src.loads, f'{k}: a second request loads again')
    return pristine[k]


def spoil(doc, fault, base):
    if fault in METAFAULTS:
        new = dict(doc)
        new.update(at(METAFAULTS[fault], base))
        return new
    f = FAULTS[fault]
    if not isinstance(f, dict):
        return f
    if isinstance(doc, dict):
        new = dict(doc)
        new['$defs'] = {**doc.get('$defs', {}), 'zz': at(f, base)}
        return new
    return doc


def apply(run, faults):
    """Put the faults {document: fault} into the source; the model's answer: does the request see one?"""
    for d, f in faults.items():
        u = run.base + d
        if f == 'missing':
            run.src.docs.pop(u, None)
        else:
            run.src.docs[u] = spoil(run.good[u], f, run.base)


def seen_faults(run, faults, loads):
    touched = set(loads)
    if run.kind == 'build':
        touched.add(run.target)
    return {d: f for d, f in faults.items() if d in touched and not (f in ('missing', 'list', 'number', 'null', 'string') and run.kind == 'build' and d == run.target)}


def kinds(g, d):
    out = list(FAULTS)
    if GRAPHS[g][0] == '2019-09' and d != 'a' or g == 'recursive':
        out.remove('dynref')      # not a keyword of 2019-09
    if d in ('m', 'o'):
        out += [f for f in METAFAULTS if f != 'invalid' or g != 'metameta' or d == 'o']
    return out


def history(run, faults, repairs, loads, want):
    """fail, fail again, repair one by one"""
    ctx = run.ctx
    ctx.trace()
    ctx.state((run.g, run.kind, run.target, run.text, tuple(faults.items())))
    apply(run, faults)
    left = dict(faults)
    for d in repairs + [None]:
        live = seen_faults(run, left, loads)
        if live:
            errs = []
            for turn in range(2):
                e, s = run.attempt()
                if not ctx.check(e is not None, f'{run.text}: {left}: no error from the request, attempt {turn + 1}'):
                    return
                ctx.check(isinstance(e, Exception), f'{run.text}: {left}: {e!r}')
                if any(f in ('missing', 'list', 'number', 'null', 'string') for f in live.values()) and len(live) == 1:
                    ctx.check(isinstance(e, CatalogError), f'{run.text}: {left}: {e!r} instead of a CatalogError')
                errs.append((type(e), str(e)))
                e = None
                run.unchanged(f'after failure {turn + 1} of {left}')
                run.metas_unchanged(f'after failure {turn + 1} of {left}', {run.base + x for x in left})
            ctx.check(errs[0] == errs[1], f'{run.text}: {left}: fails first with {errs[0]}, then with {errs[1]}')
            ctx.outcome(errs[0][0].__name__)
        elif d is not None and len(left) == len(faults):
            return      # no fault is visible to this request
        else:
            break
        if d is None:
            break
        del left[d]
        run.src.docs[run.base + d] = run.good[run.base + d]
    run.fine(want, f'after the repair of {faults}')


def failing(ctx, text, cid, build, kept, gone, m):
    """`build` fails twice and leaves everything as it was."""
    for turn in range(2):
        try:
            build()
            e = None
        except Exception as x:
            e = type(x)
        ctx.step()
        ctx.outcome(getattr(e, '__name__', None))
        if not ctx.check(e is not None, f'{text}: no error, attempt {turn + 1}'):
            return
        source.off = True
        lost = [u for u, s in kept.items() if lookup(u, cid, m) is not s]
        left = [u for u in gone if lookup(u, cid, m) is not None]
        source.off = False
        ctx.check(not lost, f'{text}: after failure {turn + 1}, {len(lost)} cache entries have changed: {lost[:3]}')
        ctx.check(not left, f'{text}: after failure {turn + 1}, {len(left)} entries are new in the cache: {left[:3]}')


def lookup(u, cid, m):
    try:
        return bench.get_schema(URI(u), cacheid=cid, metaschema_uri=m)
    except CatalogError:
        return None


source = Faulty()


def sized(case, ctx):
    """Caches of n schemas; documents with n subschemas; chains of d documents, the fault at the end."""
    global serial
    serial += 1
    kind, n = case
    base, cid = f'https://f.org/{serial}/', f'c{serial}'
    bench.add_uri_source(None, source)
    for v in ('2020-12', '2019-09'):
        m = URI(evalcheck.META[v])
        source.docs = {}
        kept = {}
        for i in range(n if kind == 'many' else 3):
            u = f'{base}{v}/have{i}'
            kept[u] = JSONSchema({'$anchor': 'w', 'const': i}, catalog=bench, cacheid=cid, uri=URI(u), metaschema_uri=m)
            if i % 7 == 0:
                kept[u + '#w'] = kept[u]
        root = f'{base}{v}/root'
        if kind == 'many':
            subs = {f'k{i}': {'$id': f'k{i}', '$anchor': 'x', 'const': i} for i in range(n)}
            good = {'$defs': subs, '$ref': f'k{n - 1}'}
            gone = [root] + [f'{base}{v}/k{i}' for i in range(n)] + [f'{base}{v}/k{n - 1}#x', f'{base}{v}/k0#x']
            bads = [{**good, 'allOf': [{'$ref': 'nowhere'}]}, {**good, '$defs': {**subs, 'zz': {'$ref': '#/nope'}}}, {'$defs': {'zz': {'pattern': '('}, **subs}}]
            docs = [{}] * len(bads)
            accepts = n - 1
        else:
            chain = {f'{base}{v}/d{i}': {'$anchor': 'x', '$ref': f'd{i + 1}', '$defs': {'e': {'$id': f'e{i}', 'type': 'integer'}}} for i in range(n)}
            chain[f'{base}{v}/d{n}'] = {'const': 7}
            good = {'$ref': 'd0'}
            gone = [root] + [u + f for u in chain for f in ('', '#x')] + [f'{base}{v}/e{i}' for i in range(n)]
            gone = [u for u in gone if u != f'{base}{v}/d{n}#x']
            faults = [(n, None), (n // 2, None), (1, None), (n, 5), (n, {'$ref': 'nowhere'}), (n - 1, {'$ref': '#/nope', '$anchor': 'x'}), (n // 2, {'pattern': '(', '$anchor': 'x', '$ref': f'd{n // 2 + 1}'})]
            docs = []
            for k, f in faults:
                d = {**chain, f'{base}{v}/d{k}': f}
                docs.append({u: x for u, x in d.items() if x is not None})
            bads = [good] * len(faults)
            accepts = 7
        for k, (bad, d) in enumerate(zip(bads, docs)):
            text = f'{v} {case} fault {k}'
            ctx.state(text)
            ctx.trace()
            for way in ('build', 'get'):
                source.docs = dict(d) if way == 'build' else {**d, root: bad}
                make = (lambda: JSONSchema(json.loads(json.dumps(bad)), catalog=bench, cacheid=cid, uri=URI(root), metaschema_uri=m)) if way == 'build' else \
                    (lambda: bench.get_schema(URI(root), cacheid=cid, metaschema_uri=m))
                failing(ctx, f'{text} {way}', cid, make, kept, [u for u in gone if u not in kept], m)
        source.docs = {root: good, **(chain if kind == 'long' else {})}
        s = bench.get_schema(URI(root), cacheid=cid, metaschema_uri=m)
        got = [s.evaluate(JSON(x)).valid for x in (accepts, accepts + 1)]
        ctx.check(got == [True, False], f'{v} {case}: after the repair, the verdicts are {got}')
        lost = [u for u, x in kept.items() if lookup(u, cid, m) is not x]
        ctx.check(not lost and lookup(root, cid, m) is s, f'{v} {case}: after the repair, {len(lost)} cache entries have changed')
        for u in [*kept, *gone]:
            bench.del_schema(URI(u), cacheid=cid)


def run_case(case, ctx):
    kind = case[0]
    if kind in ('many', 'long'):
        sized(case, ctx)
        return
    if kind == 'single':
        _, g, req, pre = case
        want, loads = expected(g, req, ctx, pre)
        for d in GRAPHS[g][1]:
            for f in kinds(g, d):
                run = Run(g, req, pre, ctx, '')
                history(run, {d: f}, [d], loads, want)
        return
    if kind == 'pair':
        _, g, req, d, e, deep = case
        want, loads = expected(g, req, ctx)
        for f1 in kinds(g, d):
            for f2 in kinds(g, e):
                if not deep and not (f1 in PAIRED and f2 in PAIRED):
                    continue
                for order in ([d, e], [e, d]) if deep or f1 == f2 else ([d, e],):
                    run = Run(g, req, 'none', ctx, '')
                    history(run, {d: f1, e: f2}, order, loads, want)
        return
    if kind == 'loads':
        _, g, req, pre = case
        want, loads = expected(g, req, ctx, pre)
        for k in range(1, len(loads) + 1):
            for exc in EXCS:
                run = Run(g, req, pre, ctx, '')
                ctx.trace()
                ctx.state((g, tuple(req), pre, k, repr(exc)))
                run.src.at, run.src.exc = k, exc
                for turn in range(2):
                    e, s = run.attempt()
                    ctx.check(e is not None and (isinstance(e, CatalogError) if isinstance(exc, Exception) else e is exc),
                              f'{run.text}: {exc!r} at load {k}: the request gives {e!r}')
                    ctx.outcome(type(e).__name__)
                    e = None
                    run.unchanged(f'after {exc!r} at load {k}')
                    run.metas_unchanged(f'after {exc!r} at load {k}', {run.base + loads[k - 1]})
                    if run.kind not in ('get', 'build') or 'meta' in g:
                        break
                run.src.at = None
                run.fine(want, f'after {exc!r} at load {k}')
        return
    if kind == 'keywords':
        _, g, req = case
        want, loads = expected(g, req, ctx)
        run = Run(g, req, 'none', ctx, '')
        n = watch(run.attempt, None)
        ctx.check(n > 0, f'{g} {req}: no keyword was constructed')
        for pre in ('none', 'old'):
            for k in range(1, n + 1):
                run = Run(g, req, pre, ctx, '')
                ctx.trace()
                ctx.state((g, tuple(req), pre, 'kw', k))
                res = []
                watch(lambda: res.append(run.attempt()[0]), k)
                if res[0] is None:
                    continue
                ctx.check(isinstance(res.pop(), Boom), f'{run.text}: exception in keyword call {k} is replaced')
                run.unchanged(f'after an exception in keyword call {k}')
                run.fine(want, f'after an exception in keyword call {k}')
        ctx.outcome(n)
        return
    if kind == 'depth':
        _, g, req = case
        want, loads = expected(g, req, ctx)
        limit = sys.getrecursionlimit()
        failures = 0
        for extra in range(15, 900, 3):
            run = Run(g, req, 'old', ctx, '')
            ctx.trace()
            ctx.state((g, tuple(req), 'depth', extra))
            res = []
            depth, f = 0, sys._getframe()
            while f:
                depth, f = depth + 1, f.f_back
            sys.setrecursionlimit(depth + extra)
            try:
                e, s = run.attempt()
            finally:
                sys.setrecursionlimit(limit)
            if e is None:
                break
            failures += 1
            e = None
            run.unchanged(f'after running out of stack ({extra} frames)')
            run.fine(want, f'after running out of stack ({extra} frames)')
        # how deep a construction goes is not a property
        ctx.outcome(failures)
        return
    if kind == 'leak':
        leak(case[1], case[2], ctx)
    elif kind == 'versions':
        versions(ctx)
    else:
        files(case[1], ctx)


def watch(fn, k):
    """Count the calls of keyword constructors and resolvers; raise Boom in the k-th."""
    count = 0
    vocab = env.REPO.rstrip('/') + '/jschon/vocabulary/'

    def prof(frame, event, arg):
        nonlocal count
        if event == 'call' and frame.f_code.co_name in ('__init__', 'resolve') and frame.f_code.co_filename.startswith(vocab) \
                and 'Keyword' in type(frame.f_locals.get('self')).__name__:
            count += 1
            if count == k:
                sys.setprofile(None)
                raise Boom()
    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return count


def alive():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o) is JSONSchema)


def leak(g, req, ctx):
    """No schema object survives a failure."""
    expected(g, req, ctx)
    for d in GRAPHS[g][1]:
        for f in ('missing', 'ref', 'regex', 'items'):
            for anon in (False, True):
                run = Run(g, req, 'none', ctx, '')
                apply(run, {d: f})
                n = alive()
                if anon:    # no URI: a random one is given to the schema
                    try:
                        JSONSchema({'properties': {'p': {'$ref': run.base + d}}, '$defs': {'a': {'$anchor': 'a'}, 'z': {'pattern': '('}}}, catalog=bench, cacheid=run.cid, metaschema_uri=run.m)
                        e = None
                    except Exception as x:
                        e = type(x)
                else:
                    e = run.attempt()[0]
                    e = e and type(e)
                ctx.step()
                ctx.trace()
                ctx.state((g, tuple(req), d, f, anon))
                if e is not None:
                    m = alive()
                    ctx.check(m == n, f'{run.text} {d} {f} anonymous={anon}: {m - n} schema objects survive the failure')
                ctx.outcome(e and e.__name__)


def versions(ctx):
    for good in ((), ('2020-12',), ('2019-09', '2020-12')):
        for bad in ('bogus', '', '2020', '2020-12 ', None, 'draft-07', 5):
            for pos in range(len(good) + 1):
                cat = create_catalog('2020-12', name='c25v')
                s = JSONSchema({'type': 'string'}, catalog='c25v', uri=URI('urn:v:s'), metaschema_uri=URI(M20))
                ctx.step()
                ctx.trace()
                ctx.state((good, bad, pos))
                for turn in range(2):
                    try:
                        create_catalog(*good[:pos], bad, *good[pos:], name='c25v')
                        ctx.violation(f'create_catalog accepts the version {bad!r}')
                    except (ValueError, TypeError) as e:
                        ctx.outcome(type(e).__name__)
                    ctx.check(Catalog.get_catalog('c25v') is cat and cat.get_schema(URI('urn:v:s')) is s, f'create_catalog with {bad!r} replaced the registered catalog')
                    try:
                        create_catalog(bad, name='c25w')
                    except (ValueError, TypeError):
                        pass
                    try:
                        Catalog.get_catalog('c25w')
                        ctx.violation(f'create_catalog with {bad!r} registered a catalog')
                    except CatalogError:
                        pass


def files(i, ctx):
    """The i-th slice of the metaschema files is unreadable while a catalog is created; then it is readable again."""
    import builtins
    import io
    real = builtins.open
    names = []

    def opener(file, *a, **k):
        s = str(file)
        if 'json-schema-' in s or 'metaschemas' in s:
            names.append(s)
            if len(names) == opener.at:
                raise FileNotFoundError(2, 'No such file', s)
        return real(file, *a, **k)
    versions = [('2020-12',), ('2019-09',), ('2019-09', '2020-12')]
    try:
        builtins.open = io.open = opener
        for vs in versions:
            opener.at = None
            names.clear()
            create_catalog(*vs, name='c25f')
            n = len(names)
            ctx.check(n > 3, 'no metaschema file was opened')
            for k in range(1 + i, n + 1, 6):
                names.clear()
                opener.at = k
                ctx.step()
                ctx.trace()
                ctx.state((vs, k))
                try:
                    create_catalog(*vs, name='c25f')
                    ctx.violation(f'create_catalog{vs}: missing file {k} goes unnoticed')
                except CatalogError:
                    ctx.outcome('CatalogError')
                opener.at = None
                names.clear()
                cat = create_catalog(*vs, name='c25f')
                ctx.check(len(names) == n, f'create_catalog{vs} after a failure loads {len(names)} files, not {n}')
                for v in vs:
                    s = JSONSchema({'type': 'string', 'properties': {'a': {'minLength': 1}}}, catalog=cat, metaschema_uri=URI(evalcheck.META[v]))
                    ctx.check(s.validate().valid and not s.evaluate(JSON(1)).valid and s.evaluate(JSON('')).valid, f'create_catalog{vs} after a failure: wrong evaluation')
    finally:
        builtins.open = io.open = real
