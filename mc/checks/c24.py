"""C24: histories of schema-cache operations over two catalogs, several caches and URIs, against a model of nested dictionaries."""
import contextlib
import itertools

from jschon import JSON, JSONSchema, URI
from jschon.exc import CatalogError

import evalcheck
import sizes
from gen import fresh

MEANING = ('states: distinct model states (contents of every cache); transitions: cache operations by the real code; traces: histories after each of '
           'whose steps every URI was looked up in every cache of both catalogs, and found to be the very object the model holds, to be loaded, or to be refused')
BOUNDS = {
    'quick': 'every history of 3 operations out of 46, and of 4 out of 14 (construct, load, add, delete, re-identify, fail, open and close scopes normally and by exception), '
             'over 2 catalogs, 2 caches each and 9 URIs in two spellings; caches of n schemas, n caches and schemas of n parts, at 32 sizes n up to 1025',
    'thorough': 'also every history of 4 operations out of 30, and of 5 out of 14'}
ASSUMPTIONS = ['a cache whose identifier is in use stays in use while it holds schemas; caches emptied by deletions are not reopened']

B = 'https://example.com/c/'
U1, U2, U3 = B + 'one', B + 'two', 'urn:example:three'
ID, SUB, ANC = B + 'moved', B + 'sub/e', '#anc'
DOC, DOCID = B + 'doc', B + 'docid'
FORMS = {'plain': {'title': 'plain'}, 'id': {'$id': ID}, 'parts': {'$defs': {'e': {'$id': SUB}, 'a': {'$anchor': 'anc'}}}, 'bad': {'$id': ID, 'allOf': [{'$ref': 'nowhere'}]}}
DOCS = {DOC: 'parts', DOCID: 'id'}
PROBES = [U1, U2, U3, ID, SUB, U1 + '#anc', U1 + '#/$defs/e', U2 + '#', ID + '#anc', B + 'absent']
SPELL = {U1: 'HTTPS://EXAMPLE.com/c/x/../one', ID: 'https://EXAMPLE.com/c/./moved', U3: 'URN:example:three'}
META = URI(evalcheck.META['2020-12'])

C, K = (0, 1), ('d', 'x')
OPS = [('new', c, k, u, f) for c, k, u, f in [(0, 'd', U1, 'plain'), (0, 'd', U1, 'parts'), (0, 'd', U2, 'id'), (0, 'd', U2, 'parts'), (0, 'd', U1, 'bad'), (0, 'x', U1, 'plain'),
                                              (0, 'x', U2, 'id'), (1, 'd', U1, 'plain'), (1, 'd', U2, 'id'), (1, 'x', U1, 'parts'), (0, 'd', SUB, 'plain'), (0, 'd', ID, 'plain')]] + \
      [('add', c, k, u, t) for c, k, u, t in [(0, 'd', U1, -1), (0, 'd', U2, 0), (0, 'd', ID, 0), (0, 'x', U1, -1), (1, 'd', U1, 0), (1, 'x', U2, -1), (0, 'd', U1 + '#anc', -1), (0, 'd', U3, -1)]] + \
      [('del', c, k, u) for c, k, u in [(0, 'd', U1), (0, 'd', ID), (0, 'd', SUB), (0, 'x', U1), (1, 'd', U1), (0, 'd', U1 + '#anc'), (1, 'x', U2)]] + \
      [('uri', t, u) for t, u in [(-1, U1), (-1, U2), (-1, U3), (-1, None), (0, U2), (0, ID), (0, None)]] + \
      [('get', c, k, u) for c, k, u in [(0, 'd', DOC), (0, 'd', DOC + '#anc'), (0, 'd', DOCID), (0, 'x', DOC), (1, 'd', DOC + '#/$defs/e'), (0, 'd', B + 'absent')]] + \
      [('open', 0, 'x'), ('close', 0, 'x', False), ('close', 0, 'x', True), ('open', 1, 'x'), ('close', 1, 'x', True), ('open', 0, 'd')]
MID = [o for n, o in enumerate(OPS) if n not in (3, 6, 8, 9, 11, 14, 17, 19, 22, 23, 25, 29, 32, 35, 38, 45)]
CORE = [OPS[n] for n in (1, 2, 5, 7, 10, 12, 16, 21, 28, 30, 34, 40, 41, 42)]
SETS = {'all': OPS, 'mid': MID, 'core': CORE}
benches = []
serial = 0


class Boom(Exception):
    pass


def setup(ctx):
    benches[:] = [evalcheck.Bench('c24-a'), evalcheck.Bench('c24-b')]
    for b in benches:
        b.source.docs = {u: FORMS[f] for u, f in DOCS.items()}


def cases(tier):
    deep = tier == 'thorough'
    for name, n in [('all', 3), ('mid', 4), ('core', 5)] if deep else [('all', 3), ('core', 4)]:
        for i in range(len(SETS[name])):
            for j in range(len(SETS[name])):
                yield [name, n, i, j]
    yield ['default']
    for n in sizes.SIZES + sizes.LARGE:
        yield ['size', n]


class Tok:
    """A schema in the model; `real` is the object it stands for."""

    def __init__(self, home, uri, form):
        self.home, self.uri, self.form, self.real, self.parts = home, uri, form, None, {}


class Model:
    def __init__(self):
        self.stores = {}

    def key(self):
        names = {}
        return tuple(sorted((c, k, u, names.setdefault(id(t), len(names)), t.form) for (c, k), s in self.stores.items() for u, t in s.items()))

    def build(self, home, uri, form):
        s = self.stores.setdefault(home, {})
        saved = dict(s)
        t = Tok(home, uri, form)
        if uri is not None:
            s[uri] = t
        if form in ('id', 'bad'):
            if s.get(uri) is t:
                del s[uri]
            t.uri = ID
            s[ID] = t
        if form == 'parts':
            e, a = Tok(home, SUB, 'e'), Tok(home, None, 'a')
            s[SUB] = e
            s[uri + ANC] = a
            t.parts = {'/$defs/e': e, '/$defs/a': a}
        if form == 'bad':
            s.clear()
            s.update(saved)
            return None
        return t

    def bind(self, t, real):
        t.real = real
        for p, x in t.parts.items():
            x.real = real['$defs'][p[-1]]

    def reuri(self, t, u):
        s = self.stores.get(t.home, {})
        if t.uri == u:
            return
        if t.uri is not None and s.get(t.uri) is t:
            del s[t.uri]
        t.uri = u
        if u is not None:
            self.stores.setdefault(t.home, {})[u] = t

    def get(self, home, uri):
        """(token or None, the token built if one had to be loaded)"""
        s = self.stores.setdefault(home, {})
        uri = uri[:-1] if uri.endswith('#') and uri not in s else uri
        if uri in s:
            return s[uri], None
        base, _, frag = uri.partition('#')
        t, built = s.get(base), None
        if t is None:
            if base not in DOCS:
                return None, None
            t = built = self.build(home, base, DOCS[base])
            if uri in s:
                return s[uri], built
        return (t.parts.get(frag) if frag else t), built


def lookup(ctx, m, home, uri, spelled, text, ids):
    c, k = home
    want, built = m.get(home, uri)
    b = benches[c]
    n = len(b.source.loads)
    ctx.step()
    try:
        got = b.catalog.get_schema(URI(spelled), cacheid=ids[home], metaschema_uri=META)
    except CatalogError:
        got = None
    if want is None:
        ctx.check(got is None, f'{text}: {spelled} in cache {home} is found, although it is neither stored nor available')
        return
    if not ctx.check(got is not None, f'{text}: {spelled} in cache {home} is not found'):
        return
    if built is not None:
        ctx.check(len(b.source.loads) == n + 1, f'{text}: {spelled} in cache {home} is not loaded')
        m.bind(built, got if want is built else got.parent.parent)
        ctx.outcome('loaded')
    else:
        ctx.check(len(b.source.loads) == n, f'{text}: {spelled} in cache {home} is loaded although it is stored')
    ctx.check(got is want.real, f'{text}: {spelled} in cache {home} is another object than the one last stored there ({got!r} for {want.real!r})')


def history(ops, ctx):
    global serial
    serial += 1
    m = Model()
    toks, stacks = [], {}
    ids = {(c, k): ('c24', serial, k) for c in C for k in K}
    text = ' ; '.join(map(str, ops))
    base = contextlib.ExitStack()
    try:
        for c in C:
            base.enter_context(benches[c].catalog.cache(ids[c, 'd']))
            m.stores[c, 'd'] = {}
        for n, op in enumerate(ops):
            what = op[0]
            ctx.step()
            if what == 'new':
                _, c, k, u, f = op
                t = m.build((c, k), u, f)
                try:
                    real = JSONSchema(fresh(FORMS[f]), catalog=benches[c].catalog, cacheid=ids[c, k], uri=URI(u), metaschema_uri=META)
                except CatalogError:
                    real = None
                if not ctx.check((real is None) == (t is None), f'{text}: constructing {f} gives {real!r}'):
                    return
                if t is not None:
                    m.bind(t, real)
                    toks.append(t)
                elif not m.stores[c, k] and k == 'x' and (c, k) not in stacks:
                    del m.stores[c, k]
            elif what == 'add':
                _, c, k, u, i = op
                if not toks:
                    return
                m.stores.setdefault((c, k), {})[u] = toks[i]
                benches[c].catalog.add_schema(URI(u), toks[i].real, cacheid=ids[c, k])
            elif what == 'del':
                _, c, k, u = op
                s = m.stores.get((c, k), {})
                s.pop(u, None)
                benches[c].catalog.del_schema(URI(u), cacheid=ids[c, k])
            elif what == 'uri':
                _, i, u = op
                if not toks:
                    return
                m.reuri(toks[i], u)
                toks[i].real.uri = None if u is None else URI(u)
                ctx.check((toks[i].real.uri is None) if u is None else toks[i].real.uri == URI(u), f'{text}: the URI set on a schema is not its URI')
            elif what == 'get':
                _, c, k, u = op
                had = (c, k) in m.stores
                lookup(ctx, m, (c, k), u, u, text, ids)
                if not had and not m.stores[c, k]:
                    del m.stores[c, k]
            elif what == 'open':
                _, c, k = op
                if (c, k) in m.stores and not m.stores[c, k] and (c, k) not in stacks and k != 'd':
                    return                       # emptied by deletions
                taken = (c, k) in m.stores
                st = contextlib.ExitStack()
                try:
                    got = st.enter_context(benches[c].catalog.cache(ids[c, k]))
                    ok = True
                except CatalogError:
                    ok = False
                ctx.check(ok is not taken, f'{text}: opening cache {k} of catalog {c}, which is {"in use" if taken else "free"}, {"succeeds" if ok else "fails"}')
                if ok:
                    ctx.check(got == ids[c, k], f'{text}: the cache opened is {got!r}')
                    m.stores[c, k] = {}
                    stacks[c, k] = st
                if ok is taken:
                    return
            else:
                _, c, k, exc = op
                if (c, k) not in stacks:
                    return
                st = stacks.pop((c, k))
                m.stores.pop((c, k), None)
                try:
                    if exc:
                        with st:
                            raise Boom
                    else:
                        st.close()
                except Boom:
                    pass
                if not exc or True:
                    ctx.outcome('closed by exception' if exc else 'closed')
        ctx.state(m.key())
        ctx.trace()
        for home in ids:
            for u in PROBES:
                if home not in m.stores and u.startswith(DOC):
                    continue
                had = home in m.stores
                lookup(ctx, m, home, u, SPELL.get(u, u) if (len(ops) + serial) % 2 else u, text, ids)
                if not had and home in m.stores and not m.stores[home]:
                    del m.stores[home]
        # what the last lookups loaded is in this cache only
        lookup(ctx, m, (0, 'd'), DOC + '#anc', DOC + '#anc', text, ids)
        lookup(ctx, m, (0, 'd'), SUB, SUB, text, ids)
        lookup(ctx, m, (1, 'd'), SUB, SUB, text, ids)
    finally:
        for st in stacks.values():
            st.close()
        base.close()
        for (c, k), i in ids.items():
            if (c, k) in m.stores and k == 'x' and (c, k) not in stacks:
                for u in list(m.stores[c, k]):
                    benches[c].catalog.del_schema(URI(u), cacheid=i)
        for b in benches:
            b.source.loads.clear()


def default(ctx):
    """The cache used when none is named, nested scopes, generated identifiers."""
    n = itertools.count()
    for a, b in itertools.product(range(6), repeat=2):
        u = f'https://example.com/default/{next(n)}'
        cat, oth = benches[0].catalog, benches[1].catalog
        text = f'operations {a}, {b} on the default cache'
        s = JSONSchema({'title': 's'}, catalog=cat, uri=URI(u), metaschema_uri=META)
        want = s
        for op in (a, b):
            ctx.step()
            if op == 0:
                want = JSONSchema({'title': 't'}, catalog='c24-a', uri=URI(u), metaschema_uri=META)
            elif op == 1:
                cat.del_schema(URI(u))
                want = None
            elif op == 2:
                cat.add_schema(URI(u), s)
                want = s
            elif op == 3:
                with cat.cache() as c:
                    ctx.check(len({c, 'default', '__meta__'}) == 3, f'a scoped cache has the identifier {c!r}')
                    JSONSchema({'title': 'scoped'}, catalog=cat, cacheid=c, uri=URI(u), metaschema_uri=META)
                    with cat.cache() as d:
                        ctx.check(c != d, 'two scoped caches have one identifier')
                        cat.add_schema(URI(u), s, cacheid=d)
                    ctx.check(cat.get_schema(URI(u), cacheid=c)['title'].value == 'scoped', f'{text}: an inner scope shows in the outer')
            elif op == 4:
                JSONSchema({'title': 'other'}, catalog=oth, uri=URI(u), metaschema_uri=META)
            else:
                cat.del_schema(URI(u), cacheid='c24-nowhere')
                oth.del_schema(URI(u))
        ctx.trace()
        ctx.state(text)
        try:
            got = cat.get_schema(URI(u), metaschema_uri=META)
        except CatalogError:
            got = None
        ctx.check(got is want, f'{text}: found {got!r}, expected {want!r}')
        for k in ('default', '__meta__'):
            try:
                with cat.cache(k):
                    ctx.violation(f'the identifier {k!r} can be taken while in use')
            except CatalogError:
                pass


def sized(n, ctx):
    """A cache of n schemas, n caches, a schema of n parts: every one of them is found, in whatever order they are used."""
    global serial
    serial += 1
    cat = benches[0].catalog
    urls = [f'{B}size/{i}' for i in range(n)]

    def look(u, cid, want, text):
        ctx.step()
        try:
            got = cat.get_schema(URI(u), cacheid=cid, metaschema_uri=META)
        except CatalogError:
            got = None
        ctx.check(got is want, f'{text}: {u} is {got!r}, expected {want!r}')
    with cat.cache(('c24-size', serial)) as cid, cat.cache(('c24-other', serial)) as other:
        made = {u: JSONSchema({'title': u}, catalog=cat, cacheid=cid, uri=URI(u), metaschema_uri=META) for u in urls}
        text = f'a cache of {n} schemas'
        for u in urls:
            look(u, cid, made[u], text)
        for u in urls[::-1]:
            look(u, other, None, text + ', another cache')
        for i in sorted({0, 1, n // 2, n - 1}):
            cat.del_schema(URI(urls[i]), cacheid=cid)
            look(urls[i], cid, None, text + f' after {i} was deleted')
            made[urls[i]].uri = None
            made[urls[i]].uri = URI(urls[i] + '/moved')
            made[urls[i] + '/moved'] = made.pop(urls[i])
        for u, s in made.items():
            look(u, cid, s, text + ' after deletions and moves')
        ctx.trace()
        ctx.state(('schemas', n))
        u = B + 'parts'
        root = JSONSchema({'$defs': {f'd{i}': {'$anchor': f'a{i}'} if i % 2 else {'$id': f'part/{i}'} for i in range(n)}}, catalog=cat, cacheid=cid, uri=URI(u), metaschema_uri=META)
        for i in range(n):
            for v in (u + f'#/$defs/d{i}', u + f'#a{i}' if i % 2 else B + f'part/{i}'):
                look(v, cid, root['$defs'][f'd{i}'], f'a schema of {n} parts')
        for v in (u + f'#/$defs/d{n}', u + f'#a{n + n % 2 + 1}', B + f'part/{n + n % 2}'):
            look(v, cid, None, f'a schema of {n} parts')
        for v, s in made.items():
            look(v, cid, s, text + ' after a large one was added')
        ctx.trace()
        ctx.state(('parts', n))
    if n > 600:
        return
    with contextlib.ExitStack() as st:
        ids, made = [], []
        for i in range(n):
            ids.append(st.enter_context(cat.cache(('c24-many', serial, i))) if i % 2 else st.enter_context(cat.cache()))
            made.append(JSONSchema({'title': f'in {i}'}, catalog=cat, cacheid=ids[i], uri=URI(U1), metaschema_uri=META))
        ctx.check(len(set(ids)) == n, f'{n} caches: two have one identifier')
        for order in (1, -1):
            for c, s in list(zip(ids, made))[::order]:
                look(U1, c, s, f'{n} caches')
        ctx.trace()
        ctx.state(('caches', n))
    for c in ids:
        with cat.cache(c):
            look(U1, c, None, f'{n} caches, after they were closed')


def run_case(case, ctx):
    if case[0] == 'default':
        return default(ctx)
    if case[0] == 'size':
        return sized(case[1], ctx)
    what, n, i, j = case
    ops = SETS[what]
    for rest in itertools.product(ops, repeat=n - 2):
        history([ops[i], ops[j], *rest], ctx)
