"""C22: every history of source registrations, against a table of prefixes; every failure of a source."""
import http.client
import itertools
import json

from jschon import JSONSchema, URI
from jschon.catalog import Catalog, RemoteSource, Source
from jschon.exc import CatalogError, JSONPointerError, JSONSchemaError, JschonError, URIError

import evalcheck
import gen
import sizes

MEANING = ('states: distinct registration tables (prefix -> source); transitions: registrations and loads applied to the model; traces: '
           'loads by the real catalog whose source call, remainder and result were compared with the model')
BOUNDS = {
    'quick': 'every sequence of 3 registrations out of 27 (13 bases and the default, 2 sources each, with all 38 URIs loaded after each of the last), '
             'every sequence of 4 over 5 bases and the default; every invalid base and URI in 12 tables; 26 kinds of failure x 6 tables x every '
             'way of loading; 9 to 1025 bases side by side and 9 to 257 nested, in 3 orders; remote sources over 6 bases x 2 suffixes x 9 remainders x 7 responses',
    'thorough': 'as quick, with every sequence of 5 registrations over 5 bases and the default, and of 4 over all'}
ASSUMPTIONS = ['base URIs have no query, so that their text ends with a slash', 'fetching by HTTP is replaced by a stand-in for requests.get that records the URL']

H = 'https://x.org/'
BASES = [H, H + 'a/', H + 'a/b/', H + 'ab/', 'https://x.org:8/', 'http://x.org/', 'urn:x:a/', H + 'a%2Fb/', H + 'a//', 'https://x.org.evil/',
         H + 'A/', H + 'a/b/c/d/', 'file:/a/']
FEW = [H, H + 'a/', H + 'a/b/', H + 'ab/', 'urn:x:a/', None]
PROBES = [H, H + 'a', H + 'a/', H + 'a/b', H + 'a/b/', H + 'a/b/c', H + 'a/b/c/d/e', H + 'a/bc', H + 'ab', H + 'ab/c', H + 'ab/a/', H + 'a//b', H + 'a//',
          H + 'a/c', H + 'A/x', H + 'a%2Fb/x', H + 'a%2Fb', 'https://x.org', 'https://x.org?q=/a/', H + 'a/?q', H + 'a/b?q=/x', H + '?https://x.org/a/b/',
          'https://x.org:8/a/b', 'https://x.org:80/a', 'http://x.org/a/b', 'https://x.org.evil/a', 'https://y.org/https://x.org/a/', 'urn:x:a/b', 'urn:x:a',
          'urn:x:b', 'urn:y', 'file:/a/b', 'file:/b', H + 'a/%61', H + 'a/b:c', H + 'a/http://x.org/', H + 'a/b/.c', H + 'a/ab/c']
BAD_BASES = ['', 'a/', '/a/', '//x.org/', 'https://x.org', H + 'a', H + 'a/#', H + 'a/#f', H + '#', 'HTTPS://x.org/', 'https://X.org/', H + './a/', H + 'a/../',
             H + 'a/?q', H + '%2f/', 'urn:x', 'x.org/', '#', '?/', H + 'a/b', H + 'a?q/']
BAD_URIS = ['', 'a', '/a/b', '//x.org/a/', H + 'a#', H + 'a/b#/x', 'HTTPS://x.org/a', 'https://X.ORG/a', H + 'a/./b', H + 'a/../b', H + 'a/%2f', '#', 'a/b/c', '?q',
            H + 'ab/..']


class Own(Exception):
    pass


class Own2(JschonError):
    pass


def failures():
    try:
        json.loads('{')
    except ValueError as e:
        jde = e
    try:
        b'\xff'.decode()
    except ValueError as e:
        ude = e
    return [CatalogError('x'), CatalogError(), OSError(2, 'No such file'), FileNotFoundError(2, 'No such file', 'name'), PermissionError(), IsADirectoryError(21, 'x', 'y'),
            TimeoutError('slow'), ConnectionRefusedError(), ValueError('bad'), ValueError(), jde, ude, KeyError('k'), IndexError(), TypeError('t'), AttributeError('a'),
            RuntimeError('r', 2, {'x': []}), RecursionError(), NotImplementedError(), StopIteration(), AssertionError(), ZeroDivisionError('z'), http.client.HTTPException('h'),
            Own('own'), Own2('own2'), URIError('u'), JSONPointerError('p'), JSONSchemaError('s'), LookupError(None)]


class Src(Source):
    log = []

    def __init__(self, tag, suffix=None):
        super().__init__(suffix=suffix)
        self.tag = tag
        self.exc = None

    def __call__(self, relative_path):
        Src.log.append((self, relative_path))
        if self.exc is not None:
            raise self.exc
        return self.doc(relative_path)

    def doc(self, rel):
        return {'title': f'{self.tag}|{rel}', '$schema': evalcheck.META['2020-12']}


def cases(tier):
    deep = tier == 'thorough'
    n = len(BASES) + 1
    for i in range(2 * n):
        for j in range(2 * n):
            yield ['all', 4 if deep else 3, i, j]
    for i in range(2 * len(FEW)):
        for j in range(2 * len(FEW)):
            yield ['few', 5 if deep else 4, i, j]
    for b in BAD_BASES:
        yield ['badbase', b]
    for u in BAD_URIS:
        yield ['baduri', u]
    for i in range(len(failures())):
        yield ['fail', i]
    yield ['shared']
    for n in sizes.SIZES + ([999, 1025] if not deep else sizes.LARGE):
        for kind in ('flat', 'nested', 'mixed'):
            if kind == 'flat' or n <= 257:
                yield ['many', kind, n]
    yield ['dynamic']
    for b in ('http://r.org/', 'http://r.org/d/', 'https://u@r.org:8/d/e/', 'http://r.org', 'http://r.org/d/x', 'http://r.org/d/?q'):
        for sfx in (None, '.json'):
            yield ['remote', b, sfx]


def new_catalog():
    return Catalog('c22')


def choose(table, uri):
    """The model: the source with the longest matching base, and the remainder."""
    best = None
    for base in table:
        if base is not None and uri.startswith(base) and (best is None or len(base) > len(best)):
            best = base
    if best is None:
        return (table[None], uri) if None in table else (None, None)
    return table[best], uri[len(best):]


def probe(ctx, cat, table, uri, text):
    want, rel = choose(table, uri)
    Src.log = []
    ctx.step()
    ctx.trace()
    try:
        got = cat.load_json(URI(uri))
    except CatalogError:
        got = CatalogError
    calls = [(s.tag, r) for s, r in Src.log]
    if want is None:
        if not ctx.check(got is CatalogError and calls == [], f'{text}: {uri} has no source, but loading it gives {got!r} after the calls {calls}'):
            ctx.outcome('x')
    else:
        ctx.check(calls == [(want.tag, rel)] and all(type(r) is str for _, r in Src.log),
                  f'{text}: loading {uri} makes the calls {calls}, expected {(want.tag, rel)}')
        ctx.check(got == want.doc(rel), f'{text}: loading {uri} returns {got!r}')
    ctx.outcome('none' if want is None else 'default' if rel == uri else len(uri) - len(rel))


def explore(ctx, bases, ops, depth, prefix):
    """Every history of `depth` registrations that begins with `prefix`; the catalog is rebuilt for each."""
    for rest in itertools.product(range(len(ops)), repeat=depth - len(prefix)):
        hist = list(prefix) + list(rest)
        cat = new_catalog()
        table = {}
        for k, o in enumerate(hist):
            base, tag = ops[o]
            s = Src(f'{tag}{base}', suffix='.s' if tag == 1 else None)
            s.tag += f'@{k}'
            table[base] = s
            r = cat.add_uri_source(None if base is None else URI(base), s)
            ctx.step()
        text = ' > '.join(str(ops[o]) for o in hist)
        ctx.state(frozenset((b, s.tag[0]) for b, s in table.items()))
        for u in PROBES:
            probe(ctx, cat, table, u, text)


def many(ctx, kind, n):
    """n bases side by side, one within another, or both, registered in several orders."""
    bases = {'flat': [f'{H}b{i}/' for i in range(n)], 'nested': [H + 'n/' * i for i in range(n)],
             'mixed': [f'{H}a/' + ''.join(f'{x}/' for x in str(i)) for i in range(n)]}[kind]
    probes = bases + [b + 'x' for b in bases] + [b[:-1] for b in bases[-3:]] + [H + 'n/' * n + 'y', H + f'b{n}/x', f'{H}b0', H + 'a/9/9/9/9/x', 'urn:y', 'https://x.org.evil/']
    half = n // 2
    for order in (range(n), range(n - 1, -1, -1), [*range(half, n), *range(half)]):
        cat, table = new_catalog(), {}
        for i in order:
            table[bases[i]] = Src(f'{i}@')
            cat.add_uri_source(URI(bases[i]), table[bases[i]])
        text = f'{n} {kind} bases in the order {list(order)[:3]}...'
        ctx.state(text)
        for u in probes:
            probe(ctx, cat, table, u, text)
        # a later source for the same base replaces the earlier one, and the default takes the rest
        for b in (bases[0], bases[-1], None):
            table[b] = Src(f'late {b}')
            cat.add_uri_source(None if b is None else URI(b), table[b])
        for u in probes[:3] + probes[n - 3:n + 3] + probes[-12:]:
            probe(ctx, cat, table, u, text + ' > three more')


def run_case(case, ctx):
    kind = case[0]
    if kind == 'many':
        many(ctx, *case[1:])
        return
    if kind in ('all', 'few'):
        bases = (BASES + [None]) if kind == 'all' else FEW
        ops = [(b, t) for b in bases for t in (0, 1)]
        _, depth, i, j = case
        explore(ctx, bases, ops, depth, (i, j))
        if (i, j) == (0, 0):
            for d in range(2):
                explore(ctx, bases, ops, d, ())
        if j == 0:
            explore(ctx, bases, ops, 2, (i,))
        return
    if kind in ('badbase', 'baduri'):
        for r in range(3):
            for have in itertools.combinations((H, H + 'a/', None), r):
                cat = new_catalog()
                table = {}
                for b in have:
                    table[b] = Src(f'{b}')
                    cat.add_uri_source(None if b is None else URI(b), table[b])
                bad = Src('bad')
                ctx.step()
                ctx.trace()
                Src.log = []
                if kind == 'badbase':
                    try:
                        cat.add_uri_source(URI(case[1]), bad)
                        ctx.violation(f'add_uri_source accepts the base URI {case[1]!r}')
                    except CatalogError:
                        ctx.outcome('base rejected')
                else:
                    try:
                        got = cat.load_json(URI(case[1]))
                        ctx.violation(f'load_json accepts the URI {case[1]!r}: {got!r}')
                    except CatalogError:
                        ctx.outcome('uri rejected')
                ctx.check(not Src.log, f'{case}: a source was consulted: {Src.log}')
                ctx.state((kind, case[1], have))
                for u in PROBES[:12]:
                    probe(ctx, cat, table, u, f'{have} and rejected {case[1]!r}')
        return
    if kind == 'fail':
        fail(case[1], ctx)
        return
    if kind == 'shared':     # one source object for several bases, two catalogs, identical names
        s, t = Src('s'), Src('t')
        hist = [(c, b, x) for c in (0, 1) for b in (H, H + 'a/', None) for x in (s, t)]
        for ops in itertools.permutations(hist, 3):
            cs = [Catalog('c22-x'), Catalog('c22-y')]
            tables = [{}, {}]
            for c, b, x in ops:
                cs[c].add_uri_source(b and URI(b), x)
                tables[c][b] = x
            ctx.state(tuple(tuple((b, x.tag) for b, x in tb.items()) for tb in tables))
            for c in (0, 1):
                for u in PROBES[:10]:
                    probe(ctx, cs[c], tables[c], u, f'catalog {c}: {[(c, b, x.tag) for c, b, x in ops]}')
        return
    if kind == 'dynamic':    # a source that registers or loads while it is being called
        for inner in PROBES[:8]:
            cat = new_catalog()
            a, b = Src('a'), Src('b')
            cat.add_uri_source(URI(H), a)
            done = []

            def act(rel, cat=cat, b=b):
                if not done:
                    done.append(1)
                    cat.add_uri_source(URI(H + 'a/'), b)
                    done.append(cat.load_json(URI(inner)))
                return {'title': 'outer'}
            a2 = Src('a2')
            a2.doc = act
            cat.add_uri_source(URI(H), a2)
            ctx.check(cat.load_json(URI(H + 'a/x')) == {'title': 'outer'}, 'a source that registers another while it is called')
            want, rel = choose({H: a2, H + 'a/': b}, inner)
            if done[1:]:
                ctx.check(done[1] == (want.doc(rel) if want is b else {'title': 'outer'}), f'nested load of {inner}: {done}')
            probe(ctx, cat, {H + 'a/': b}, H + 'a/b', 'after nested registration')
            ctx.state(inner)
        return
    remote(case[1], case[2], ctx)


TABLES = [(H,), (H, H + 'a/'), (H, H + 'a/', None), (None,), (H + 'a/', None), (H + 'a/b/', H + 'a/', H, None)]


def fail(i, ctx):
    url = H + 'a/b/c'
    docs = {'ref': {'$ref': url}, 'sub': {'properties': {'p': {'$ref': url + '#/$defs/x'}}}, 'meta': {'$schema': url, 'title': ''}, 'rel': {'$id': H + 'a/q', '$ref': 'b/c'}}
    bench = evalcheck.Bench('c22f')
    saved = dict(bench.catalog._uri_sources)
    for bases in TABLES:
        cat = bench.catalog
        cat._uri_sources.clear()
        cat._uri_sources.update({k: v for k, v in saved.items() if k})
        table = {}
        for b in bases:
            table[b] = Src(f'{b}')
            cat.add_uri_source(b and URI(b), table[b])
        want, rel = choose(table, url)
        for way in ('load_json', 'get_schema', 'get_schema#', 'create_metaschema', 'get_metaschema', 'ref', 'sub', 'meta', 'rel'):
            exc = failures()[i]
            want.exc = exc
            Src.log = []
            ctx.step()
            ctx.trace()
            ctx.state((i, bases, way))
            m = URI(evalcheck.META['2020-12'])

            def act():
                if way == 'load_json':
                    return cat.load_json(URI(url))
                if way.startswith('get_schema'):
                    return cat.get_schema(URI(url + ('#/$defs/x' if way.endswith('#') else '')), metaschema_uri=m)
                if way == 'create_metaschema':
                    return cat.create_metaschema(URI(url))
                if way == 'get_metaschema':
                    return cat.get_metaschema(URI(url))
                return JSONSchema(gen.fresh(docs[way]), catalog=cat, uri=URI(H + 'a/q'), metaschema_uri=None if way == 'meta' else m, cacheid='c22')
            try:
                act()
                ctx.violation(f'{way} with the sources {bases}: {exc!r} raised by the source is swallowed')
            except CatalogError as e:
                ctx.outcome(type(exc).__name__)
                if isinstance(exc, CatalogError) and way == 'load_json':
                    ctx.check(e.args == exc.args, f'{way}: the error of the source is lost: {e!r} instead of {exc!r}')
            except Exception as e:
                ctx.violation(f'{way} with the sources {bases}: {exc!r} raised by the source surfaces as {e!r}')
            calls = [(s.tag, r) for s, r in Src.log]
            ctx.check(calls == [(want.tag, rel)], f'{way}: {exc!r} raised by the source of {want.tag}: the calls were {calls}')
            want.exc = None
            probe(ctx, cat, table, url, f'after {exc!r}')
            if way == 'get_schema':
                cat.get_schema(URI(url), metaschema_uri=m)
                cat.del_schema(URI(url))


class Response:
    def __init__(self, status, text):
        self.status, self.text = status, text

    def raise_for_status(self):
        if self.status >= 400:
            import requests
            raise requests.HTTPError(f'{self.status}')

    def json(self, **kw):
        return json.loads(self.text, **kw)


def remote(base, suffix, ctx):
    import requests

    import refuri
    real = requests.get
    answers = [(200, '{"title": "ok"}'), (200, 'true'), (404, 'nothing'), (500, '{}'), (200, '{"a": NaN}'), (200, '{'), None]
    try:
        for rem in ('a', 'a/b', '', 'a.json', 'a?q=1', '%2F', 'a/%41', '.a', 'a;p'):
            for ans in answers:
                seen = []

                def get(url, *a, **k):
                    seen.append(url)
                    if ans is None:
                        raise requests.ConnectionError('down')
                    return Response(*ans)
                requests.get = get
                cat = new_catalog()
                cat.add_uri_source(URI(H), RemoteSource(URI(base), suffix=suffix))
                spy = Src('spy')
                cat.add_uri_source(None, spy)
                Src.log = []
                ctx.step()
                ctx.trace()
                try:
                    got = cat.load_json(URI(H + rem))
                except CatalogError:
                    got = CatalogError
                want = refuri.normalize(refuri.resolve(base, rem)) + (suffix or '')
                ctx.check([refuri.normalize(x) for x in seen] == [refuri.normalize(want)] and not Src.log,
                          f'remote source {base!r} suffix {suffix!r}: loading {H + rem!r} fetches {seen}, expected {want!r}')
                expect = CatalogError
                if ans and ans[0] == 200 and 'NaN' not in ans[1] and ans[1] != '{':
                    expect = json.loads(ans[1])
                ctx.check(got == expect, f'remote source {base!r}: {ans!r} gives {got!r}')
                ctx.state((want, str(ans)))
                ctx.outcome(str(got)[:20])
    finally:
        requests.get = real
