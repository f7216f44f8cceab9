"""C12: JSON values through construction, serialization, files, HTTP and other locales."""
import collections
import decimal
import fractions
import http.server
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import types

import env
from jschon import JSON, URI
from jschon.catalog import Catalog, LocalSource, RemoteSource
from jschon.utils import json_loadf, json_loads

import gen
import sizes
from gen import exact, fresh, typed

MEANING = ('states: distinct values, texts and configurations; transitions: conversions by the real code; traces: values read back and compared '
           'type for type with the value that went in, or refusals')
BOUNDS = {
    'quick': 'every Unicode scalar value as a character and in a member name; 100 boundary numbers; every value of depth 2 and width 2 over 9 leaves and 2 names through five '
             'routes; NaN and the infinities and 20 foreign objects at every position of 12 containers; arrays, objects, strings, numbers and texts of 42 sizes up to 65537 and values up to 149 deep; every pair of 4 locales and 2 UTF-8 modes for writer and reader',
    'thorough': 'values of depth 3 and width 1, of depth 2 and width 3; every pair of 30 awkward characters'}
ASSUMPTIONS = ['strings hold no lone surrogates, and integers at most 4300 digits (limits of UTF-8 and of the Python runtime)',
               'a number whose text exceeds the range of a double is not claimed']

scratch = None
server = None
NUMS = sorted({s * x for x in (0, 1, 2, 9, 10, 255, 2**31 - 1, 2**31, 2**53 - 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 10**19, 10**40, 10**300, 10**400, 7 * 10**4000) for s in (1, -1)})
FLOATS = [0.0, -0.0, 0.1, 1.0, 1.5, -1.5, 1e16, 1e15, 123456789012345.6, 1e21, 1e22, 1e23, 1e-7, 1e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
          9007199254740993.0, 0.30000000000000004, 1 / 3, 1e100, -1e-300, 3.0e5, 4.35, 1e308, 100.0]
LEAVES = [None, True, False, 0, 1, 1.0, '', 'a', 'é"\\\n']
AWKWARD = ['\0', '\x01', '\x1f', ' ', '"', '\\', '/', '\x7f', '\x80', '\x85', '\xa0', 'é', '\u0100', '\u2028', '\u2029', '\ud7ff', '\ue000', '\ufeff', '\ufffd', '\uffff',
           '\U00010000', '\U0001f600', '\U0010ffff', '\r', '\n', '\t', '\b', '\f', '~', "'"]
CONFIGS = [(loc, utf8) for loc in ('C', 'C.UTF-8', 'POSIX', 'en_US.ISO-8859-1') for utf8 in ('0', '1')]


class Handler(http.server.BaseHTTPRequestHandler):
    pages = {}

    def do_GET(self):
        body = self.pages.get(self.path)
        self.send_response(200 if body is not None else 404)
        self.send_header('Content-Type', 'application/json')
        self.send_header('Content-Length', str(len(body or b'')))
        self.end_headers()
        self.wfile.write(body or b'')

    def log_message(self, *a):
        pass


def setup(ctx):
    global scratch
    scratch = tempfile.mkdtemp(prefix='verif-c12-')


def teardown(ctx):
    if server:
        server.shutdown()
        server.server_close()
    shutil.rmtree(scratch, ignore_errors=True)


def url(path):
    global server
    if server is None:
        os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'
        server = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        threading.Thread(target=server.serve_forever, daemon=True).start()
    return f'http://127.0.0.1:{server.server_port}/{path}'


def cases(tier):
    deep = tier == 'thorough'
    yield ['numbers']
    for i in range(0, 0x110000, 0x4000):
        yield ['chars', i]
    for d, w in ([(2, 2), (3, 1), (2, 3)] if deep else [(2, 2)]):
        for part in range(64):
            yield ['trees', d, w, part]
    yield ['wrappers']
    for n in sizes.SIZES + sizes.LARGE + sizes.HUGE:
        yield ['size', n]
    for n in sizes.DEPTH + [100, 149]:
        yield ['depth', n]
    yield ['constants']
    yield ['foreign']
    for i in range(len(CONFIGS)):
        yield ['locale', i]
    yield ['http']
    if deep:
        for i in range(len(AWKWARD)):
            yield ['pairs', i]


def trip(ctx, v, routes='all'):
    """`v` is a plain value; every way through the real code gives it back."""
    ctx.state(typed(v))

    def same(got, how):
        ctx.step()
        ctx.trace()
        return ctx.check(exact(got, v), f'{how}: {str(got)[:200]!r} instead of {str(v)[:200]!r}')
    j = JSON(v)
    same(j.value, 'JSON(value).value')
    text = j.dumps()
    same(json.loads(text), 'json.loads(JSON(value).dumps())')
    same(json.loads(str(j)), 'json.loads(str(JSON(value)))')
    same(JSON.loads(text).value, 'JSON.loads(dumps())')
    if routes == 'some':
        return
    same(JSON.loads(json.dumps(v, ensure_ascii=True)).value, 'JSON.loads(ASCII text)')
    path = os.path.join(scratch, 'f.json')
    j.dumpf(path)
    same(JSON.loadf(path).value, 'JSON.loadf(dumpf())')
    with open(path, 'rb') as f:
        same(json.loads(f.read().decode('utf-8')), 'the file written')
    same(JSON(j.value).value, 'JSON(JSON(value).value)')
    same(JSON.loads(JSON.loads(text).dumps()).value, 'a second trip')


def contain(x):
    """`x` at each position of several containers."""
    return [x, [x], [1, x], [x, 1], {'a': x}, {'a': 1, 'b': x}, [[x]], [{'a': x}], {'a': [x]}, {'a': {'b': x}}, [1, [2, [x]]], {'a': 1, 'b': [{'c': [x]}]}]


def run_case(case, ctx):
    what = case[0]
    if what == 'numbers':
        for n in NUMS + FLOATS:
            for v in (n, [n], {'a': n}, [n, [n, -n]]):
                trip(ctx, v)
    elif what == 'chars':
        cs = [chr(c) for c in range(case[1], case[1] + 0x4000) if not 0xd800 <= c < 0xe000]
        if cs:
            trip(ctx, cs)
            trip(ctx, {c: 'x' + c for c in cs})
            trip(ctx, ''.join(cs))
    elif what == 'trees':
        for n, v in enumerate(gen.trees(LEAVES, ['a', ''], case[1], case[2])):
            if n % 64 == case[3]:
                trip(ctx, v, 'all' if n % (64 * 16) == case[3] else 'some')
    elif what == 'pairs':
        for b in AWKWARD:
            s = AWKWARD[case[1]] + b
            trip(ctx, [s, {s: s}, b + s + b])
    elif what == 'size':
        n = case[1]
        trip(ctx, [i if i % 3 else [float(i), str(i)] for i in range(n)])
        trip(ctx, {f'n{i}': i if i % 3 else {'x': None} for i in range(n)})
        trip(ctx, {str(i): [i] for i in range(n)[::-1]}, 'some')
        for c in ('x', 'é', '\U0001f600', '"', '\0', '\\', '\u2028'):
            trip(ctx, [c * n, {c * n: c * (n - 1) + 'y'}], 'all' if c == 'é' else 'some')
        trip(ctx, [10 ** min(n, 4200), -10 ** min(n, 4200) + 1, 10.0 ** min(n, 308), 10.0 ** -min(n, 307)], 'some')
        trip(ctx, [[i, {'k': [i]}] for i in range(min(n, 10001))], 'some')
        for t in (' ' * n + '1', '1' + ' ' * n, '[' + ' ' * n + '1' + '\n' * n + ']', '[' + '1,' * n + '2]', '1' + '0' * min(n, 4000), '0.' + '1' * n, '1e' + '0' * n + '1', '"' + '\\u0041' * n + '"'):
            ctx.step()
            ctx.check(exact(JSON.loads(t).value, json.loads(t)), f'JSON.loads of a text of {len(t)} characters starting {t[:10]!r}')
        for t in ('[' + '1,' * n + ']', ' ' * n, '"' + 'a' * n, '[' * min(n, 100), '1' * min(n, 4000) + 'x', '[' + '1,' * n + 'NaN]', '{"a":' + ' ' * n + '}'):
            ctx.step()
            try:
                JSON.loads(t)
            except ValueError:
                continue
            ctx.violation(f'JSON.loads accepts a text of {len(t)} characters starting {t[:10]!r}')
    elif what == 'depth':
        for wrap in (lambda x: [x], lambda x: {'k': x}, lambda x: [0, {'k': x, 'l': []}]):
            v = 'x'
            for _ in range(case[1] if wrap('x') in (['x'], {'k': 'x'}) else case[1] // 2):
                v = wrap(v)
            trip(ctx, v)
            trip(ctx, [v, v, {'a': v}], 'some')
    elif what == 'wrappers':
        class Own(JSON):
            pass
        for v in ([], {}, [1, {'a': None}], {'a': [1, 2], 'b': {'c': 'x'}}, [[1], [2, 3]], {'é': [True, 1.0, 1]}):
            trip(ctx, v)

            def wrap(x, seq, mp):
                if isinstance(x, list):
                    return seq([wrap(y, seq, mp) for y in x])
                if isinstance(x, dict):
                    return mp({k: wrap(y, seq, mp) for k, y in x.items()})
                return x
            for seq, mp in itertools.product((list, tuple, collections.UserList, collections.deque), (dict, collections.OrderedDict, types.MappingProxyType, collections.UserDict)):
                ctx.step()
                ctx.trace()
                j = JSON(wrap(v, seq, mp))
                ctx.check(exact(j.value, v), f'{seq.__name__} and {mp.__name__} of {v!r} become {j.value!r}')
                ctx.check(exact(json.loads(j.dumps()), v), f'{seq.__name__} and {mp.__name__} of {v!r} are serialized as {j.dumps()!r}')
            for j in (JSON(v, itemclass=Own), Own(v), Own(v, itemclass=Own), Own.loads(json.dumps(v))):
                ctx.step()
                ctx.check(exact(j.value, v) and exact(json.loads(j.dumps()), v), f'{type(j).__name__} of {v!r} is {j.value!r}')
            # the value handed over and the value handed out are not tied to the document
            src = fresh(v)
            j = JSON(src)
            if isinstance(src, list):
                src.append('later')
            else:
                src['later'] = 1
            ctx.check(exact(j.value, v) and exact(json.loads(j.dumps()), v), f'changing the value a document was built from changes the document: {j.value!r}')
        big = []
        for _ in range(150):
            big = [big]
        trip(ctx, big)
        big = {}
        for _ in range(150):
            big = {'k': big}
        trip(ctx, big)
        trip(ctx, list(range(20000)))
        trip(ctx, {str(i): i for i in range(20000)})
        # member order of the text is kept
        t = '{"b": 1, "a": {"z": 1, "y": 2}, "": 0}'
        ctx.check(JSON.loads(t).dumps() == t and list(JSON.loads(t).value) == ['b', 'a', ''], 'the order of members is not kept')
    elif what == 'constants':
        path = os.path.join(scratch, 'c.json')
        for c in (float('nan'), float('inf'), float('-inf')):
            for v in contain(c):
                text = json.dumps(v)
                ctx.state(text)
                with open(path, 'w') as f:
                    f.write(text)
                for how, fn in (('JSON.loads', lambda: JSON.loads(text)), ('JSON.loadf', lambda: JSON.loadf(path)), ('json_loads', lambda: json_loads(text)),
                                ('json_loadf', lambda: json_loadf(path)), ('JSON.dumps', lambda: JSON(v).dumps()), ('str', lambda: str(JSON(v))),
                                ('JSON.dumpf', lambda: JSON(v).dumpf(path + '2'))):
                    ctx.step()
                    ctx.trace()
                    try:
                        got = fn()
                    except ValueError as e:
                        ctx.outcome(f'{how} {type(e).__name__}')
                    else:
                        ctx.violation(f'{how} accepts {text}: {got!r}')
                src = LocalSource(scratch)
                cat = Catalog('c12-const')
                cat.add_uri_source(URI('https://x.org/'), src)
                try:
                    got = cat.load_json(URI('https://x.org/c.json'))
                except Exception:
                    pass
                else:
                    ctx.violation(f'a local source accepts {text}: {got!r}')
                for doc in ('"NaN"', '"Infinity"', '{"NaN": "-Infinity"}'):
                    ctx.check(JSON.loads(doc).value == json.loads(doc), f'{doc} is not accepted')
    elif what == 'foreign':
        def gn():
            yield 1
        for x in (object(), {1, 2}, frozenset(), gn(), 1j, decimal.Decimal('1.5'), fractions.Fraction(1, 2), len, object, {1: 'a'}, {None: 1}, {True: 1}, {1.5: 1}, {('a',): 1},
                  {'a': 1, 2: 3}, {b'a': 1}, Ellipsis, NotImplemented, iter([]), {'x': {0: 0}}):
            for v in contain(x):
                ctx.state(repr(v))
                ctx.step()
                ctx.trace()
                try:
                    j = JSON(v)
                except TypeError:
                    ctx.outcome('TypeError')
                    continue
                ctx.violation(f'JSON accepts {v!r}: {j.value!r}')
        for t in ('', ' ', '{', '[1,]', '{"a"}', '{"a":1,}', "{'a':1}", '01', '1.', '.5', '+1', 'nul', '"\n"', '"a', '[1 2]', '1 2', '\ufeff[]', 'undefined', '{1: 2}', '"\\x"', '-', '[', ']'):
            ctx.step()
            ctx.trace()
            ctx.state(t)
            try:
                j = JSON.loads(t)
            except ValueError:
                continue
            ctx.violation(f'JSON.loads accepts {t!r}: {j.value!r}')
    elif what == 'locale':
        loc, utf8 = CONFIGS[case[1]]
        doc = {'s': AWKWARD, **{c: c for c in AWKWARD}, 'é': {'日本': ['𝄞', '\x00', 'ÿ']}}
        ctx.state((loc, utf8))
        base = os.path.join(scratch, f'loc{case[1]}')
        os.makedirs(base)
        with open(os.path.join(base, 'in.json'), 'wb') as f:
            f.write(json.dumps(doc, ensure_ascii=False).encode('utf-8'))
        with open(os.path.join(base, 'ascii.json'), 'wb') as f:
            f.write(json.dumps(doc).encode('ascii'))
        code = f'''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {os.path.dirname(os.path.abspath(env.__file__))!r})
import env
env.install()
import json
from jschon import JSON, URI
from jschon.catalog import Catalog, LocalSource
base = {base!r}
doc = json.load(open(base + '/ascii.json'))
out = {{}}
for name in ('in.json', 'ascii.json'):
    try:
        out[name] = JSON.loadf(base + '/' + name).value == doc
    except Exception as e:
        out[name] = repr(e)
    try:
        out['source ' + name] = LocalSource(base)(name) == doc
    except Exception as e:
        out['source ' + name] = repr(e)
try:
    JSON(doc).dumpf(base + '/out.json')
    out['write'] = True
except Exception as e:
    out['write'] = repr(e)
out['text'] = json.loads(JSON(doc).dumps()) == doc
print(json.dumps(out))
'''
        e = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'PYTHONIOENCODING', 'PYTHONUTF8')}
        e.update(LC_ALL=loc, LANG=loc, PYTHONUTF8=utf8, PYTHONCOERCECLOCALE='0', PYTHONHASHSEED='0')
        p = subprocess.run([sys.executable, '-B', '-c', code], env=e, capture_output=True, timeout=120)
        ctx.step(6)
        ctx.trace(6)
        if not ctx.check(p.returncode == 0, f'locale {loc}, UTF-8 mode {utf8}: {p.stderr.decode(errors="replace")[-400:]}'):
            return
        out = json.loads(p.stdout.decode('ascii'))
        ctx.check(all(v is True for v in out.values()), f'locale {loc}, UTF-8 mode {utf8}: {out}')
        if out.get('write') is True:
            with open(os.path.join(base, 'out.json'), 'rb') as f:
                raw = f.read()
            try:
                ok = json.loads(raw.decode('utf-8')) == doc
            except ValueError as x:
                ok = False
            ctx.check(ok, f'locale {loc}, UTF-8 mode {utf8}: the file written does not hold the document in UTF-8')
            ctx.check(JSON.loadf(os.path.join(base, 'out.json')).value == doc, f'a file written in locale {loc}, UTF-8 mode {utf8}, is read differently here')
    elif what == 'http':
        docs = [v for v in ([1, {'a': None}], {'é': '日本𝄞\x00'}, 'x', 1.0, [10**40, 1e-7, -0.0], {'a': {'b': [True, False]}}, [], AWKWARD, 0, False, None)]
        cat = Catalog('c12')
        cat.add_uri_source(URI(url('d/')), RemoteSource(URI(url('d/'))))
        cat.add_uri_source(URI(url('s/')), RemoteSource(URI(url('s/')), suffix='.json'))
        for i, v in enumerate(docs):
            for asc in (True, False):
                body = json.dumps(v, ensure_ascii=asc).encode('utf-8')
                ctx.state(('http', body))
                Handler.pages = {f'/d/{i}': body, f'/s/{i}.json': body}
                for how, fn in (('JSON.loadr', lambda: JSON.loadr(url(f'd/{i}')).value), ('a remote source', lambda: cat.load_json(URI(url(f'd/{i}')))),
                                ('a remote source with suffix', lambda: cat.load_json(URI(url(f's/{i}'))))):
                    ctx.step()
                    ctx.trace()
                    got = fn()
                    ctx.check(exact(got, v), f'{how}: {got!r} instead of {v!r}')
        for c in ('NaN', '[Infinity]', '{"a": -Infinity}', '', '{', '<html>'):
            Handler.pages = {'/d/x': c.encode()}
            for u in ('d/x', 'd/missing'):
                ctx.step()
                ctx.trace()
                try:
                    got = JSON.loadr(url(u))
                except Exception:
                    continue
                ctx.violation(f'JSON.loadr accepts {c!r}: {got!r}')
