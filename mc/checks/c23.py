"""C23: every spelling of a path handed to a local source, with every file the process opens recorded."""
import itertools
import json
import os
import pathlib
import re
import shutil
import sys
import tempfile

from jschon import JSONSchema, URI
from jschon.catalog import Catalog, LocalSource
from jschon.exc import CatalogError

import evalcheck

MEANING = ('states: distinct (configuration, requested path) pairs; transitions: loads; traces: loads during which the set of files opened by the process '
           '(audit hook) and the result were compared with the model: base directory + relative path + suffix, within the base directory')
BOUNDS = {
    'quick': 'every relative path of up to 4 segments out of 17 (empty, dots, names, percent-encoded and Windows spellings) with every combination of leading and '
             'trailing slashes, for 7 spellings of the base directory and 4 suffixes at up to 3 segments, 1 at 4; requested directly, as URI, by $ref, $id, $schema and '
             'metaschema; 12 kinds of defective file, each followed by a repair',
    'thorough': 'as quick, with up to 4 segments for every base directory and suffix, and 5 for one'}
ASSUMPTIONS = ['no symbolic links below the base directory', 'POSIX paths', 'a path with empty or dot segments, or ending in a slash, may be refused or read '
               'as the file it denotes within the base directory; a path with parent segments that stays within it, likewise']

SEGS = ['', '.', '..', 'a', 'sub', 'c', 'a.json', 'secret', '%2e%2e', '..%2fsecret', '..\\secret', '...', '.a', 'v1.2', 'a b', '~', 'C:']
U = 'https://x.org/l/'
box = None
opened = None


def hook(event, args):
    if opened is None or event not in ('open', 'os.open'):
        return
    p = args[0]
    try:
        p = os.fspath(p)
    except TypeError:
        return
    p = os.fsdecode(p)
    if p.endswith(('.py', '.pyc', '.so')) or p.startswith(sys.base_prefix + '/lib/python'):
        return
    opened.append(p)


def setup(ctx):
    global box
    box = tempfile.mkdtemp(prefix='verif-c23-')
    sys.addaudithook(hook)
    w = pathlib.Path(box) / 'w'
    base = w / 'base'
    base.mkdir(parents=True)
    names = ['a', 'c', 'a.json', 'secret.json', 'v1.2', 'v1', '.a', '...', 'a b', '~', '%2e%2e', 'C:', 'a.json.json', 'sub.json', 'v1.2.json', '.a.json',
             '....json', 'C:.json', 'x', 'ax', 'cx', '..x', '.x', 'base.json', '..%2fsecret', '..\\secret', '..%2fsecret.json', '..\\secret.json', '.json', '..json']
    for d in (w, base, base / 'sub', base / 'sub' / 'sub', base / 'sub' / '..sub', pathlib.Path(box)):
        d.mkdir(exist_ok=True)
        for n in names + (['secret', 'basex'] if d != base else []):
            f = d / n
            if not f.exists():
                f.write_text(json.dumps({'title': str(f)}))
    os.chdir(w)


def teardown(ctx):
    os.chdir('/')
    if box:
        shutil.rmtree(box, ignore_errors=True)


FORMS = ['str', 'path', 'slash', 'rel', 'relpath', 'dotted', 'missing']
SUFFIXES = [None, '.json', 'x', '']


def base_of(form):
    full = os.path.join(box, 'w', 'base')
    return {'str': full, 'path': pathlib.Path(full), 'slash': full + '/', 'rel': 'base', 'relpath': pathlib.PurePath('./base'),
            'dotted': os.path.join(box, 'w', '..', 'w', 'base'), 'missing': os.path.join(box, 'w', 'none')}[form]


def cases(tier):
    deep = tier == 'thorough'
    for form in FORMS:
        for sfx in SUFFIXES:
            for a in SEGS:
                yield ['paths', form, sfx, a, 4 if deep and form in ('str', 'rel') else 3]
    for a in SEGS:
        for b in SEGS:
            yield ['deep', a, b, 5 if deep else 4]
    for sfx in SUFFIXES:
        for a in SEGS:
            yield ['uris', sfx, a]
        yield ['hosts', sfx]
        yield ['default', sfx]
    for i in range(len(DEFECTS)):
        yield ['defect', i]
    yield ['reload']


def want_file(base, rel, sfx):
    """(the only file that may be opened or None, whether it must be)"""
    if rel.startswith('/') or '\0' in rel:
        return None, False
    segs = rel.split('/')
    depth, low = 0, 0
    for s in segs:
        depth += -1 if s == '..' else 0 if s in ('', '.') else 1
        low = min(low, depth)
    clean = all(s not in ('', '.', '..') for s in segs)
    if clean:
        return os.path.join(os.path.abspath(base), rel) + (sfx or ''), True
    names = [s for s in segs if s not in ('', '.')]
    if low < 0 or depth == 0 or not names or names[-1] == '..':
        return None, False
    return os.path.normpath(os.path.join(os.path.abspath(base), rel)) + (sfx or ''), False


def attempt(fn):
    global opened
    opened = []
    try:
        try:
            return fn(), opened
        except Exception as e:
            return e, opened
    finally:
        opened = None


def judge(ctx, base, rel, sfx, got, paths, text, direct):
    ctx.trace()
    ctx.step()
    root = os.path.abspath(base)
    real = [os.path.abspath(p) for p in paths]
    for p in real:
        rp = os.path.realpath(p)
        ctx.check(rp.startswith(os.path.realpath(root) + '/') and os.path.realpath(os.path.dirname(p)).startswith(os.path.realpath(root)),
                  f'{text}: opens {p}, which is not below {root}')
    file, must = want_file(base, rel, sfx)
    err = isinstance(got, Exception)
    ctx.outcome(('error' if err else 'ok', must, len(real)))
    if err:
        ctx.check(isinstance(got, CatalogError) or direct, f'{text}: fails with {got!r}, not with a CatalogError')
    if file is None:
        ctx.check(err and not real, f'{text}: gives {got!r} after opening {real}, instead of being refused')
        return
    ctx.check(all(p == file for p in real), f'{text}: opens {real}, expected only {file}')
    if must:
        there = os.path.isfile(file)
        ctx.check(err != there, f'{text}: {file} {"exists" if there else "does not exist"}, but the load gives {got!r}')
        ctx.check(len(real) == 1 or not there, f'{text}: opens {real}')
    if not err:
        ctx.check(os.path.isfile(file) and got == {'title': file}, f'{text}: returns {got!r}, expected the contents of {file}')


def run_case(case, ctx):
    kind = case[0]
    if kind in ('paths', 'deep'):
        if kind == 'paths':
            _, form, sfx, a, n = case
            heads, form2 = [(a,)], form
        else:
            _, a, b, n = case
            heads, form, sfx = [(a, b)], 'str', '.json'
        base = base_of(form)
        src = LocalSource(base, suffix=sfx)
        cat = Catalog('c23')
        cat.add_uri_source(URI(U), src)
        for head in heads:
            lo = len(head) if kind == 'paths' else n
            for k in range(lo, n + 1):
                for rest in itertools.product(SEGS, repeat=k - len(head)):
                    segs = head + rest
                    for lead, trail in (('', ''), ('/', ''), ('', '/'), ('//', ''), (box + '/w/', ''), ('', '/.'), ('', '/..')):
                        if k > 2 and (lead or trail) and form != 'str':
                            continue
                        if k > 3 and (lead or trail):
                            continue
                        rel = lead + '/'.join(segs) + trail
                        ctx.state((form, sfx, rel))
                        got, paths = attempt(lambda: src(rel))
                        judge(ctx, base, rel, sfx, got, paths, f'LocalSource({str(base)!r}, suffix={sfx!r})({rel!r})', True)
        return
    if kind == 'uris':
        _, sfx, a = case
        base = base_of('str')
        cat = Catalog('c23')
        bench = evalcheck.Bench('c23b')
        bench.catalog._uri_sources.pop('', None)
        for c in (cat, bench.catalog):
            c.add_uri_source(URI(U), LocalSource(base, suffix=sfx))
        for n in (0, 1, 2):
            for rest in itertools.product(SEGS, repeat=n):
                for lead, trail in (('', ''), ('/', ''), ('', '?q=../../secret'), ('/' + box + '/w/', '')):
                    rel = lead + '/'.join((a,) + rest) + trail
                    text = U + rel
                    uri = URI(text)
                    rel2 = str(uri)[len(U):] if str(uri).startswith(U) else None
                    ctx.state((sfx, 'uri', rel))
                    got, paths = attempt(lambda: cat.load_json(uri))
                    if rel2 is None or isinstance(got, CatalogError) and (any(s in ('.', '..') for s in rel.split('?')[0].split('/'))
                                                                               or re.search('%(?:[a-f].|.[a-f])', str(uri))):     # not normalized
                        ctx.check(isinstance(got, CatalogError) and not paths, f'load_json({text!r}) gives {got!r} after opening {paths}')
                    else:
                        judge(ctx, base, rel2, sfx, got, paths, f'load_json({text!r})', False)
                    if n == 2 and lead:
                        continue
                    # the same through references: the target is resolved against the base first
                    ways(ctx, bench, base, sfx, rel)
        return
    if kind == 'hosts':
        _, sfx = case
        bench = evalcheck.Bench('c23h')
        bench.catalog._uri_sources.pop('', None)
        base = base_of('str')
        bench.catalog.add_uri_source(URI(U), LocalSource(base, suffix=sfx))
        for rel in ('../../l/a', '/l/../l/a', '//x.org/l/a', 'https://x.org/l/../../etc/passwd', 'file:///etc/passwd', 'file:/etc/passwd', '//x.org/l//etc/passwd',
                    U + '/etc/passwd', U + '/' + box + '/w/secret', U + '..%2f..%2fsecret', U + '%2fetc%2fpasswd', U + '\\..\\secret', U + './/etc/passwd', U + '?/../../secret',
                    U + '#/../../secret', U + 'a#/..', U + '~root/x', U + '$HOME', U + '-', U + '/proc/self/environ', U + '/dev/stdin'):
            ways(ctx, bench, base, sfx, rel)
        return
    if kind == 'default':
        _, sfx = case
        bench = evalcheck.Bench('c23d')
        base = base_of('str')
        bench.catalog.add_uri_source(None, LocalSource(base, suffix=sfx))
        for text in ('https://y.org/a', 'file:/etc/passwd', 'file:/a', 'urn:../secret', 'urn:a', 'urn:/etc/passwd', 'x:/../a', 'https://y.org//etc/passwd', 'c:/a', 'a:..'):
            uri = URI(text)
            got, paths = attempt(lambda: bench.catalog.load_json(uri))
            ctx.state((sfx, 'default', text))
            ctx.trace()
            for p in paths:
                q = os.path.abspath(p)
                ctx.check(q.startswith(base + '/') and q in (os.path.normpath(base + '/' + str(uri)) + (sfx or ''), base + '/' + str(uri) + (sfx or '')),
                          f'default local source: {text!r} opens {q}')
            ctx.check(isinstance(got, CatalogError), f'default local source: {text!r} gives {got!r}')
        return
    if kind == 'defect':
        defect(case[1], ctx)
        return
    reload(ctx)


def ways(ctx, bench, base, sfx, rel):
    cat = bench.catalog
    for way in ('ref', 'id', 'get', 'schema', 'meta'):
        ref = rel
        target = str(URI(ref).resolve(URI(U)).copy(fragment=False))     # resolution itself is the subject of C21
        inside = target.startswith(U)
        r2 = target[len(U):] if inside else None

        def act():
            with cat.cache() as cid:
                if way == 'ref':
                    return JSONSchema({'properties': {'p': {'$ref': ref}}}, catalog=cat, cacheid=cid, uri=URI(U), metaschema_uri=URI(evalcheck.META['2020-12']))
                if way == 'id':
                    return JSONSchema({'$defs': {'d': {'$id': ref + '/' if not ref.endswith('/') else ref}}, '$ref': ref}, catalog=cat, cacheid=cid, uri=URI(U),
                                      metaschema_uri=URI(evalcheck.META['2020-12']))
                u = URI(target)
                if way == 'get':
                    return cat.get_schema(u, metaschema_uri=URI(evalcheck.META['2020-12']), cacheid=cid)
                if way == 'schema':
                    return JSONSchema({'$schema': target, 'title': ''}, catalog=cat, cacheid=cid)
                return cat.create_metaschema(u)
        got, paths = attempt(act)
        ctx.step()
        ctx.trace()
        paths = [os.path.abspath(p) for p in paths if not p.startswith(evalcheck.refeval.__file__.rsplit('/', 1)[0] + '/metaschemas/')]
        file, must = want_file(base, r2, sfx) if inside else (None, False)
        for p in paths:
            ctx.check(os.path.realpath(p).startswith(base + '/') and p == file, f'{way} {ref!r} (target {target!r}, suffix {sfx!r}) opens {p}; expected {file}')
        if isinstance(got, Exception):
            from jschon.exc import JschonError
            ctx.check(isinstance(got, JschonError) or way == 'id', f'{way} {ref!r} fails with {got!r}')


DEFECTS = [b'', b'{', b'{"a": NaN}', b'{"a": Infinity}', b'\xff\xfe', b'{"a": "\xc3"}', b'nul', b'{"a":1}}', b'\xef\xbb\xbf{}', b'[' * 5000, 'directory', 'missing', 'long', 'through-file']


def defect(i, ctx):
    d = DEFECTS[i]
    with tempfile.TemporaryDirectory(dir=box) as base:
        for sfx in SUFFIXES:
            for name in ('f', 'g/f'):
                cat = Catalog('c23x')
                cat.add_uri_source(URI(U), LocalSource(base, suffix=sfx))
                rel = name
                path = os.path.join(base, name + (sfx or ''))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if d == 'directory':
                    os.mkdir(path)
                elif d == 'long':
                    rel = name + 'f' * 300
                    path = os.path.join(base, rel + (sfx or ''))
                elif d == 'through-file':
                    with open(os.path.join(base, 'plain'), 'w') as f:
                        f.write('{}')
                    rel = 'plain/' + name
                    path = os.path.join(base, rel + (sfx or ''))
                elif d != 'missing':
                    with open(path, 'wb') as f:
                        f.write(d)
                for turn in range(2):
                    ctx.step()
                    ctx.trace()
                    got, paths = attempt(lambda: cat.load_json(URI(U + rel)))
                    ctx.check(isinstance(got, CatalogError), f'defective file {d!r}: {got!r}')
                    ctx.check(all(os.path.abspath(p) == path for p in paths), f'defective file {d!r}: opens {paths}')
                ctx.state((i, sfx, name))
                ctx.outcome(type(got.__cause__).__name__ if isinstance(got, Exception) else got)
                if d in ('long', 'through-file'):
                    continue
                if d == 'directory':
                    os.rmdir(path)
                with open(path, 'w') as f:
                    f.write('{"title": "\xe9"}')
                got, paths = attempt(lambda: cat.load_json(URI(U + rel)))
                ctx.check(got == {'title': '\xe9'}, f'defective file {d!r}, repaired: {got!r}')
                os.remove(path)
                got, paths = attempt(lambda: cat.load_json(URI(U + rel)))
                ctx.check(isinstance(got, CatalogError), f'file removed: {got!r}')


def reload(ctx):
    """Sources with the same base URI shapes and different directories do not mix."""
    with tempfile.TemporaryDirectory(dir=box) as top:
        dirs = [os.path.join(top, x) for x in ('p', 'pp', 'p/q')]
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        for d in dirs:
            for n in ('f', 'f.json', 'p', 'q.json'):
                with open(os.path.join(d, n), 'w') as f:
                    json.dump({'title': os.path.join(d, n)}, f)
        for assign in itertools.product(range(3), repeat=3):
            for sfxs in itertools.product((None, '.json'), repeat=3):
                cat = Catalog('c23r')
                uris = [U, U + 'q/', 'https://x.org/']
                for u, a, s in zip(uris, assign, sfxs):
                    cat.add_uri_source(URI(u), LocalSource(dirs[a], suffix=s))
                for u, a, s in zip(uris, assign, sfxs):
                    for n in ('f', 'f.json', 'q', 'p', 'z'):
                        got, paths = attempt(lambda: cat.load_json(URI(u + n)))
                        judge(ctx, dirs[a], n, s, got, paths, f'{u + n} of {list(zip(uris, assign, sfxs))}', False)
                        ctx.state((assign, sfxs, u, n))
