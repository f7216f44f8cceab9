"""Development tool, not a check: builds /verif/seeded/<id>/ from tools/bugs.py and confirms each bug in a
scratch copy: it applies, changes original lines, keeps the stable tests passing, and its demo tells it apart.
usage: plant.py [--run] [id...]      (--run: also run the property's quick check on the patched copy)"""
import concurrent.futures
import difflib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
BASE = 'ae5dece'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def bundle(demo):
    out = {}
    for v in ('2019-09', '2020-12') + ('next',) * ("'next'" in demo):
        d = os.path.join(ROOT, 'mc/metaschemas', v)
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                out[v + '/' + os.path.relpath(p, d)[:-5]] = json.load(open(p))
    return json.dumps(out, separators=(',', ':'))


def make(b):
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    removed = []
    files = {}
    for path, old, new in b['edits']:
        src = files.get(path) or open(os.path.join('/repo', path)).read()
        found = re.findall(r'\n(?:[ ]*\n)*'.join(map(re.escape, [l for l in old.split('\n') if l.strip()])) + ('\n' if old[-1:] == '\n' else ''), src)
        if len(found) != 1:
            raise SystemExit(f'{b["id"]}: {len(found)} matches in {path} of {old!r}')
        files[path] = src.replace(found[0], new)
    for path, dst in files.items():
        src = open(os.path.join('/repo', path)).read()
        patch += ''.join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), 'a/' + path, 'b/' + path))
        removed += [(path, l[1:]) for l in difflib.unified_diff(src.splitlines(), dst.splitlines(), lineterm='', n=0) if l[:1] == '-' and l[:3] != '---']
    orig = {p: sh(['git', '-C', '/repo', 'show', f'{BASE}:{p}']).stdout for p in files}
    note = '' if any(l.strip() and l in orig[p].splitlines() for p, l in removed) else ' NO ORIGINAL LINE CHANGED'
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(f'#!/bin/sh\nexec {PY} -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'demolib' in b['demo']:
        shutil.copy(os.path.join(HERE, 'demolib.py'), d)
        open(os.path.join(d, 'metaschemas.json'), 'w').write(bundle(b['demo']))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return note


STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def confirm(b, run):
    d = os.path.join(ROOT, 'seeded', b['id'])
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        dd = os.path.join(tmp, 'd', b['id'])
        shutil.copytree(d, dd)
        env = dict(ENV, PYTHONPATH=r)
        a = sh(['sh', os.path.join(dd, 'demo.sh')], cwd=r, env=env)
        p = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r)
        z = sh(['sh', os.path.join(dd, 'demo.sh')], cwd=r, env=env)
        out = os.path.join(tmp, 't.json')
        test = open('/opt/vp/test.sh').read().replace('cd /repo ', f'cd {r} ').replace('/opt/vp/pytest_plugins', f'/opt/vp/pytest_plugins:{r}')
        sh(['bash', '-c', test, 'test.sh', out], env=dict(env, PYTHONPATH=r))
        got = json.load(open(out))
        broken = STABLE - set(got['passed'])
        res = []
        if a.returncode:
            res.append(f'DEMO FAILS ON CLEAN {a.stdout[-300:]}{a.stderr[-500:]}')
        if p.returncode:
            res.append('DOES NOT APPLY ' + p.stderr)
        if not z.returncode:
            res.append('DEMO PASSES WITH PATCH')
        elif 'FAILED' not in z.stdout:
            res.append(f'demo dies: {z.stderr[-300:]}')
        if broken:
            res.append(f'TESTS: {len(broken)} broken: {sorted(broken)[:2]}')
        if run:
            c = sh([PY, '-B', os.path.join(ROOT, 'mc/run.py'), b['property'], 'quick'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=tmp))
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            res.append(f'check {b["property"]}: ' + (f'CAUGHT ({len(v)})' if c.returncode == 1 and v else f'MISSED rc={c.returncode} {c.stdout[-200:]}{c.stderr[-200:]}'))
        return b['id'], '; '.join(res) or 'ok'
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    from bugs import BUGS
    args = sys.argv[1:]
    run = '--run' in args
    ids = [a for a in args if a[:2] != '--']
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    for b in todo:
        n = make(b)
        if n:
            print(b['id'], n)
    with concurrent.futures.ThreadPoolExecutor(1 if run else 6) as ex:
        for i, r in ex.map(lambda b: confirm(b, run), todo):
            print(i, r, flush=True)
