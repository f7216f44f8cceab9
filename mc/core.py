"""Runner shared by all checks: shards a finite, deterministic list of cases over
processes, runs each case on the real code, merges measured counts, writes evidence
and replay files, applies the known-findings file, sets the exit status."""
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
CASE_CPU_S = 120


class Hang(BaseException):
    pass


class Stop(Exception):
    """The current case cannot usefully go on after a violation."""


def h(obj):
    """64-bit hash of a canonical value; used only to count distinct states."""
    if not isinstance(obj, (str, bytes)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.bykey = collections.Counter()
        self.found = []       # (index, key, case, message)
        self.nfound = 0
        self.index = None
        self.case = None

    # --- used by checks -------------------------------------------------
    def state(self, key):
        """Record a model state; True if it had not been seen by this worker."""
        k = h(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, what):
        self.outcomes[str(what)] += 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, message, key=None, detail=None):
        self.nfound += 1
        self.bykey[key] += 1
        if self.bykey[key] <= (3 if key else 40):
            self.found.append((self.index, key or '', {'case': self.case, 'detail': detail}, message))

    def check(self, cond, message, key=None, detail=None):
        if not cond:
            self.violation(message, key, detail)
        return cond


def load_known(prop):
    known = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    parts = line[len('known: '):].split(' ', 2)
                    kv = dict(p.split('=', 1) for p in parts[:2])
                    if kv['property'] == prop:
                        known[kv['key']] = parts[2] if len(parts) > 2 else ''
    except FileNotFoundError:
        pass
    return known


def _hang(sig, frame):
    raise Hang()


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb][-6:]
    return f'{type(e).__name__}: {str(e)[:300]} at {" < ".join(reversed(where))}'


def _worker(mod, tier, w, n, known, out, stopfile):
    signal.signal(signal.SIGPROF, _hang)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    ctx = Ctx(tier)
    unknown_cases = 0
    t_first = None
    try:
        if hasattr(mod, 'setup'):
            ctx.index, ctx.case = -1, 'setup'
            mod.setup(ctx)
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            ctx.index, ctx.case = i, case
            before = sum(1 for f in ctx.found if f[1] not in known)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
            try:
                mod.run_case(case, ctx)
            except Stop:
                pass
            except Hang:
                ctx.violation(f'no answer within {CASE_CPU_S} s of CPU time')
            except MemoryError:
                ctx.violation('out of memory')
            except Exception as e:
                ctx.violation('unexpected exception: ' + _describe(e))
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.cases += 1
            if ctx.cases in (1, 5):
                ctx.sample(case)
            if sum(1 for f in ctx.found if f[1] not in known) > before:
                unknown_cases += 1
                open(stopfile, 'a').close()
                if unknown_cases >= 3:
                    break
            if ctx.cases % 16 == 0 and os.path.exists(stopfile):
                t_first = t_first or time.time()
                if time.time() - t_first > 15:
                    break
        if hasattr(mod, 'teardown'):
            mod.teardown(ctx)
    except Hang:
        ctx.violation('case enumeration or setup does not terminate')
    except Exception as e:
        ctx.violation('unexpected exception outside a case: ' + _describe(e))
    with open(out, 'wb') as f:
        pickle.dump(ctx, f)


def run(prop, tier, nproc=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)
    mod = None
    total = Ctx(tier)
    try:
        import env
        env.install()
        mod = importlib.import_module(f'checks.{prop.lower()}')
    except Exception as e:
        total.index, total.case = -1, 'import'
        total.violation('the code under test cannot be imported: ' + _describe(e))
    bounds = ''
    if mod is not None:
        bounds = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
        n = nproc or getattr(mod, 'NPROC', None) or min(8, os.cpu_count() or 1)
        tmp = tempfile.mkdtemp(prefix='verif-')
        stopfile = os.path.join(tmp, 'stop')
        pids = []
        sys.stdout.flush()
        gc.freeze()
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(mod, tier, w, n, known, os.path.join(tmp, f'{w}.pkl'), stopfile)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        for w, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            path = os.path.join(tmp, f'{w}.pkl')
            if st != 0 or not os.path.exists(path):
                total.index, total.case = -1, f'worker {w}'
                total.violation(f'worker {w} died with status {st}')
                continue
            with open(path, 'rb') as f:
                c = pickle.load(f)
            total.states |= c.states
            total.transitions += c.transitions
            total.traces += c.traces
            total.cases += c.cases
            total.outcomes.update(c.outcomes)
            total.samples += c.samples
            total.found += c.found
            total.nfound += c.nfound
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    new = sorted((f for f in total.found if f[1] not in known), key=lambda f: f[0])
    seen_known = collections.Counter(f[1] for f in total.found if f[1] in known)
    for k, what in known.items():
        if seen_known.get(k):
            print(f'KNOWN-FINDING: property={prop} {what} [{k}]')

    wall = time.time() - t0
    level_extra = getattr(mod, 'EVIDENCE', {}) if mod else {}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(total.states), 'transitions': total.transitions,
            'traces_validated_against_impl': total.traces,
            'cases': total.cases,
            'exhaustive': not new,
            'bounds': bounds,
            'distinct_outcomes': len(total.outcomes),
            'outcomes': dict(total.outcomes.most_common(12)),
            'samples': total.samples[:6],
            'meaning': getattr(mod, 'MEANING', '') if mod else '',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    ev['coverage'].update(level_extra)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with _plain_open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)

    print(f'{prop} {tier}: cases={total.cases} states={len(total.states)} transitions={total.transitions} '
          f'traces={total.traces} outcomes={len(total.outcomes)} wall={wall:.1f}s violations={len(new)}')
    if not new:
        return 0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for idx, key, case, msg in new[:3]:
        name = f'{prop}-{h([case, msg]):016x}.json'
        path = os.path.join(ROOT, 'replays', name)
        with _plain_open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'index': idx, 'key': key,
                       'case': case['case'], 'detail': case['detail'], 'message': msg}, f, indent=1, default=repr)
        print(f'  {msg[:600]}')
        print(f'  case: {json.dumps(case["case"], default=repr)[:600]}')
        print(f'VIOLATION property={prop} replay={path}')
    return 1


def _plain_open(path, mode):
    return open(path, mode, encoding='utf-8', errors='surrogatepass')


def replay(path):
    with open(path, encoding='utf-8', errors='surrogatepass') as f:
        r = json.load(f)
    import env
    env.install()
    mod = importlib.import_module(f'checks.{r["property"].lower()}')
    ctx = Ctx(r['tier'])
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    # the case is found again by its index, so that nothing depends on the JSON encoding of the case
    for i, case in enumerate(mod.cases(r['tier'])):
        if i == r['index']:
            break
    else:
        case = r['case']
    ctx.index, ctx.case = r['index'], case
    try:
        mod.run_case(case, ctx)
    except Stop:
        pass
    except Exception as e:
        ctx.violation('unexpected exception: ' + _describe(e))
    for f in ctx.found:
        print(f[3])
        print(json.dumps(f[2], default=repr, indent=1))
    return 1 if ctx.found else 0
