"""Developer aid: distinct violation messages of a check, single process."""
import sys, re, collections
sys.path.insert(0, '/verif/mc')
import core, env, importlib
env.install()
mod = importlib.import_module('checks.' + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
sel = sys.argv[3] if len(sys.argv) > 3 else ''
ctx = core.Ctx(tier)
if hasattr(mod, 'setup'): mod.setup(ctx)
import time
c = collections.Counter(); ex = {}
def v(message, key=None, detail=None):
    k = re.sub(r'[0-9]+', '#', message)[:int(sys.argv[4]) if len(sys.argv) > 4 else 120]
    c[k] += 1; ex.setdefault(k, (message, ctx.case))
ctx.violation = v
tt = collections.Counter()
for case in mod.cases(tier):
    if sel and sel not in repr(case): continue
    ctx.case = case
    t = time.time()
    try: mod.run_case(case, ctx)
    except core.Stop: pass
    except Exception as e:
        v('EXC ' + core._describe(e))
    tt[str(case[0])] += time.time() - t
if hasattr(mod, 'teardown'): mod.teardown(ctx)
for k, n in c.most_common(25): print(n, ex[k][0][:500], '| case', ex[k][1])
print(tt, len(ctx.states), ctx.transitions)
