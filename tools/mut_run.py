"""Development tool, used by mutate.py: runs every n-th case of a check on the copy VERIF_REPO, stopping at the first violation."""
import importlib
import os
import resource
import signal
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
sys.dont_write_bytecode = True
import core
import env

resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
stride = int(sys.argv[1])
for cid in sys.argv[2:]:
    known = core.load_known(cid)
    ctx = core.Ctx('quick')
    signal.signal(signal.SIGPROF, core._hang)
    try:
        env.install()
        m = importlib.import_module('checks.' + cid.lower())
        ctx.index, ctx.case = -1, 'setup'
        if hasattr(m, 'setup'):
            m.setup(ctx)
        for i, case in enumerate(m.cases('quick')):
            if i % stride:
                continue
            ctx.index, ctx.case = i, case
            signal.setitimer(signal.ITIMER_PROF, core.CASE_CPU_S)
            try:
                m.run_case(case, ctx)
            except core.Stop:
                pass
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if any(f[1] not in known for f in ctx.found):
                break
        if hasattr(m, 'teardown'):
            m.teardown(ctx)
    except (Exception, core.Hang) as e:
        ctx.violation('raised ' + repr(e)[:200])
    bad = [f for f in ctx.found if f[1] not in known]
    if bad:
        print('CAUGHT', cid, bad[0][3][:200].replace('\n', ' '))
        os._exit(1)
print('SURVIVED')
sys.stdout.flush()
os._exit(0)
