"""Development tool: compares the reference evaluator with the jsonschema package on the spaces of the evaluator checks.
usage: python3-vt tools/crosscheck.py C02 [tier] [stride]"""
import collections
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'mc'))
import jsonschema                                                           # noqa: E402
import referencing                                                          # noqa: E402
import referencing.jsonschema                                               # noqa: E402
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import core                                                                 # noqa: E402
import env                                                                  # noqa: E402
env.install()
import evalcheck                                                            # noqa: E402

CLS = {'2019-09': jsonschema.Draft201909Validator, '2020-12': jsonschema.Draft202012Validator}
SPEC = {'2019-09': referencing.jsonschema.DRAFT201909, '2020-12': referencing.jsonschema.DRAFT202012}


def verdicts(ctx, bench, value, version, instances, docs=None, label=''):
    n = [0, 0]
    if version not in CLS or version == os.environ.get("SKIP"):
        return n
    ev, node = evalcheck.ref(value, version, docs)
    reg = referencing.Registry().with_resources([(u, SPEC[version].create_resource(d)) for u, d in (docs or {}).items()])
    doc = value
    if isinstance(value, dict) and '$id' not in value:
        doc = {'$id': evalcheck.BASE, **value}
    v = CLS[version](doc, registry=reg)
    for x in instances:
        want = ev.run(node, x).valid
        n[want] += 1
        try:
            got = v.is_valid(x)
        except Exception as e:
            ctx.outcome('jsonschema raises ' + type(e).__name__)
            continue
        ctx.step()
        if got is not want:
            ctx.violation(f'{version} {json.dumps(value)} on {json.dumps(x)[:200]}: jsonschema {got}, reference {want}')
    return n


evalcheck.verdicts = verdicts
cid = sys.argv[1].lower()
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
m = importlib.import_module('checks.' + cid)
ctx = core.Ctx(tier)
m.setup(ctx) if hasattr(m, 'setup') else None
for i, case in enumerate(m.cases(tier)):
    if i % int(sys.argv[3] if len(sys.argv) > 3 else 1):
        continue
    ctx.index, ctx.case = i, case
    try:
        m.run_case(case, ctx)
    except core.Stop:
        pass
print(cid, 'compared', ctx.transitions, 'disagreements', ctx.nfound, dict(ctx.outcomes.most_common(5)))
for f in ctx.found[:40]:
    print('  ', f[3][:400])
