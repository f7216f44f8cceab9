"""Writes /verif/MANIFEST.json from the checks that exist and properties.jsonl."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = {
    'hist': 'exhaustive bounded exploration of operation histories on the real code, each step compared with a reference model',
    'input': 'explicit-state enumeration of a bounded input space; every input replayed on the real code against a reference model',
    'sched': 'stateless model checking: all thread interleavings up to a preemption bound under a controlled scheduler',
    'fault': 'exhaustive fault injection at every load of every document graph, with repair and retry, against a reference model',
    'prog': 'exhaustive enumeration of bounded schema programs; the real evaluator replayed against an independent reference evaluator',
}
CHECKS = {
    'C01': 'prog', 'C02': 'prog', 'C03': 'prog', 'C04': 'prog', 'C05': 'prog', 'C06': 'prog', 'C07': 'hist', 'C08': 'prog', 'C09': 'prog',
    'C10': 'prog', 'C11': 'hist', 'C12': 'input', 'C13': 'input', 'C14': 'input', 'C15': 'input', 'C16': 'input', 'C17': 'hist', 'C18': 'hist',
    'C19': 'hist', 'C20': 'hist', 'C21': 'input', 'C22': 'hist', 'C23': 'input', 'C24': 'hist', 'C25': 'fault', 'C26': 'hist', 'C27': 'prog',
    'C28': 'hist', 'C29': 'sched', 'C30': 'prog', 'C31': 'prog', 'C32': 'prog', 'C33': 'hist'}
NOTE = ('Every execution within the stated bounds is run on the real code in /repo and compared with an independent reference; nothing is '
        'sampled. Says nothing beyond the bounds (see the evidence file and DESIGN.md). Trusts the reference model in /verif/mc and CPython.')


def main():
    import sys
    sys.path.insert(0, HERE)
    checks, na = [], []
    for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)['id']
        if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
            run = f'/opt/venv/bin/python -B mc/run.py {p}'
            checks.append({'property': p, 'quick_cmd': f'{run} quick', 'thorough_cmd': f'{run} thorough', 'technique': TECH[CHECKS[p]],
                           'level': 'model_checking', 'level_note': NOTE})
        else:
            na.append({'property': p, 'reason': 'model checking applies, but the check is not built yet'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B mc/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Nothing in /repo is instrumented: no hooks. The commits in /repo are fixes only.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', len(na), 'unclaimed')


main()
