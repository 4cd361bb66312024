#!/usr/bin/env python3
"""writes MANIFEST.json from the plan modules that exist"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PURE = ('a pure function of its arguments: no schedule, clock, I/O, randomness, process or fault enters its truth, so a simulator '
        'has nothing to schedule or to inject; deciding it would be sampling inputs against a formula, which is another technique')
NA = {
    'C20': PURE, 'C21': PURE, 'C22': PURE, 'C23': PURE, 'C24': PURE, 'C25': PURE, 'C26': PURE, 'C27': PURE,
}
TECH = 'deterministic simulation with fault injection: '


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        if p in NA:
            na.append({'property': p, 'reason': NA[p]})
            continue
        f = os.path.join(HERE, 'sim', 'props', p.lower() + '_plan.py')
        if not os.path.exists(f):
            na.append({'property': p, 'reason': 'check not built yet'})
            continue
        m = importlib.import_module('sim.props.' + p.lower() + '_plan')
        checks.append({
            'property': p,
            'quick_cmd': f'python3 check.py {p} --tier quick',
            'thorough_cmd': f'python3 check.py {p} --tier thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': TECH + m.TECHNIQUE,
            'level': m.LEVEL,
            'level_note': m.NOTE,
        })
    out = {
        'version': 1,
        'setup_cmd': 'python3 check.py --setup',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo: every seam is outside the code (libc shim, sys.monitoring, module attributes of numpy). '
                 'See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
