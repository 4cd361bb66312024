import copy

from .. import cases, faults

LEVEL = 'fault_enumeration'
TECHNIQUE = ('every disk operation of a save failed in turn, plus seeded disk faults over histories of saves; the workbook is read back by '
             'an independent reader and compared with the analysis')
NOTE = ('enumerates every operation of a save with one legal error each (all errors over the thorough tier), seeded search over '
        'cases, directories, histories and lasting faults; reader and expectation share no code with the package')
RULE = ('a run = 1-3 saves in one process, of analyses made from the PRNG, into directories given in several ways, with a disk fault '
        'in one of them; every save that returned is read back at the end; distinct by case, targets and fault')
STATES = 'pairs (operation kind and place of the fault, fault, outcome)'
REAL = ['results/save_utils.py, pandas, xlsxwriter, tempfile, zipfile', 'kernel file system']
STUBS = []
ASSUMES = ['workbook cells carry 8 decimals (components) and 2 decimals (totals), as the code formats them']
LANES = {'std': {}}

STYLES = ['abs', 'abs', 'rel', 'nested', 'dot', 'slash', 'unicode', 'parent', 'exists', 'exists']
NAMES = ['res', 'res', 'my results', 'v1.2', 'Ergebnis_ü', 'results_2024-01-01']


def step(rng, base, i, small=False):
    c = base if i == 0 else rng.choice([cases.variant(rng, base), cases.case(rng), base])
    return {'case': c, 'style': 'abs' if small else rng.choice(STYLES), 'name': 'res' if small else rng.choice(NAMES), 'same': rng.random() < 0.5,
            'fault': None, 'older': rng.random() < 0.15}


def plan(rng):
    base = cases.case(rng)
    steps = [step(rng, base, i) for i in range(rng.randint(1, 3))]
    if rng.random() < 0.7:
        s = rng.choice(steps)
        s['fault'] = faults.draw(rng)
        s['where'] = rng.choice(['', '', 'out', 'tmp/'])
    return {'kind': 'history', 'steps': steps, 'seed': rng.getrandbits(32)}


def sweep(rng, n, tier):
    """one save, every operation"""
    c = cases.case(rng, sails='jib', ns=1, nc=2)
    out = []
    for i in range(n):
        for j in range(1 if tier == 'quick' else 6):
            s = step(rng, c, 0, True)
            s['fault'] = {'do': 'one', 'frac': round((i + 0.5) / n, 5), 'pick': round(rng.random() if tier == 'quick' else j / 6, 4)}
            s['where'] = ''
            out.append({'kind': 'sweep', 'steps': [s], 'seed': 7})
    return out


def plans(rng, tier):
    a = sweep(rng, 210, tier)
    b = [plan(rng) for _ in range(360 if tier == 'quick' else 20000)]
    out = []
    while a or b:
        if b:
            out.append(b.pop())
        if a:
            out.append(a.pop(0))
    return out


def shrink(p):
    if len(p['steps']) > 1:
        for i in range(len(p['steps'])):
            q = copy.deepcopy(p)
            del q['steps'][i]
            yield q
    for i, s in enumerate(p['steps']):
        if s['fault']:
            q = copy.deepcopy(p)
            q['steps'][i]['fault'] = None
            yield q
        if s['style'] != 'abs':
            q = copy.deepcopy(p)
            q['steps'][i]['style'] = 'abs'
            yield q
        if s['name'] != 'res':
            q = copy.deepcopy(p)
            q['steps'][i]['name'] = 'res'
            yield q
        for c in cases.simpler(s['case']):
            q = copy.deepcopy(p)
            q['steps'][i]['case'] = c
            yield q
