import copy

from .. import cases, faults

LEVEL = 'fault_enumeration'
TECHNIQUE = ('process death and disk errors at every disk operation of a save in turn, plus seeded histories of saves; the published '
             'workbooks are inspected before every disk operation and after the process ended')
NOTE = ('enumerates every operation of a save over an existing workbook with death before, after or inside it and one legal error each; '
        'seeded histories of saves, restarts and faults on top; the temporary directory is a file system of its own in half the runs')
RULE = ('a run = 1-4 saves under 1-2 names by 1-3 processes one after another on one disk, some of them with a crash or a disk error; '
        'distinct by saves, names and faults')
STATES = 'pairs (operation kind and place of the fault, fault, what was published before, what is published after)'
REAL = ['results/save_utils.py, pandas, xlsxwriter, tempfile, zipfile', 'kernel file system']
STUBS = ['process death: the simulated process ends at the operation, files keep what reached the kernel']
ASSUMES = ['death of the process, not of the machine: data the kernel has accepted is not lost']
LANES = {'std': {}}


def step(rng, base, name='res'):
    return {'case': rng.choice([cases.variant(rng, base), cases.case(rng), base]), 'name': name, 'fault': None}


def plan(rng):
    base = cases.case(rng, ns=rng.choice([1, 2]), nc=rng.choice([1, 2]))
    names = rng.choice([['res'], ['res'], ['res', 'other'], ['res', 'res2'], ['res', 'résultats 2']])
    procs = []
    for _ in range(rng.randint(1, 3)):
        procs.append([step(rng, base, rng.choice(names)) for _ in range(rng.randint(1, 2))])
    n = sum(map(len, procs))
    for k in rng.sample(range(n), min(n, rng.choice([1, 1, 2]))):
        s = [s for p in procs for s in p][k]
        s['fault'] = faults.draw(rng, crash=rng.random() < 0.5)
        s['where'] = rng.choice(['', 'out', 'out', 'tmp/'])
    return {'kind': 'history', 'procs': procs, 'xdev': rng.random() < 0.5, 'dir': rng.choice(['flat', 'nested', 'there']), 'seed': rng.getrandbits(32)}


def sweep(rng, n, tier):
    a = cases.case(rng, sails='jib', ns=1, nc=2)
    b = cases.variant(rng, a)
    out = []
    for i in range(n):
        kinds = [rng.choice(['crash', 'crash_after', 'torn'])] + ['one'] * (i % 2) if tier == 'quick' else ['crash', 'crash_after', 'torn', 'one', 'one', 'one', 'lasting']
        for j, do in enumerate(kinds):
            f = {'do': do, 'frac': round((i + 0.5) / n, 5), 'pick': round(rng.random(), 4), 'which': rng.randrange(len(faults.LASTING))}
            out.append({'kind': 'sweep', 'procs': [[{'case': a, 'name': 'res', 'fault': None}], [{'case': b, 'name': 'res', 'fault': f, 'where': ''}]],
                        'xdev': bool((i + j) % 2), 'dir': 'flat', 'seed': 7})
    return out


def plans(rng, tier):
    a = sweep(rng, 210, tier)
    b = [plan(rng) for _ in range(160 if tier == 'quick' else 20000)]
    rng.shuffle(a)
    out = []
    while a or b:
        if b:
            out.append(b.pop())
        if a:
            out.append(a.pop(0))
    return out


def shrink(p):
    for i in range(len(p['procs'])):
        if len(p['procs']) > 1:
            q = copy.deepcopy(p)
            del q['procs'][i]
            yield q
        for j in range(len(p['procs'][i])):
            if len(p['procs'][i]) > 1:
                q = copy.deepcopy(p)
                del q['procs'][i][j]
                yield q
    for i, pr in enumerate(p['procs']):
        for j, s in enumerate(pr):
            if s['fault']:
                q = copy.deepcopy(p)
                q['procs'][i][j]['fault'] = None
                yield q
                if s['fault']['do'] in ('lasting', 'full', 'torn', 'crash_after'):
                    q = copy.deepcopy(p)
                    q['procs'][i][j]['fault']['do'] = 'one' if s['fault']['do'] in ('lasting', 'full') else 'crash'
                    yield q
            for c in cases.simpler(s['case']):
                q = copy.deepcopy(p)
                q['procs'][i][j]['case'] = c
                yield q
    if p['xdev']:
        yield {**copy.deepcopy(p), 'xdev': False}
    if p['dir'] != 'flat':
        yield {**copy.deepcopy(p), 'dir': 'flat'}
