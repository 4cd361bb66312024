import copy

from .. import cases, faults

LEVEL = 'fault_enumeration'
TECHNIQUE = ('command line runs in simulated processes killed before, after and in the middle of their disk operations or failed by disk errors, '
             'then run again in the same place on a healthy disk; status, workbook cells, polygons and pixels against an undisturbed run')
NOTE = 'every operation below the output directory is a crash point; crash points elsewhere, errors, pairs of earlier runs are seeded'
RULE = 'a run = one or two disturbed invocations and a rerun; distinct by settings and faults'
STATES = 'tuples (operation kind and file of the fault, fault, number of files left behind)'
REAL = ['__main__.py, runner/cli.py, the whole package, pandas, xlsxwriter, matplotlib, holoviews, bokeh', 'kernel file system']
STUBS = ['LaTeX: labels are set by matplotlib itself', 'interpreter start: a fork of a warm interpreter with the package imported again']
ASSUMES = ['a completed disk operation survives the death of the process (no power failure)']
LANES = {'std': {}}
N_OUT = 26      # operations of a run below the output directory, about


def plans(rng, tier):
    pool = [cases.case(rng, sails=s, ns=2, nc=1) for s in ('jib_and_main', 'jib', 'main')]
    out = []
    where = 'out'
    for i in range(N_OUT):
        for do in ('crash', 'torn'):
            out.append(base(rng, pool[0], [{'fault': {'do': do, 'frac': (i + 0.5) / N_OUT, 'pick': 0}, 'where': where}]))
    for _ in range(75 if tier == 'quick' else 6000):
        e = [one(rng, pool) for _ in range(rng.choice([1, 1, 2]))]
        out.append(base(rng, rng.choice(pool), e, rng.choice(['abs', 'abs', 'nested', 'rel', 'exists', 'spaces'])))
    if tier != 'quick':
        for i in range(209):
            for do in ('crash', 'crash_after', 'torn', 'one'):
                out.append(base(rng, pool[0], [{'fault': {'do': do, 'frac': (i + 0.5) / 209, 'pick': round(rng.random(), 3)}, 'where': ''}]))
    rng.shuffle(out)
    return out


def one(rng, pool):
    e = {'fault': faults.draw(rng, crash=rng.random() < 0.5), 'where': rng.choice(['', 'out', 'out', 'out/variables', 'out/cp_', 'out/section', 'set/', 'tmp/'])}
    if rng.random() < 0.4:
        e['case'] = cases.variant(rng, rng.choice(pool)) if rng.random() < 0.5 else rng.choice(pool)
    if rng.random() < 0.3:
        e['same_process'] = True
    return e


def base(rng, case, earlier, out='abs'):
    return {'spec': {'case': case, 'out': out, 'dv': 'abs'}, 'earlier': earlier, 'seed': rng.getrandbits(28), 'reseed': rng.choice([0, 1]), 'xdev': rng.random() < 0.25, 'lane': 'std'}


def shrink(p):
    for i in range(len(p['earlier'])):
        if len(p['earlier']) > 1:
            q = copy.deepcopy(p)
            del q['earlier'][i]
            yield q
        e = p['earlier'][i]
        for k in ('case', 'same_process'):
            if e.get(k):
                q = copy.deepcopy(p)
                del q['earlier'][i][k]
                yield q
        if e['fault']['do'] in ('lasting', 'full'):
            q = copy.deepcopy(p)
            q['earlier'][i]['fault']['do'] = 'one'
            yield q
    if p['spec']['out'] != 'abs':
        yield {**copy.deepcopy(p), 'spec': {**p['spec'], 'out': 'abs'}}
    if p['xdev']:
        yield {**copy.deepcopy(p), 'xdev': False}
    for c in cases.simpler(p['spec']['case']):
        yield {**copy.deepcopy(p), 'spec': {**p['spec'], 'case': c}}
