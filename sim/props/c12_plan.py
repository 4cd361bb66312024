import copy

from .. import cases, faults
from .c08_plan import BAD, NUM

LEVEL = 'exploration'
TECHNIQUE = ('command line runs in simulated processes among files of others, healthy, killed, failed by disk errors or refused; every file operation '
             'of the process and the tree before and after it judged by where it points')
NOTE = 'operations outside the directories of the run are answered with an error and reported; settings, working and output directories in every arrangement'
RULE = 'a run = 1-3 invocations in one place; distinct by arrangement, settings and faults'
STATES = 'tuples (arrangement of the directories, way the run ended, position, operation and file of the fault)'
REAL = ['__main__.py, runner/cli.py, the whole package, pandas, xlsxwriter, matplotlib, holoviews, bokeh', 'kernel file system']
STUBS = ['LaTeX: labels are set by matplotlib itself', 'interpreter start: a fork of a warm interpreter with the package imported again',
         'operations outside the directories of the run: refused and recorded']
ASSUMES = ['caches of matplotlib and of the kernel compiler are given directories of their own']
LANES = {'std': {}}
OUT = ['abs', 'rel', 'rel', 'nested', 'relnested', 'updir', 'spaces', 'inset', 'exists']
DV = ['abs', 'abs', 'rel', 'cwd', 'slash', 'spaces']


def plan(rng, pool):
    x = rng.random()
    p = {'spec': {'case': rng.choice(pool), 'out': rng.choice(OUT), 'dv': rng.choice(DV)}, 'full': rng.random() < 0.5, 'xdev': rng.random() < 0.2,
         'seed': rng.getrandbits(30), 'pick': rng.getrandbits(30), 'lane': 'std', 'kind': 'runs'}
    if x < 0.2:
        p.update(kind='input', bad=rng.choice([b for b in BAD if b not in ('nodir', 'outfile', 'outfile_parent', 'emptyname', 'name_none', 'filename_dir', 'noarg', 'badarg',
                                                                          'unreadable', 'isdir', 'dangling')]), runs=[{}])
        return p
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        y = rng.random()
        if y < 0.35:
            runs.append({})
        elif y < 0.9:
            runs.append({'fault': faults.draw(rng, crash=rng.random() < 0.45), 'where': rng.choice(['', 'out', 'out', 'set/', 'tmp/', 'res.xlsx', 'section', 'cp_', 'variables'])})
        else:
            runs.append({'num': {'mode': rng.choice(NUM), 'panel': 0.3, 'eps': 0.1, 'at': 0}})
    return {**p, 'runs': runs}


def plans(rng, tier):
    pool = [cases.case(rng, sails=s, ns=rng.choice([1, 2]), nc=1) for s in ('jib_and_main', 'jib', 'main')]
    first = [{'spec': {'case': pool[i % 3], 'out': o, 'dv': d}, 'full': full, 'xdev': False, 'seed': 5, 'pick': i, 'lane': 'std', 'kind': 'runs', 'runs': [{}]}
             for i, (o, d, full) in enumerate((o, d, f) for o in sorted(set(OUT)) for d in ('abs', 'cwd') for f in (False, True))]
    return first + [plan(rng, pool) for _ in range(150 if tier == 'quick' else 9000)]


def shrink(p):
    for i in range(len(p['runs'])):
        if len(p['runs']) > 1:
            q = copy.deepcopy(p)
            del q['runs'][i]
            yield q
        if p['runs'][i].get('fault', {}).get('do') in ('lasting', 'full'):
            q = copy.deepcopy(p)
            q['runs'][i]['fault']['do'] = 'one'
            yield q
        if p['runs'][i]:
            q = copy.deepcopy(p)
            q['runs'][i] = {}
            yield q
    for k, v in (('out', 'abs'), ('dv', 'abs')):
        if p['spec'][k] != v:
            yield {**copy.deepcopy(p), 'spec': {**p['spec'], k: v}}
    for k in ('full', 'xdev'):
        if p[k]:
            yield {**copy.deepcopy(p), k: False}
    for c in cases.simpler(p['spec']['case']):
        yield {**copy.deepcopy(p), 'spec': {**p['spec'], 'case': c}}
