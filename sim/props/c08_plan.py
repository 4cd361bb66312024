import copy

from .. import cases, faults

LEVEL = 'fault_enumeration'
TECHNIQUE = ('the command line program run in a simulated process with every disk operation failed in turn, seeded lasting faults and full disks, '
             'solver faults, and bad settings; exit status against the artefacts read back independently')
NOTE = ('enumerates every operation of a run with one legal error each; seeded faults and settings on top; with and without python -O')
RULE = 'a run = one invocation with at most one fault plan or defect in the settings; distinct by settings, fault and lane'
STATES = 'pairs (operation kind and file of the fault, fault, exit status, first artefact missing)'
REAL = ['__main__.py, runner/cli.py, the whole package, pandas, xlsxwriter, matplotlib, holoviews, bokeh', 'kernel file system']
STUBS = ['LaTeX: labels are set by matplotlib itself', 'interpreter start: a fork of a warm interpreter with the package imported again']
ASSUMES = ['the exit status is the one the interpreter derives from what main() returned or raised']
LANES = {'std': {}, 'opt': {'flags': ['-O']}}

BAD = ['nodir', 'nofile', 'empty', 'syntax', 'nullbyte', 'encoding', 'raises', 'importerror', 'isdir', 'no_output_args', 'no_rig', 'unknown_key', 'badtype',
       'case', 'case', 'case', 'case', 'sails_def', 'zero_panels', 'negative_panels', 'unreadable', 'emptyname', 'filename_dir', 'outfile', 'noarg', 'badarg',
       'name_none', 'dangling', 'outfile_parent', 'chords_only']
BAD += ['refuse:wind:logarithmic:roughness', 'refuse:wind:logarithmic:wind_reference_measurment_height', 'refuse:wind:exponential:wind_exp_coeff',
        'refuse:wind:exponential:wind_reference_measurment_height', 'refuse:wind:flat:wind_exp_coeff', 'refuse:wind:flat:wind_reference_measurment_height',
        'refuse:rig'] + [f'refuse:{k}:{x}' for k in ('missing', 'shapes') for x in ('girths', 'centerline_twist_deg', 'camber', 'camber_distance_from_luff', 'chords')]
NUM = ['nan_one', 'nan_all', 'inf_one', 'scaled', 'zero', 'negated', 'offset_one', 'offset_all', 'lower_half', 'upper_half', 'swapped', 'raise']
OUT = ['abs', 'rel', 'nested', 'exists', 'relnested', 'updir', 'spaces']
DV = ['abs', 'abs', 'rel', 'cwd', 'slash', 'spaces']


def small(rng):
    return cases.case(rng, ns=rng.choice([1, 2]), nc=rng.choice([1, 2]))


def lane(rng):
    return rng.choice(['std', 'std', 'opt'])


def plan(rng, pool):
    k = rng.random()
    spec = {'case': rng.choice(pool), 'out': rng.choice(['abs', 'abs', 'nested', 'exists', 'rel']), 'dv': 'abs'}
    p = {'spec': spec, 'seed': rng.getrandbits(32), 'lane': lane(rng), 'xdev': rng.random() < 0.3}
    if k < 0.5:
        return {**p, 'kind': 'fault', 'fault': faults.draw(rng), 'where': rng.choice(['', 'out', 'out/variables', 'out/cp_', 'out/section_cl', 'out/section_cd',
                                                                                     'set/', 'tmp/'])}
    if k < 0.72:
        return {**p, 'kind': 'input', 'bad': rng.choice(BAD), 'pick': rng.getrandbits(30)}
    if k < 0.87:
        return {**p, 'kind': 'solver', 'num': {'mode': rng.choice(NUM), 'panel': round(rng.random(), 3), 'eps': rng.choice([1e-6, 1e-3, 0.1, -0.5, 1.0]), 'at': 0}}
    spec = {'case': small(rng), 'out': rng.choice(OUT), 'dv': rng.choice(DV), 'file_name': rng.choice(['res', 'my results', 'v1.2'])}
    return {**p, 'kind': 'valid', 'spec': spec}


def sweep(rng, n, tier, pool):
    spec = {'case': pool[0], 'out': 'abs', 'dv': 'abs'}
    out = []
    for i in range(n):
        for j in range(1 if tier == 'quick' else 5):
            f = {'do': 'one', 'frac': round((i + 0.5) / n, 5), 'pick': round(rng.random() if tier == 'quick' else j / 5, 4)}
            out.append({'kind': 'sweep', 'spec': spec, 'fault': f, 'where': '', 'seed': 7, 'lane': 'std', 'xdev': False})
    return out


def plans(rng, tier):
    pool = [cases.case(rng, sails=s, ns=2, nc=1) for s in ('jib_and_main', 'jib', 'main')]
    a = sweep(rng, 209, tier, pool)
    rng.shuffle(a)
    a = a if tier != 'quick' else a[:105]       # with VERIF_SEED another half; all of the final artefacts below
    tail = [{'kind': 'sweep', 'spec': {'case': pool[0], 'out': 'abs', 'dv': 'abs'}, 'fault': {'do': do, 'frac': 1 - (i + 0.5) / 209, 'pick': round(rng.random(), 4)},
             'where': '', 'seed': 7, 'lane': 'std', 'xdev': False} for i in range(20) for do in ('one', 'one', 'full')]
    b = [plan(rng, pool) for _ in range(140 if tier == 'quick' else 12000)]
    one = [{'spec': {'case': rng.choice(pool), 'out': 'abs', 'dv': 'abs'}, 'seed': rng.getrandbits(32), 'lane': lane(rng), 'xdev': False, 'kind': 'input', 'bad': k,
            'pick': rng.getrandbits(30)} for k in sorted(set(BAD)) + ['case'] * 4]
    out = a + tail + b + one
    rng.shuffle(out)
    return out


def shrink(p):
    s = p['spec']
    for k, v in (('out', 'abs'), ('dv', 'abs'), ('file_name', 'res')):
        if s.get(k, v) != v:
            yield {**copy.deepcopy(p), 'spec': {**s, k: v}}
    if p['xdev']:
        yield {**copy.deepcopy(p), 'xdev': False}
    if p['lane'] != 'std':
        yield {**copy.deepcopy(p), 'lane': 'std'}
    if p.get('fault', {}).get('do') in ('lasting', 'full'):
        yield {**copy.deepcopy(p), 'fault': {**p['fault'], 'do': 'one'}}
    for c in cases.simpler(s['case']):
        yield {**copy.deepcopy(p), 'spec': {**s, 'case': c}}
