import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('seeded faults in the linear solver (failures, NaN, stale, scaled, shifted circulation) in sessions of analyses; '
             'every returned flow is rebuilt by an independent vortex lattice')
NOTE = ('seeded search over cases and solver faults with and without python -O and with interpreted kernels; the oracle is an independent '
        'implementation of the Biot-Savart sums and of the Kutta-Joukowski loads, which agrees with the code to 1e-13')
RULE = ('a run = a session of 1-3 analyses (sail sets or free wings) with one solver fault from the PRNG in one of them, followed by a '
        'healthy repetition; each returned flow compared with the independent lattice; distinct by case and fault')
STATES = 'pairs (fault mode, sail set or wing, mesh size, lane, raised or returned)'
REAL = ['all of pySailingVLM up to the result tables', 'numba-compiled kernels (lanes std, opt) or interpreted kernels (lane nojit)']
STUBS = ['dense solvers of numpy and scipy: real, with an armed fault altering or replacing the answer']
ASSUMES = ['the induced velocity of a vortex lattice is that of Katz & Plotkin with a core of 1e-8']
LANES = {'std': {}, 'opt': {'flags': ['-O']}, 'nojit': {'env': {'NUMBA_DISABLE_JIT': '1'}}}

EPS = [1e-8, -1e-8, 1e-6, -1e-5, 1e-3, -1e-2, 0.3, -0.5, 10.0]


def fault(rng):
    m = rng.choice(['none', 'none', 'raise', 'memory', 'nan_one', 'nan_all', 'inf_one', 'scaled', 'zero', 'negated', 'offset_one', 'offset_one',
                    'offset_all', 'lower_half', 'upper_half', 'single_precision', 'swapped', 'stale', 'stale', 'leak_one',
                    'leak_one', 'leak_pair', 'noise'])
    f = {'mode': m, 'at': rng.choice([0, 0, 0, 1, 'all']), 'panel': round(rng.random(), 4), 'eps': rng.choice(EPS), 'seed': rng.randrange(1000)}
    return None if m == 'none' else f


def plan(rng, lane):
    n = rng.randint(1, 3)
    base = cases.case(rng, small=lane == 'nojit' or rng.random() < 0.8, **({'ns': rng.randint(1, 2), 'nc': rng.randint(1, 2)} if lane == 'nojit' else {}))
    steps = []
    for i in range(n):
        if rng.random() < 0.25:
            steps.append({'wing': cases.free_wing(rng), 'fault': None})
        else:
            steps.append({'case': base if i == 0 else cases.variant(rng, base), 'fault': None})
    k = rng.randrange(n)
    f = fault(rng)
    if f and f['mode'] == 'stale':
        # an answer of the same size has to exist
        first = copy.deepcopy(steps[k])
        if 'wing' in first:
            first['wing']['AoA_deg'] += 1.5
        else:
            first['case'] = cases.variant(rng, first['case'])
            first['case']['solver'] = dict(steps[k]['case']['solver'])
        steps.insert(k, first)
        k += 1
    steps[k]['fault'] = f
    again = copy.deepcopy(steps[k])
    again['fault'] = None
    steps.append(again)
    return {'kind': ('wing' if 'wing' in steps[k] else 'sails') + '/' + (f['mode'] if f else 'healthy') + '/' + lane, 'lane': lane, 'steps': steps,
            'seed': rng.getrandbits(32)}


def plans(rng, tier):
    n = 900 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        x = rng.random()
        out.append(plan(rng, 'nojit' if x < 0.06 else 'opt' if x < 0.35 else 'std'))
    return out


def shrink(p):
    if len(p['steps']) > 1:
        for i in range(len(p['steps'])):
            q = copy.deepcopy(p)
            del q['steps'][i]
            yield q
    for i, s in enumerate(p['steps']):
        if s['fault'] and s['fault'].get('panel'):
            q = copy.deepcopy(p)
            q['steps'][i]['fault']['panel'] = 0
            yield q
        if 'case' in s:
            for c in cases.simpler(s['case']):
                q = copy.deepcopy(p)
                for t in q['steps']:
                    if 'case' in t:
                        t['case']['solver'] = c['solver']
                        t['case']['rig']['sails_def'] = c['rig']['sails_def']
                        t['case']['conditions']['wind_profile'] = c['conditions']['wind_profile']
                yield q
