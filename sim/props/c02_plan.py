import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of analyses, edits, refusals, interruptions and saves in one process, each step compared with a fresh process'
NOTE = ('seeded search over session histories; each operation is compared with the same operation in a process that did nothing else, '
        'and inputs, earlier results and process-wide state are checked after every step')
RULE = ('a run = one session of 3-8 operations made from the PRNG (new analysis, the same again, the same geometry in another wind, '
        'the loads of the same flow about another point, '
        'in-place edit of the inputs and again, refused input, analysis interrupted half way, free wing, up to 30 analyses in a row of which nothing is kept, save, scribbling over returned '
        'arrays and default settings), each compared with the same operation in a process that did nothing else; distinct by operation list')
STATES = 'ordered pairs (previous operation kind, operation kind) with sail set and mesh size'
REAL = ['all of pySailingVLM in one process', 'numba-compiled kernels', 'pandas, xlsxwriter, scipy']
STUBS = []
ASSUMES = ['a fresh fork of an interpreter that has only imported the package stands for a fresh process']
LANES = {'std': {}}

EDITS = ['chords', 'centerline_twist_deg', 'camber', 'tws_ref', 'alpha_true_wind_deg', 'heel_deg', 'leeway_deg', 'rho', 'main_sail_luff',
         'jib_luff', 'csys', 'wind_profile', 'keel', 'girths']


def plan(rng):
    base = cases.case(rng)
    ops = []
    slots = 0
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if slots == 0 or x < 0.25:
            c = base if slots == 0 else rng.choice([cases.variant(rng, base), cases.variant(rng, base), cases.case(rng), base])
            ops.append({'op': 'new', 'case': c})
            slots += 1
        elif x < 0.37:
            ops.append({'op': 'again', 'slot': rng.randrange(slots), 'reuse': rng.choice(['all', 'csys', 'sail', 'wind', 'sail_set', 'vlm', 'vlm', ''])})
        elif x < 0.40:
            ops.append({'op': 'rewind', 'slot': rng.randrange(slots), 'csys': [cases.r(rng, -1, 1), cases.r(rng, -1, 1), cases.r(rng, -1, 2)]})
            slots += 1
        elif x < 0.47:
            ops.append({'op': 'rewind', 'slot': rng.randrange(slots), 'set': {
                'tws_ref': cases.r(rng, 2, 10), 'alpha_true_wind_deg': cases.r(rng, 30, 80), 'SOG_yacht': cases.r(rng, 1, 7),
                'wind_profile': rng.choice(['exponential', 'flat', 'logarithmic'])}})
            slots += 1
        elif x < 0.62:
            ops.append({'op': 'edit', 'slot': rng.randrange(slots), 'what': rng.choice(EDITS), 'by': rng.choice([1.07, 0.93, 1.2])})
        elif x < 0.69:
            ops.append({'op': 'refused', 'case': cases.invalid(rng, rng.choice([base, cases.case(rng)]))})
        elif x < 0.76:
            ops.append({'op': 'interrupted', 'slot': rng.randrange(slots), 'frac': round(rng.random(), 4),
                        'with': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        elif x < 0.84:
            ops.append({'op': 'fly', 'wing': cases.free_wing(rng)})
            if rng.random() < 0.5:
                w = dict(ops[-1]['wing'])
                w[rng.choice(['AoA_deg', 'half_wing_span', 'rho', 'chord_length'])] *= 1.3
                ops.append({'op': 'fly', 'wing': w})
        elif x < 0.855:
            ops.append({'op': 'series', 'case': rng.choice([base, cases.case(rng)]), 'n': rng.randint(4, 30), 'pick': rng.getrandbits(30), 'collect': rng.random() < 0.5})
        elif x < 0.90:
            ops.append({'op': 'save', 'slot': rng.randrange(slots)})
        elif x < 0.96:
            ops.append({'op': 'scribble', 'slot': rng.randrange(slots)})
        else:
            ops.append({'op': 'defaults'})
    ops.append({'op': 'again', 'slot': rng.randrange(slots), 'reuse': rng.choice(['', 'all', 'vlm'])})
    return {'kind': 'session', 'ops': ops, 'seed': rng.getrandbits(32)}


def plans(rng, tier):
    return [plan(rng) for _ in range(500 if tier == 'quick' else 30000)]


def shrink(p):
    n = len(p['ops'])
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            q = copy.deepcopy(p)
            q['ops'] = q['ops'][:i] + q['ops'][i + size:]
            if q['ops']:
                yield q
        size //= 2
    for i, op in enumerate(p['ops']):
        if op['op'] == 'new':
            for c in cases.simpler(op['case']):
                q = copy.deepcopy(p)
                q['ops'][i]['case'] = c
                yield q
