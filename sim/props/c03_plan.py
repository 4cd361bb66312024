import copy

from .. import cases

LEVEL = 'fault_enumeration'
TECHNIQUE = ('an interruption raised before seeded lines of the code under test during an analysis, a save or a section plot, once or twice, then '
             'the same call repeated with the same objects and compared with an undisturbed session')
NOTE = ('samples the lines an analysis executes (each line of source at least once over a sweep) and enumerates those of a save and a plot; '
        'Ctrl-C and MemoryError')
RULE = ('a run = one call, interrupted at 1-2 chosen lines, repeated; distinct by case, call and lines hit')
STATES = 'source lines at which an interruption arrived'
REAL = ['the package, pandas, xlsxwriter, matplotlib', 'kernel file system']
STUBS = ['interruption: raised by the simulator before a chosen line instead of by a signal handler', 'LaTeX: labels are set by matplotlib itself']
ASSUMES = ['interruptions arrive between source lines of the package (not inside libraries)']
LANES = {'std': {}}

OPS = ['analyse', 'analyse', 'parts', 'save', 'save', 'resave', 'plot', 'fly', 'vlm']


def plan(rng):
    op = rng.choice(OPS)
    c = cases.case(rng, ns=rng.choice([1, 2, 3]), nc=rng.choice([1, 2]))
    return {'kind': op, 'case': c, 'wing': cases.free_wing(rng), 'cuts': [[round(rng.random(), 6), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
                                                                         for _ in range(rng.choice([1, 1, 1, 2]))],
            'other': rng.random() < 0.25, 'by': rng.choice(['event', 'event', 'line']), 'seed': rng.getrandbits(32)}


def sweep(rng, op, n):
    """every distinct source line of the call in turn"""
    c = cases.case(rng, sails='jib_and_main', ns=2, nc=2)
    w = cases.free_wing(rng)
    return [{'kind': op, 'case': c, 'wing': w, 'cuts': [[round((i + 0.5) / n, 6), rng.choice(['KeyboardInterrupt', 'MemoryError'])]], 'other': False,
             'by': 'line', 'seed': 7} for i in range(n)]


def plans(rng, tier):
    if tier == 'quick':
        out = [plan(rng) for _ in range(230)] + sweep(rng, 'save', 100) + sweep(rng, 'plot', 22) + sweep(rng, 'analyse', 150)
    else:
        out = [plan(rng) for _ in range(20000)] + sweep(rng, 'save', 110) + sweep(rng, 'resave', 110) + sweep(rng, 'plot', 40) + sweep(rng, 'analyse', 700)\
            + sweep(rng, 'fly', 300)
    rng.shuffle(out)
    return out


def shrink(p):
    if len(p['cuts']) > 1:
        for i in range(len(p['cuts'])):
            q = copy.deepcopy(p)
            del q['cuts'][i]
            yield q
    if p['other']:
        yield {**copy.deepcopy(p), 'other': False}
    if p['kind'] in ('parts', 'vlm'):
        yield {**copy.deepcopy(p), 'kind': 'analyse'}
    for c in cases.simpler(p['case']):
        yield {**copy.deepcopy(p), 'case': c}
