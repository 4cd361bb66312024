import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('simultaneous saves by simulated processes (interleaved at every disk operation) and simulated threads (interleaved at source lines '
             'and disk operations) into one directory under a seeded scheduler, some processes dying on the way')
NOTE = ('seeded schedules of 2-4 savers, with equal or different entropy, missing, nested, existing and prefilled directories; each published '
        'workbook is checked at every change and against every saved analysis')
RULE = ('a run = 2-4 savers, one save each (threads: up to 2), one schedule; distinct by savers and switches taken')
STATES = 'pairs (operation before, operation after) at the switches between savers'
REAL = ['results/save_utils.py, pandas, xlsxwriter, tempfile, zipfile', 'kernel file system', 'processes: real forks; threads: real threads']
STUBS = ['scheduler: the simulator decides who makes the next disk operation (processes) or executes the next line (threads)']
ASSUMES = ['death of the process, not of the machine', 'a thread is not preempted inside the libraries except at disk operations']
LANES = {'std': {}}


def plan(rng, kind=None):
    kind = kind or rng.choice(['procs', 'procs', 'procs', 'threads'])
    base = cases.case(rng, ns=rng.choice([1, 2]), nc=rng.choice([1, 2]))
    n = rng.choice([2, 2, 2, 3, 4])
    names = rng.choice([['res'], ['res'], ['a', 'b', 'c', 'd'], ['res', 'res', 'other', 'results']])
    savers = [{'case': rng.choice([cases.variant(rng, base), cases.case(rng, ns=1, nc=rng.choice([1, 3]))]), 'name': names[i % len(names)],
               'twice': rng.random() < 0.2} for i in range(n)]
    p = {'kind': kind, 'savers': savers, 'dir': rng.choice(['missing', 'missing', 'nested', 'nested', 'exists', 'prefilled']), 'xdev': rng.random() < 0.5,
         'entropy': rng.choice(['same', 'same', 'different']), 'seed': rng.getrandbits(32)}
    if kind == 'procs':
        p['sched'] = {'seed': rng.getrandbits(32), 'stick': rng.choice([0.0, 0.3, 0.6, 0.9, 0.97])}
        if rng.random() < 0.35:
            p['dies'] = {'saver': rng.randrange(n), 'at': rng.choice([rng.randrange(8), rng.randrange(200), 170 + rng.randrange(30)]),
                         'do': rng.choice(['crash', 'crash_after', 'torn'])}
    else:
        p['sched'] = {'kind': rng.choice(['random', 'burst', 'pct']), 'switches': rng.choice([3, 8, 30, 120]), 'seed': rng.getrandbits(32)}
    return p


def plans(rng, tier):
    return [plan(rng) for _ in range(520 if tier == 'quick' else 30000)]


def shrink(p):
    for i in range(len(p['savers'])):
        if len(p['savers']) > 2 and 'switches' not in (p['sched'] if p['kind'] == 'procs' else {}):
            q = copy.deepcopy(p)
            del q['savers'][i]
            if q.get('dies'):
                if q['dies']['saver'] == i:
                    del q['dies']
                elif q['dies']['saver'] > i:
                    q['dies']['saver'] -= 1
            yield q
    if p.get('dies'):
        q = copy.deepcopy(p)
        del q['dies']
        yield q
    for i, s in enumerate(p['savers']):
        if s['twice']:
            q = copy.deepcopy(p)
            q['savers'][i]['twice'] = False
            yield q
        for c in cases.simpler(s['case']):
            q = copy.deepcopy(p)
            q['savers'][i]['case'] = c
            yield q
    if p['dir'] != 'exists':
        yield {**copy.deepcopy(p), 'dir': 'exists'}
    if p['xdev']:
        yield {**copy.deepcopy(p), 'xdev': False}
    if p['kind'] == 'procs' and p['sched'].get('stick') not in (None, 0.97):
        yield {**copy.deepcopy(p), 'sched': {**p['sched'], 'stick': 0.97}}
    if isinstance(p['sched'].get('switches'), list):
        sw = p['sched']['switches']
        for size in (max(1, len(sw) // 2), max(1, len(sw) // 4), 2, 1):
            for i in range(0, len(sw), size):
                if len(sw) > size:
                    q = copy.deepcopy(p)
                    q['sched']['switches'] = sw[:i] + sw[i + size:]
                    yield q
