from .. import cases

LEVEL = 'exploration'
TECHNIQUE = 'seeded thread scheduler interleaving concurrent analyses at every source line or bytecode, results compared with each run alone'
NOTE = ('seeded search over workloads and interleavings of real threads in one process; compiled kernels and library calls are atomic '
        'steps; a violation is reported with its schedule and replays exactly')
RULE = ('a run = 2-4 caller threads, each with 1-2 analyses (sail sets, free wings, result tables, saves into a directory of its '
        'own) made from the PRNG, interleaved at every source line or bytecode instruction by a seeded scheduler (random, burst, '
        'PCT, or switching most of the time inside 1-4 functions drawn from those executed); non-trivial = at least one switch inside an analysis; distinct by workload and switch positions')
STATES = 'ordered pairs (code position of the preempted thread, code position of the resumed thread)'
REAL = ['all of pySailingVLM in one process, real threads', 'numba-compiled kernels (lane std) or their interpreted source (lane nojit)',
        'pandas, xlsxwriter, scipy']
STUBS = ['thread scheduler: one baton, switches decided by the plan', 'locks created by the code under test: simulated']
ASSUMES = ['a compiled kernel or library call is atomic, as under the GIL', 'graphics (pyplot is not thread-safe) are not part of the workload']
LANES = {'std': {}, 'nojit': {'env': {'NUMBA_DISABLE_JIT': '1'}}}


def program(rng, base, shared):
    n = rng.choice([1, 1, 2])
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.12:
            out.append({'op': 'fly', 'wing': cases.free_wing(rng)})
        else:
            c = base if shared else (cases.variant(rng, base) if rng.random() < 0.7 else cases.case(rng))
            out.append({'op': 'analyse', 'case': c, 'save': rng.random() < 0.4})
    return out


def plan(rng, tier):
    lane = 'nojit' if rng.random() < 0.15 else 'std'
    base = cases.case(rng, ns=rng.randint(1, 2), nc=rng.randint(1, 2)) if lane == 'nojit' else cases.case(rng)
    share = rng.random() < 0.2
    n = rng.choice([2, 2, 2, 3, 4]) if lane == 'std' else 2
    th = [program(rng, base, share) for _ in range(n)]
    if lane == 'nojit':
        th = [[op for op in t if op['op'] == 'analyse'][:1] or [{'op': 'analyse', 'case': base}] for t in th]
        for t in th:
            t[0]['case']['solver']['n_spanwise'] = base['solver']['n_spanwise']
            t[0]['case']['solver']['n_chordwise'] = base['solver']['n_chordwise']
    kind = rng.choice(['random', 'burst', 'pct', 'pct', 'focus', 'focus', 'focus', 'focus', 'focus'])
    k = rng.choice([2, 3, 5]) if kind in ('pct', 'focus') else rng.choice([4, 20, 100, 600])
    return {'kind': ('shared' if share else 'own') + '/' + kind + '/' + lane, 'lane': lane, 'threads': th, 'share': share,
            'gran': 'instr' if lane == 'std' and rng.random() < 0.25 else 'line',
            'sched': {'kind': kind, 'switches': k, 'seed': rng.getrandbits(48), **({'hot': rng.choice([1, 1, 2, 4]), 'p': rng.choice([0.02, 0.2, 0.7])} if kind == 'focus' else {})}, 'seed': rng.getrandbits(32)}


def plans(rng, tier):
    return [plan(rng, tier) for _ in range(180 if tier == 'quick' else 20000)]


def shrink(p):
    import copy
    if len(p['threads']) > 2:
        for i in range(len(p['threads'])):
            q = copy.deepcopy(p)
            del q['threads'][i]
            yield q
    for i, t in enumerate(p['threads']):
        if len(t) > 1:
            for j in range(len(t)):
                q = copy.deepcopy(p)
                del q['threads'][i][j]
                yield q
        for j, op in enumerate(t):
            if op.get('save'):
                q = copy.deepcopy(p)
                q['threads'][i][j]['save'] = False
                yield q
    if p['sched']['kind'] != 'explicit':
        if p['sched']['switches'] > 2:
            for k in (5, 20):
                if k < p['sched']['switches']:
                    for s in range(1):
                        q = copy.deepcopy(p)
                        q['sched'].update(switches=k, seed=s)
                        yield q
    else:
        sw = p['sched']['switches']
        n = len(sw)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                q = copy.deepcopy(p)
                q['sched']['switches'] = sw[:i] + sw[i + size:]
                yield q
            size //= 2
    for i, t in enumerate(p['threads']):
        for j, op in enumerate(t):
            if op['op'] == 'analyse':
                for c in cases.simpler(op['case']):
                    q = copy.deepcopy(p)
                    q['threads'][i][j]['case'] = c
                    yield q
