import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of command line runs, direct plots, figures left open, disk errors and interruptions while drawing, in one simulated process; '
             'every figure read at the moment it is written, every page read back, against coefficients recomputed from the panel loads of a fresh process')
NOTE = 'section coefficients recomputed from panel loads; pictures compared pixel by pixel with those of a fresh process in part of the histories'
RULE = 'a run = one history of 2-6 steps; distinct by settings and steps'
STATES = 'tuples (kind of plot, sails, last two disturbances, way the step was stopped, completed)'
REAL = ['runner/cli.py, solver/panels_plotter.py, solver/coefs.py, the whole package, matplotlib, holoviews, bokeh', 'kernel file system']
STUBS = ['rasterising of the section plots in most histories', 'LaTeX: labels are set by matplotlib itself', 'the user closing the window of the 3D view']
ASSUMES = ['outside IPython']
LANES = {'std': {}}
LEFT = ['plot', 'subplots', 'number', 'twin', 'many', 'close', 'saved', 'rc', 'errstate']


def r(rng, a, b):
    return round(rng.uniform(a, b), 3)


def step(rng, n):
    x = rng.random()
    s = {'pick': rng.getrandbits(30)}
    if x < 0.45:
        s.update(op='run', case=rng.randrange(n))
        if rng.random() < 0.4:
            s['stop'] = rng.choice([{'how': 'before', 'at': 0}, {'how': 'after', 'at': 0}, {'how': 'before', 'at': 1}, {'how': 'after', 'at': 1}, {'how': 'solver'},
                                    {'how': 'disk', 'path': 'section_cl'}, {'how': 'disk', 'path': 'section_cd'}, {'how': 'disk', 'path': 'cp_plot'},
                                    {'how': 'disk', 'path': 'res.xlsx'}])
        return s
    if x < 0.65:
        k = rng.choice([1, 2])
        m = rng.randint(1, 4)
        q = rng.randint(1, 4)
        s.update(op='plot', what=rng.choice(['lift', 'drag']), x=[[r(rng, 0, 2) for _ in range(m)] for _ in range(k)], y=[[r(rng, 0, 12) for _ in range(m)] for _ in range(k)],
                 mesh=[[[r(rng, -3, 3), 0.0, r(rng, 0, 9)] for _ in range(4)] for _ in range(q)], p=[r(rng, -2, 2) for _ in range(q)])
        return s
    if x < 0.75:
        s.update(op='series', case=rng.randrange(n), n=rng.randint(5, 40), collect=rng.random() < 0.5)
        return s
    s.update(op='left', what=rng.choice(LEFT))
    return s


def plan(rng, pool):
    cs = rng.sample(rng.choice(pool), 2) if rng.random() < 0.6 else [rng.choice(p) for p in rng.sample(pool, 2)]
    steps = [step(rng, 2) for _ in range(rng.randint(1, 5))]
    steps.append({'op': 'run', 'case': rng.randrange(2), 'pick': 0})
    return {'cases': cs, 'steps': steps, 'drawn': rng.random() < 0.12, 'shared': rng.random() < 0.5, 'seed': rng.getrandbits(30), 'lane': 'std'}


def plans(rng, tier):
    pool = [cases.case(rng, sails=s, ns=n, nc=m) for s, n, m in (('jib_and_main', 2, 2), ('jib', 3, 1), ('main', 2, 2), ('main', 3, 1), ('jib_and_main', 3, 1), ('jib', 2, 2))]
    pool = [[c, cases.variant(rng, c), cases.variant(rng, cases.variant(rng, c))] for c in pool]
    return [plan(rng, pool) for _ in range(180 if tier == 'quick' else 8000)]


def shrink(p):
    for i in range(len(p['steps']) - 1):
        q = copy.deepcopy(p)
        del q['steps'][i]
        yield q
    if p['drawn']:
        yield {**copy.deepcopy(p), 'drawn': False}
    if p['shared']:
        yield {**copy.deepcopy(p), 'shared': False}
    for i, s in enumerate(p['steps']):
        if s.get('stop'):
            q = copy.deepcopy(p)
            del q['steps'][i]['stop']
            yield q
    for i, c in enumerate(p['cases']):
        for d in cases.simpler(c):
            q = copy.deepcopy(p)
            q['cases'][i] = d
            yield q
