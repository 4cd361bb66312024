import copy

from .. import cases
from ..world import LEGAL

LEVEL = 'exploration'
TECHNIQUE = ('first imports of the package in simulated processes over a kernel cache that is cold, filled, damaged, unwritable, shared, or being filled by other simulated '
             'processes under a seeded schedule with disk errors and deaths; numbers against those of interpreted kernels')
NOTE = 'every simulated process imports the package itself; compiled against interpreted kernels, also at degenerate points'
RULE = 'a run = one state of the cache and 1-4 processes that use it; distinct by state, faults, schedule and workload'
STATES = 'tuples (kind, state of the cache, place of the cache, fault or damage, outcome of each process)'
REAL = ['solver/velocity.py, solver/coefs.py and the whole package', 'numba compiler and its cache', 'kernel file system']
STUBS = ['interpreter start: a fork of an interpreter that has imported numba, not the package']
ASSUMES = ['one version of numba, one kind of processor', 'bits do not flip in cache files']
LANES = {'std': {}}
DAMAGE = ['delete', 'delete', 'truncate', 'truncate', 'junk', 'touch', 'isfile', 'empty', 'half', 'otherpy', 'nodata', 'noindex', 'moved']


def fault(rng):
    x = rng.random()
    n = rng.randrange(120)
    if x < 0.45:
        return {'nth': n, 'do': rng.choice(['crash', 'crash_after', 'torn', 'torn'])}
    if x < 0.6:
        return {'from': 0, 'kinds': ['create', 'write', 'mkdir', 'rename'], 'do': rng.choice(['ENOSPC', 'EACCES', 'EROFS', 'EIO'])}
    k = rng.choice(['create', 'write', 'write', 'rename', 'open', 'read', 'close', 'mkdir', 'unlink'])
    return {'nth': rng.randrange({'mkdir': 2, 'unlink': 4}.get(k, 20)), 'kinds': [k], 'do': rng.choice(LEGAL[k])}


def work(rng, pool, wings, n):
    return {'cases': rng.sample(pool, n), 'wing': rng.choice(wings), 'points': rng.getrandbits(30)}


def plans(rng, tier):
    pool = [cases.case(rng) for _ in range(40 if tier == 'quick' else 400)]
    few = [cases.case(rng, sails='jib_and_main', ns=2, nc=2), cases.case(rng, sails='main', ns=3, nc=1)]
    wings = [cases.free_wing(rng) for _ in range(6)]
    q = tier == 'quick'
    out = []
    for _ in range(8 if q else 500):
        k = rng.choice([2, 2, 3])
        out.append({'kind': 'together', 'state': rng.choice(['cold', 'cold', 'delete', 'half']), 'place': rng.choice(['tree', 'tree', 'env']), 'n': k, 'damage': rng.getrandbits(30),
                    'schedule': {'seed': rng.getrandbits(30), 'stick': rng.choice([0.3, 0.8, 0.95])},
                    'kills': [[rng.randrange(250), rng.randrange(k)] for _ in range(rng.choice([0, 0, 1, 2]))], 'work': work(rng, few, wings, 1)})
    for _ in range(22 if q else 3000):
        out.append({'kind': 'fault', 'state': rng.choice(['cold', 'cold', 'warm', 'delete', 'half']), 'place': rng.choice(['tree', 'tree', 'env', 'home']), 'damage': rng.getrandbits(30),
                    'fault': fault(rng), 'work': work(rng, few, wings, 1)})
    for i in range(26 if q else 4000):
        out.append({'kind': 'damage', 'state': DAMAGE[i % len(DAMAGE)], 'place': rng.choice(['tree', 'tree', 'env']), 'damage': rng.getrandbits(30),
                    'threads': rng.choice([None, None, '1', '3', '8']), 'work': work(rng, few, wings, 1)})
    for i in range(44 if q else 6000):
        out.append({'kind': 'modes', 'state': 'warm', 'place': 'tree', 'damage': 0, 'threads': rng.choice([None, '1', '3', '8']), 'work': work(rng, pool, wings, 4)})
    for p in out:
        p['lane'] = 'std'
        p['seed'] = rng.getrandbits(30)
    return out


def shrink(p):
    for i in range(len(p['work']['cases'])):
        if len(p['work']['cases']) > 1:
            q = copy.deepcopy(p)
            del q['work']['cases'][i]
            yield q
    if p['kind'] in ('fault', 'damage') and p['state'] != 'warm':
        yield {**copy.deepcopy(p), 'state': 'warm'}
    if p.get('threads'):
        yield {**copy.deepcopy(p), 'threads': None}
    if p['place'] != 'tree':
        yield {**copy.deepcopy(p), 'place': 'tree'}
    for i in range(len(p.get('kills', []))):
        q = copy.deepcopy(p)
        del q['kills'][i]
        yield q
    for i, c in enumerate(p['work']['cases']):
        for d in cases.simpler(c):
            q = copy.deepcopy(p)
            q['work']['cases'][i] = d
            yield q
