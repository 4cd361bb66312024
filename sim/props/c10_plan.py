import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('default output directories and whole command line runs under a simulated wall clock: seeded start times around the boundaries of the '
             'calendar, time zones, fast and slow clocks, clocks set back, same and different processes')
NOTE = 'pairs of starts whose local time is the same to the second (the hour repeated in autumn) are outside the property'
RULE = 'a run = one history of starts in 1-3 processes; distinct by start times, zones and clock rates'
STATES = 'tuples (kind of start, settings, same process, digits of the local time shared with the previous start, speed of the clock)'
REAL = ['runner/container.py, runner/cli.py, shipped variables.py and examples/*variables.py (with fewer panels), the whole package']
STUBS = ['the drawing itself (not its preparation) in most histories', 'LaTeX', 'interpreter start: a fork of a warm interpreter with the package imported again']
ASSUMES = ['the clock of one machine; its time zone may differ between processes']
LANES = {'std': {}}
SEC = 10**9
ZONES = ['UTC', 'Europe/Warsaw', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Pacific/Marquesas', 'Australia/Lord_Howe', 'XYZ-13:45', 'ABC+11']
TEMPLATES = ['template:variables.py', 'template:examples/variables.py', 'template:examples/rectangle_variables.py', 'template:examples/sweep_variables.py',
             'default', 'named', 'container']
# midnight, new year, ISO years, leap days, month ends, changes to and from summer time (UTC seconds)
MARKS = [946684800, 1704067200, 1735689600, 1230768000, 1109635200 - 86400, 1709164800, 1711846800, 1729990800, 1698541200, 1711864800, 1730613600, 1483228800, 2145916800,
         1719792000, 1727740800, 1388534400]
GAPS = [0, 1, 1, 2, 9, 10, 59, 60, 61, 600, 3599, 3600, 3601, 36000, 12 * 3600, 43199, 86400, 86400 * 7, 86400 * 30, 86400 * 31, 86400 * 365, 86400 * 366, 86400 * 3652, -1, -60,
        -3600, -86400]


def start(rng, lo=631152000, hi=3700000000):
    t = rng.choice([rng.randrange(lo, hi), rng.choice(MARKS) + rng.choice([-1, 0, 1, -3600, 3600, 12 * 3600, rng.randrange(-90000, 90000)])])
    return t * SEC + rng.choice([0, 1, SEC // 2, SEC - 1, SEC - 400000, rng.randrange(SEC)])


def steps_of(rng, runs, op):
    t = start(rng)
    out = []
    for i in range(runs):
        s = {'op': op, 'at': t, 'tick': rng.choice([0, 1000, 1000, 10**6, 5 * 10**7]) if op == 'run' else rng.choice([0, 1000, 10**6]), 'op_ns': 0}
        if op == 'run':
            s['op_ns'] = rng.choice([1000, 10**6, 10**7, 10**8, SEC, 7 * SEC])
            s['settings'] = rng.choice(TEMPLATES)
        else:
            s['args'] = rng.choice([{}, {}, {'file_name': 'x'}, {'case_name': 'variables.py'}, {'case_dir': '/nowhere'}])
        out.append(s)
        t += rng.choice(GAPS) * SEC + rng.choice([0, 0, 0, 1, -1, SEC // 2])
        if rng.random() < 0.1:
            t = start(rng)
    return out


def plan(rng):
    tz = rng.choice(ZONES)
    if rng.random() < 0.45:
        st = steps_of(rng, 30, 'output')
    else:
        st = steps_of(rng, rng.choice([2, 2, 3]), 'run')
        if rng.random() < 0.7:
            same = st[0]['settings']
            for s in st:
                s['settings'] = same
    p = 0.3 if st[0]['op'] == 'run' else 0.05
    for s in st[1:]:
        if rng.random() < p:
            s['process'] = tz if rng.random() < 0.7 else rng.choice(ZONES)
    return {'steps': st, 'tz': tz, 'seed': rng.getrandbits(30), 'lane': 'std', 'drawn': st[0]['op'] == 'run' and rng.random() < 0.15, 'case': cases.case(rng, ns=1, nc=1)}


def plans(rng, tier):
    return [plan(rng) for _ in range(240 if tier == 'quick' else 8000)]


def shrink(p):
    n = len(p['steps'])
    for a, b in ((0, n // 2), (n // 2, n)):
        if n > 2:
            q = copy.deepcopy(p)
            del q['steps'][a:b]
            q['steps'][0].pop('process', None)
            yield q
    for i in range(n - 1, -1, -1):
        if n > 1:
            q = copy.deepcopy(p)
            del q['steps'][i]
            q['steps'][0].pop('process', None)
            yield q
    if p['tz'] != 'UTC':
        yield {**copy.deepcopy(p), 'tz': 'UTC'}
    for i, s in enumerate(p['steps']):
        for k, v in (('process', None), ('op_ns', 1000), ('tick', 1000)):
            if s.get(k, v) != v:
                q = copy.deepcopy(p)
                if v is None:
                    q['steps'][i].pop(k)
                else:
                    q['steps'][i][k] = v
                yield q
