import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('command line runs and analyses through the API in simulated processes whose clocks, time zone, locale, random seeds, hash seed, optimisation flag, '
             'environment, directory, process id, heap, collector and display options are drawn; numbers and cells against those of one canonical process')
NOTE = 'differences in surroundings are drawn together and minimised to the ones that matter'
RULE = 'a run = one analysis or command line run in drawn surroundings; distinct by settings and surroundings'
STATES = 'tuples (interpreter, kind of run, pairs of surroundings that differ from the canonical ones)'
REAL = ['__main__.py, runner/cli.py, the whole package, pandas, xlsxwriter, matplotlib, holoviews, bokeh', 'locales compiled by localedef', 'interpreter flags']
STUBS = ['rasterising and page writing in most runs: what would be drawn is compared', 'LaTeX: labels are set by matplotlib itself']
ASSUMES = ['one version of the interpreter and libraries']
LANES = {
    'std': {},
    'opt': {'flags': ['-O'], 'env': {'PYTHONHASHSEED': '1', 'LANG': 'C', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'Asia/Kathmandu', 'OPENBLAS_NUM_THREADS': '3'}},
    'hash': {'flags': ['-X', 'utf8'], 'env': {'PYTHONHASHSEED': '4242', 'TZ': 'America/St_Johns', 'USER': 'skipper', 'NUMBA_NUM_THREADS': '4'}},
    'dev': {'flags': ['-u', '-B', '-W', 'default'], 'env': {'PYTHONHASHSEED': '77', 'LANG': 'en_US.UTF-8', 'COLUMNS': '20', 'DEBUG': '1', 'MPLBACKEND': 'svg'}},
}
YEAR = 31556952
TZ = ['UTC', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Chatham', 'XYZ-13', 'Europe/Warsaw', 'nowhere']
LOCALE = ['C', 'C.UTF-8', 'de_DE.UTF-8', 'tr_TR.UTF-8']
ENV = [{'SEED': '7'}, {'DEBUG': '1'}, {'HOME': None}, {'USER': 'x', 'LOGNAME': 'x'}, {'COLUMNS': '20', 'LINES': '3'}, {'NUM_THREADS': '1', 'RHO': '2.0', 'CASE': 'b'},
       {'DISPLAY': ':9'}, {'PYTEST_CURRENT_TEST': 'x'}, {'CI': 'true'}, {'TERM': 'dumb', 'NO_COLOR': '1'}, {'SLURM_JOB_ID': '12', 'HOSTNAME': 'node7'},
       {'PYSAILINGVLM': '1', 'SAILS_DEF': 'jib', 'INTERPOLATION_TYPE': 'linear'}, {'PWD': '/'}, {'OUTPUT_DIR': '/dev', 'PYTHONPATH': '/nonexistent'}]
CWD = ['plain', 'decoys', 'deep', 'named', 'root']
INPROC = ['printoptions', 'pandas', 'umask', 'recursion', 'gc_often', 'gc_off', 'decimal', 'stdin', 'warnings', 'nice', 'erra', 'threadname', 'switch', 'argv0', 'fds', 'trace']


def surroundings(rng, n):
    s = {}
    for k in rng.sample(['clock', 'clock', 'tz', 'locale', 'cwd', 'seed', 'env', 'pid', 'heap', 'inproc', 'inproc', 'mono', 'entropy'], n):
        if k == 'clock':
            s[k] = {'ns': rng.choice([11 * YEAR, 20 * YEAR + rng.randrange(YEAR), 54 * YEAR + rng.randrange(YEAR), 2**31 - 1, 951782399, 4 * 10**9, rng.randrange(11 * YEAR, 130 * YEAR)]) * 10**9
                    + rng.randrange(10**9), 'tick': rng.choice([0, 1, 1000, 10**9, 3600 * 10**9, 86400 * 10**9, -10**9, -10**6])}
        elif k == 'tz':
            s[k] = rng.choice(TZ)
        elif k == 'locale':
            s[k] = [rng.choice(LOCALE), rng.random() < 0.6]
        elif k == 'cwd':
            s[k] = rng.choice(CWD)
        elif k in ('seed', 'heap', 'entropy'):
            s[k] = rng.getrandbits(30)
        elif k == 'env':
            s[k] = rng.choice(ENV)
        elif k == 'pid':
            s[k] = rng.choice([1, 2, 77, 99999, 4194303])
        elif k == 'mono':
            s[k] = [rng.choice([1, 10**9, 10**15]), rng.choice([0, 1, 10**6, 10**9, 3600 * 10**9])]
        elif k == 'inproc':
            s[k] = sorted(set(rng.sample(INPROC, rng.choice([1, 2, 4]))))
    return s


def plans(rng, tier):
    pool = [cases.case(rng, sails=s, ns=n, nc=m) for s, n, m in (('jib_and_main', 2, 2), ('jib', 3, 1), ('main', 2, 3), ('jib_and_main', 3, 1))]
    wings = [cases.free_wing(rng) for _ in range(4)]
    out = []
    for i in range(240 if tier == 'quick' else 20000):
        k = i % 4
        lane = 'std' if i < 24 else rng.choice(['std', 'std', 'opt', 'hash', 'dev'])
        kind = rng.choice(['cli', 'cli', 'cli', 'api', 'api', 'drawn'] if i % 3 else ['cli', 'api'])
        out.append({'case': pool[k], 'wing': wings[k], 'kind': kind, 'around': surroundings(rng, rng.choice([1, 2, 4, 7]) if lane == 'std' else rng.randrange(4)),
                    'lane': lane})
    return out


def shrink(p):
    for k in p['around']:
        q = copy.deepcopy(p)
        del q['around'][k]
        yield q
    for x in p['around'].get('inproc', []):
        if len(p['around']['inproc']) > 1:
            q = copy.deepcopy(p)
            q['around']['inproc'].remove(x)
            yield q
    if p['lane'] != 'std':
        yield {**copy.deepcopy(p), 'lane': 'std'}
    if p['kind'] == 'drawn':
        yield {**copy.deepcopy(p), 'kind': 'cli'}
