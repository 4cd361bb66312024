"""The same settings in other surroundings"""
import fcntl
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from .. import artefacts as A, cases, ops, program, workbook as W, world
from . import clirun
from .c14 import look
from .common import add, h, harness, solo, viol

LANE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lane.py')
CANON_ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
             'PYTHONWARNINGS': 'ignore', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '2', 'MPLBACKEND': 'Agg'}


def warm():
    program.warm()
    d = os.path.join(os.environ['VSIM_SCRATCH'], 'loc')
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        for n in ('de_DE', 'tr_TR'):
            if not os.path.exists(os.path.join(d, n + '.UTF-8')):
                try:
                    subprocess.run(['localedef', '--no-archive', '-i', n, '-f', 'UTF-8', os.path.join(d, n + '.UTF-8')], env={'PATH': '/usr/bin:/bin'},
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                except OSError:
                    pass


def alter(around, ctx, root):
    """the surroundings inside the simulated process"""
    import decimal
    import gc
    import locale
    import threading
    import time
    import warnings
    s = around
    if 'heap' in s:
        rng = random.Random(s['heap'])
        alter.junk = [bytearray(rng.randrange(1, 3000)) if rng.random() < 0.7 else {str(rng.random()): set(map(str, range(rng.randrange(9))))} for _ in range(4000)]
        rng.shuffle(alter.junk)
        del alter.junk[::2]
    if 'locale' in s and s['locale'][1]:
        try:
            locale.setlocale(locale.LC_ALL, s['locale'][0])
        except locale.Error:
            pass
    time.tzset()
    if 'seed' in s:
        random.seed(s['seed'])
        np.random.seed(s['seed'])
    for x in s.get('inproc', []):
        if x == 'printoptions':
            np.set_printoptions(precision=1, suppress=True, threshold=3)
        elif x == 'pandas':
            import pandas as pd
            pd.set_option('display.precision', 1)
            pd.set_option('display.max_rows', 2)
            pd.set_option('display.max_columns', 1)
            pd.set_option('display.float_format', '{:.0f}'.format)
        elif x == 'umask':
            os.umask(0)
        elif x == 'recursion':
            sys.setrecursionlimit(20000)
        elif x == 'gc_often':
            gc.set_threshold(5, 2, 2)
        elif x == 'gc_off':
            gc.disable()
        elif x == 'decimal':
            decimal.getcontext().prec = 3
        elif x == 'stdin':
            sys.stdin.close()
        elif x == 'warnings':
            warnings.simplefilter('always')
        elif x == 'nice':
            os.nice(5)
        elif x == 'erra':
            np.seterr(all='ignore')
        elif x == 'threadname':
            threading.current_thread().name = 'worker'
        elif x == 'switch':
            sys.setswitchinterval(1e-6)
        elif x == 'fds':
            alter.fds = [os.open('/dev/null', os.O_RDONLY) for _ in range(50)]
        elif x == 'trace':
            sys.settrace(lambda *a: None)


def directory(kind, root):
    d = os.path.join(root, 'cwd')
    os.makedirs(d, exist_ok=True)
    if kind == 'deep':
        d = os.path.join(d, *['x' * 40] * 20)
        os.makedirs(d)
    elif kind == 'named':
        d = os.path.join(d, 'jib, main; 0.5 %s {x}')
        os.makedirs(d)
    elif kind == 'root':
        return '/'
    elif kind == 'decoys':
        for n, t in (('variables.py', 'rho = 9'), ('conditions.json', '{"rho": 9}'), ('config.ini', '[solver]\nn_spanwise=1\n'), ('pySailingVLM.cfg', 'x'), ('.env', 'RHO=9\n'),
                     ('matplotlibrc', 'lines.linewidth: 9\n'), ('res.xlsx', 'x'), ('interpolation.npy', 'x')):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
    return d


def observe(plan, ctx, name, around, canonical=False):
    """(outcome, what was returned or written)"""
    root = ctx.sub(name)
    tmp = os.path.join(root, 'tmp')
    os.makedirs(tmp)
    cwd = directory(around.get('cwd'), root)
    env = {'TMPDIR': tmp}
    if 'tz' in around:
        env['TZ'] = around['tz']
    if 'locale' in around:
        env.update(LC_ALL=around['locale'][0], LANG=around['locale'][0], LOCPATH=os.path.join(ctx.base, 'loc'))
    env.update({k: v for k, v in around.get('env', {}).items()})
    clock = dict(around.get('clock') or {'ns': clirun.START})
    if 'mono' in around:
        clock.update(mono=around['mono'][0], mono_tick=around['mono'][1])
    kw = dict(cwd=cwd, roots=[root], env=env, clock=clock, seed=around.get('entropy', 1), capture=os.path.join(ctx.dir, 'console'), pid=around.get('pid', 4242))
    if plan['kind'] == 'api':
        def api():
            alter(around, ctx, root)
            a = ops.analyse(ops.Inputs(plan['case']))
            d = ops.digest(a)
            d.update(ops.digest_wing(ops.fly(plan['wing'])))
            r = ops.save(a, os.path.join(root, 'o'), 'res')
            for i, f in enumerate(r):
                for k, v in ops.frames(f).items():
                    d[f'saved{i}.{k}'] = v
            with world.off_seam():
                return {'digest': d, 'sheets': W.parse(clirun.read(os.path.join(root, 'o', 'res.xlsx')))}
        o = harness(solo(api, ctx, name + 'h', **kw), 'analysis')
        return o, (o.get('value') if o['status'] == 'ok' else None)
    sd, out = os.path.join(root, 'set'), os.path.join(root, 'out')
    os.makedirs(sd)
    with open(os.path.join(sd, 'variables.py'), 'w') as f:
        f.write(cases.variables_py(plan['case'], repr(out)))
    seen = {}

    def cli():
        import holoviews as hv
        from matplotlib.backend_bases import FigureCanvasBase
        real, save = FigureCanvasBase.print_figure, hv.save
        drawn = plan['kind'] == 'drawn'

        def print_figure(self, filename, *a, **k):
            q = look(self.figure)
            q['series'] = [[n, np.array(v, dtype=float).reshape(-1, 2)] for n, v in q['series']]
            seen['figure ' + os.path.basename(str(filename))] = q
            if drawn:
                real(self, filename, *a, **k)

        def hsave(obj, *a, **k):
            try:
                d = obj.dframe() if hasattr(obj, 'dframe') else None
                seen['polygons'] = sorted(len(d.columns) for _ in [0]) if d is not None else []
            except Exception:
                pass
            seen['p'] = np.array([float(v) for v in obj.dimension_values('p_coeffs', expanded=False)])
            if drawn:
                save(obj, *a, **k)
        FigureCanvasBase.print_figure = print_figure
        hv.save = hsave
        program.start()
        alter(around, ctx, root)
        return program.status(['-dv', sd], True)
    o = harness(solo(lambda: (cli(), seen), ctx, name + 'h', as_main=False, **kw), 'run')
    if o['status'] != 'ok':
        return o, None
    r, seen = o['value']
    o['code'] = r
    if r[0] != 0:
        return o, None
    v = {'seen': seen, 'sheets': W.parse(clirun.read(os.path.join(out, 'res.xlsx'))), 'source': clirun.read(os.path.join(out, 'variables.py')).replace(os.fsencode(root), b'<root>')}
    if plan['kind'] == 'drawn':
        xy, p = A.polygons(clirun.read(os.path.join(out, 'cp_plot.html')))
        v['page'] = [np.concatenate([np.ravel(a) for q in xy for a in q]), p]
        v['pixels'] = [list(A.read_png(clirun.read(os.path.join(out, n))).shape) for n in ('section_cl.png', 'section_cd.png')]
    return o, v


def canonical(plan, ctx):
    """what the canonical process gets; computed once per check and case, in an interpreter of its own"""
    key = {'case': plan['case'], 'wing': plan['wing'] if plan['kind'] == 'api' else None, 'kind': plan['kind']}
    d = os.path.join(ctx.base, 'baseline')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'c15' + h(key) + '.pickle')
    with open(os.path.join(d, 'c15' + h(plan['case']) + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(f):
            env = {**CANON_ENV, **{k: os.environ[k] for k in ('VSIM_SHIM', 'VSIM_REPO', 'VSIM_SCRATCH', 'VERIF_TIER', 'NUMBA_CACHE_DIR', 'MPLCONFIGDIR') if k in os.environ},
                   'HOME': os.path.join(ctx.base, 'home'), 'TMPDIR': os.path.join(ctx.base, 'tmp'), 'LD_PRELOAD': os.environ['VSIM_SHIM']}
            want = [{**plan, 'around': {}, 'canonical': os.path.join(d, 'c15' + h({'case': plan['case'], 'wing': plan['wing'] if k == 'api' else None, 'kind': k}) + '.pickle'),
                     'kind': k} for k in ('api', 'cli', 'drawn')]
            p = subprocess.run([sys.executable, LANE, 'c15', '3'], input=''.join(json.dumps({'id': i, 'plan': w}) + '\n' for i, w in enumerate(want)), env=env,
                               cwd=ctx.base, text=True, capture_output=True)
            if not os.path.exists(f):
                raise RuntimeError(f'canonical process: {p.stdout[-1500:]} {p.stderr[-1500:]}')
    with open(f, 'rb') as g:
        return pickle.load(g)


def sheets_digest(sheets):
    d = {}
    for n, rows in sheets.items():
        w = max(map(len, rows), default=0)
        for c in range(w):
            col = [r[c] if c < len(r) else None for r in rows]
            d[f'{n}.{c}.text'] = np.array([str(x) if not isinstance(x, float) else '#' for x in col])
            d[f'{n}.{c}'] = np.array([x for x in col if isinstance(x, float)])
    return d


def difference(a, b):
    if a.keys() != b.keys():
        return f'{sorted(a)} / {sorted(b)}'
    m = ops.differ(sheets_digest(a['sheets']), sheets_digest(b['sheets']), atol=3e-8)
    if m:
        return 'workbook: ' + m
    if 'digest' in a:
        return ops.differ(a['digest'], b['digest'])
    if a['source'] != b['source']:
        return 'variables.py'
    x, y = a['seen'], b['seen']
    if x.keys() != y.keys():
        return f'{sorted(x)} / {sorted(y)}'
    for k in x:
        if k.startswith('figure'):
            if [[n for n, _ in x[k]['series']]] + [x[k][q] for q in ('legend', 'xlabel', 'ylabel', 'axes')] != \
                    [[n for n, _ in y[k]['series']]] + [y[k][q] for q in ('legend', 'xlabel', 'ylabel', 'axes')]:
                return f'{k}: labels'
            m = ops.differ({str(i): v for i, (_, v) in enumerate(x[k]['series'])}, {str(i): v for i, (_, v) in enumerate(y[k]['series'])})
        else:
            m = ops.differ({k: np.array(x[k], dtype=float)}, {k: np.array(y[k], dtype=float)})
        if m:
            return f'{k}: {m}'
    if 'page' in a:
        m = ops.differ({'xy': a['page'][0], 'p': a['page'][1]}, {'xy': b['page'][0], 'p': b['page'][1]})
        if m:
            return 'page: ' + m
        if a['pixels'] != b['pixels']:
            return f'pictures: {a["pixels"]} / {b["pixels"]}'
    return None


def execute(plan, ctx):
    stats = {}
    if plan.get('canonical'):
        o, v = observe(plan, ctx, 'canon', {})
        t = f'{plan["canonical"]}.{os.getpid()}'
        with open(t, 'wb') as g:
            pickle.dump({'value': v, 'why': [o['status'], o.get('code'), o.get('exc'), clirun.console(ctx)]}, g)
        os.replace(t, plan['canonical'])
        return {'stats': {}}
    want = canonical(plan, ctx)
    if want['value'] is None:
        return {'stats': stats, 'violation': viol('valid settings fail', want['why']), 'trace': ''}
    o, got = observe(plan, ctx, 'here', plan['around'])
    for k in plan['around']:
        add(stats, f'fault:{k} altered')
    add(stats, f'{plan["kind"]} in {plan["lane"]}')
    v = None
    if got is None:
        v = viol('valid settings fail in other surroundings', [o['status'], o.get('code'), o.get('exc'), (o.get('tb') or '')[-300:], clirun.console(ctx)])
    else:
        m = difference(got, want['value'])
        if m:
            v = viol('other surroundings give other results', m)
    ks = sorted(plan['around'])
    return {'stats': stats, 'violation': v, 'trace': h(plan, v and v['class']), 'states': [h(plan['lane'], plan['kind'], x, y) for x in ks for y in ks if x <= y] or [h(plan['lane'], plan['kind'])],
            'sim_ns': abs(o['sim_ns'] or 0), 'nontrivial': h(plan), 'sample': {'lane': plan['lane'], 'kind': plan['kind'], 'around': plan['around']}}
