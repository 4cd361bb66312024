"""Numbers under every state of the kernel cache"""
import fcntl
import os
import pickle
import random
import shutil
import sys
import time

import numpy as np

from .. import world
from .common import add, fault_stats, h, harness, solo, viol

KERNELS = {'vortex_line': 3, 'vortex_infinite_line': 3, 'vortex_horseshoe': 4, 'vortex_horseshoe_v2': 6, 'vortex_ring': 5}


def warm():
    """libraries and the compiler, not the package"""
    import numba
    import pandas       # noqa: F401
    import scipy.interpolate        # noqa: F401
    import scipy.linalg     # noqa: F401
    import xlsxwriter       # noqa: F401
    import yaml     # noqa: F401
    assert not [m for m in sys.modules if m.startswith('pySailingVLM')]

    @numba.njit
    def g(x):
        s = 0.0
        for a in numba.typed.List([x, x]):
            s += np.linalg.norm(a)
        return np.cross(x, x) * np.dot(x, x) + s
    g(np.ones(3))


def differ(x, y, rtol):
    for k in sorted(set(x) | set(y)):
        if k not in x or k not in y:
            return f'{k} missing'
        a, b = x[k], y[k]
        if a.shape != b.shape:
            return f'{k}: shape {a.shape} / {b.shape}'
        if a.dtype.kind in 'USO':
            if not np.array_equal(a, b):
                return f'{k}: {a.tolist()} / {b.tolist()}'
            continue
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return f'{k}: not finite in one only: {a.ravel()[:4]} / {b.ravel()[:4]}'
        ok = np.isfinite(a)
        if ok.any():
            s = max(np.max(np.abs(a[ok])), np.max(np.abs(b[ok])))
            e = np.max(np.abs(a[ok] - b[ok]))
            if e > rtol * s + 1e-12:
                return f'{k}: off by {e:.3g} of {s:.3g}'
    return None


def probe(work):
    """the kernels themselves, near and on the vortices"""
    from pySailingVLM.solver import velocity
    rng = random.Random(work['points'])
    out = {}
    for i in range(24):
        for name, n in KERNELS.items():
            f = getattr(velocity, name, None)
            pts = [np.array([rng.uniform(-3, 3) for _ in range(3)]) for _ in range(n)]
            x = rng.random()
            degenerate = x < 0.35
            if degenerate:
                t = rng.choice([0.0, 1.0, 0.5, 1e-9, 1.0 + 1e-9, 1e-5])
                if name == 'vortex_infinite_line':
                    pts[0] = pts[1] + pts[2] * t
                else:
                    pts[0] = pts[1] + (pts[2] - pts[1]) * t
                if rng.random() < 0.2:
                    pts[2] = pts[1].copy()
            gamma = rng.choice([1.0, -1.0, 2.5])
            if f is None:
                continue
            try:
                with np.errstate(all='ignore'):
                    v = np.array(f(*pts, gamma), dtype=float)
            except Exception as e:
                v = ['raised', type(e).__name__]
            out[f'{name}/{i}/{"degenerate" if degenerate else "far"}'] = v
    return out


def tree(ctx):
    """a copy of the package with its cache filled, made once per check"""
    d = os.path.join(ctx.base, 'template')
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(d):
            t = d + '.tmp'
            shutil.rmtree(t, ignore_errors=True)
            src = os.path.join(ctx.repo, 'pySailingVLM')
            shutil.copytree(src, os.path.join(t, 'cold', 'pySailingVLM'), ignore=shutil.ignore_patterns('__pycache__', 'tests', '*.ipynb'), symlinks=True)
            for n in ('warm', 'env'):
                shutil.copytree(os.path.join(t, 'cold'), os.path.join(t, n), symlinks=True)
            r = [harness(solo(lambda: load(os.path.join(t, 'warm')), ctx, 'fill', roots=[t, ctx.dir], cwd=t), 'filling')]
            r.append(harness(solo(lambda: load(os.path.join(t, 'env'), os.path.join(t, 'env', 'cache')), ctx, 'fillenv', roots=[t, ctx.dir], cwd=t), 'filling'))
            with open(os.path.join(t, 'result'), 'wb') as f:
                pickle.dump([[o['status'], o.get('exc')] for o in r], f)
            os.rename(t, d)
    with open(os.path.join(d, 'result'), 'rb') as f:
        bad = [x for x in pickle.load(f) if x[0] != 'ok']
    return d, bad


def load(root, cache=None, jit=True, threads=None):
    import numba
    sys.path[:] = [root] + [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(os.environ['VSIM_REPO'])]
    os.environ.pop('NUMBA_CACHE_DIR', None)
    if cache:
        os.environ['NUMBA_CACHE_DIR'] = cache
    if threads:
        os.environ['NUMBA_NUM_THREADS'] = threads
    numba.config.reload_config()
    if not jit:
        numba.config.DISABLE_JIT = True
    import pySailingVLM.solver.coefs as c
    import pySailingVLM.solver.velocity as v
    assert v.__file__.startswith(root), v.__file__
    return c.__name__


def compute(work, root, cache=None, jit=True, threads=None):
    load(root, cache, jit, threads)
    from .. import ops
    out = {}
    for i, c in enumerate(work['cases']):
        for k, v in ops.digest(ops.analyse(ops.Inputs(c))).items():
            out[f'{i}.{k}'] = v
    out.update(ops.digest_wing(ops.fly(work['wing'])))
    return {'digest': out, 'probe': probe(work)}


def interpreted(work, ctx, tpl):
    f = os.path.join(ctx.base, 'interpreted' + h(work))
    if not os.path.exists(f):
        o = harness(solo(lambda: compute(work, os.path.join(tpl, 'cold'), jit=False), ctx, 'interpreted', roots=[ctx.dir, tpl]), 'interpreted')
        t = f'{f}.{os.getpid()}'
        with open(t, 'wb') as g:
            pickle.dump({'status': o['status'], 'exc': o.get('exc'), 'value': o.get('value')}, g)
        os.replace(t, f)
    with open(f, 'rb') as g:
        return pickle.load(g)


def same(got, want):
    m = differ(got['digest'], want['digest'], 1e-8)
    if m:
        return m
    p, q = got['probe'], want['probe']
    for k in sorted(set(p) | set(q)):
        if k not in p or k not in q:
            return f'{k} missing'
        a, b = p[k], q[k]
        if isinstance(a, list) or isinstance(b, list):
            # a division by zero may be told by an error or by what it gives
            o = b if isinstance(a, list) else a
            if isinstance(o, list) or not np.isfinite(o).all():
                continue
            return f'{k}: {a} / {b}'
        if 'degenerate' in k:
            # at the singularity rounding decides what comes out, except where the vortex core is cut out
            if k.startswith(('vortex_line', 'vortex_ring')) and not np.any(b) and not np.max(np.abs(a)) < 1e-6:
                return f'{k}: {a} in the vortex core'
            continue
        m = differ({k: a}, {k: b}, 1e-8)
        if m:
            return m
    return None


def cached(root):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if '.nbi' in f or '.nbc' in f)


def prepare(plan, ctx, tpl):
    """(root of the package, cache directory or None, home)"""
    rng = random.Random(plan['damage'])
    root = os.path.join(ctx.dir, 'site')
    s = plan['state']
    src = 'cold' if s == 'cold' or plan['place'] == 'home' else 'env' if plan['place'] == 'env' else 'warm'
    shutil.copytree(os.path.join(tpl, src), root, symlinks=True)
    home = os.path.join(ctx.dir, 'home')
    os.makedirs(home)
    cache = os.path.join(root, 'cache') if plan['place'] == 'env' else None
    pc = os.path.join(root, 'pySailingVLM', 'solver', '__pycache__')
    if cache and s != 'cold':
        from numba.core.caching import _CacheLocator as L       # the directory is named after the place of the package
        for d in os.listdir(cache):
            os.rename(os.path.join(cache, d), os.path.join(cache, L.get_suitable_cache_subpath(os.path.join(root, 'pySailingVLM', 'solver', 'velocity.py'))))
    fs = cached(root)
    if s == 'delete' and len(fs) > 1:
        for f in rng.sample(fs, rng.randint(1, len(fs) - 1)):
            os.unlink(f)
    elif s in ('nodata', 'noindex'):
        for f in fs:
            if f.endswith('.nbc' if s == 'nodata' else '.nbi') and rng.random() < 0.6:
                os.unlink(f)
    elif s == 'half':
        for f in fs[rng.randrange(len(fs) + 1):]:
            os.unlink(f)
    elif s == 'truncate' and fs:
        for f in rng.sample(fs, rng.choice([1, 1, 2, 5])):
            with open(f, 'r+b') as g:
                g.truncate(rng.choice([0, rng.randrange(os.path.getsize(f))]))
    elif s == 'junk' and fs:
        for f in rng.sample(fs, 3):
            for t in ('.tmp.0123456789abcdef', '.bak', '~'):
                shutil.copy(rng.choice(fs), f + t)
            with open(f + '.tmp.77', 'wb') as g:
                g.write(b'half')
    elif s == 'otherpy':
        for f in fs:
            shutil.copy(rng.choice(fs), f.replace('py312', rng.choice(['py311', 'py313'])))
    elif s == 'touch':
        for n in rng.choice([['velocity.py'], ['coefs.py'], ['velocity.py', 'coefs.py']]):
            p = os.path.join(root, 'pySailingVLM', 'solver', n)
            if os.path.exists(p):
                os.utime(p, (1.8e9, 1.8e9))
    elif s == 'empty':
        for f in fs:
            os.unlink(f)
    elif s == 'isfile':
        p = cache or pc
        shutil.rmtree(p, ignore_errors=True)
        with open(p, 'w') as f:
            f.write('not a directory')
    elif s == 'moved':
        new = os.path.join(ctx.dir, 'opt', 'elsewhere')
        os.makedirs(os.path.dirname(new))
        os.rename(root, new)
        root = new
        cache = os.path.join(root, 'cache') if cache else None
    if plan['place'] == 'home':
        # a package directory its user may not write: the cache goes to the home directory
        shutil.rmtree(pc, ignore_errors=True)
    return root, cache, home


def outcome(o):
    return o['status'] + (':' + o['exc'][0] if o.get('exc') and o['status'] == 'exc' else '')


def execute(plan, ctx):
    stats = {}
    tpl, bad = tree(ctx)
    if bad:
        return {'stats': stats, 'violation': viol('the package cannot be used with an empty cache', bad), 'trace': ''}
    want = interpreted(plan['work'], ctx, tpl)
    if want['status'] != 'ok':
        return {'stats': stats, 'violation': viol('valid settings fail with interpreted kernels', [want['status'], want['exc']]), 'trace': ''}
    want = want['value']
    root, cache, home = prepare(plan, ctx, tpl)
    os.makedirs(os.path.join(ctx.dir, 'tmp'))
    env = {'HOME': home, 'TMPDIR': os.path.join(ctx.dir, 'tmp'), 'XDG_CACHE_HOME': None, 'NUMBA_CACHE_DIR': None}
    v = None
    got = []

    def go():
        return compute(plan['work'], root, cache, threads=plan.get('threads'))

    def judge(o, who, loud):
        nonlocal v
        got.append(outcome(o))
        if o['status'] == 'crash':
            return
        if o['status'] == 'hang':
            v = v or viol('an import hangs', f'{who}: {o.get("exc")}')
        elif o['status'] == 'ok':
            m = same(o['value'], want)
            if m:
                v = v or viol('other numbers than with interpreted kernels', f'{who}, cache {plan["state"]}: {m}')
        elif not loud:
            v = v or viol('the package cannot be used with this cache', f'{who}, cache {plan["state"]}: {outcome(o)} {o.get("exc")} {(o.get("tb") or "")[-300:]}')
    kw = dict(cwd=ctx.dir, roots=[ctx.dir], env=env, clock={'ns': 1700000000_000000000, 'tick': 1000}, seed=plan['seed'], capture=os.path.join(ctx.dir, 'console'))
    loud = plan['state'] in ('truncate', 'isfile')
    add(stats, f'cache {plan["state"]}, {plan["place"]}')
    trace, sim = [], 0
    if plan['kind'] == 'together':
        sched = dict(plan['schedule'])
        sched['kills'] = {str(a): b for a, b in plan['kills']}
        os_, taken, tr = world.run_together([dict(fn=go, **{**kw, 'seed': plan['seed'] + i}) for i in range(plan['n'])], sched, timeout=400)
        trace.append([[t[0], t[1]] for t in tr])
        add(stats, 'fault:switches between processes', len(taken))
        for i, o in enumerate(os_):
            fault_stats(stats, harness(o, 'together'))
            judge(o, f'process {i + 1} of {plan["n"]}', loud)
    elif plan['kind'] == 'fault':
        f = dict(plan['fault'])
        f.setdefault('path', {'tree': '__pycache__', 'env': 'cache', 'home': 'home/'}[plan['place']])
        fs = [f]
        if plan['place'] == 'home':
            fs.append({'from': 0, 'kinds': ['create', 'mkdir'], 'do': 'EACCES', 'path': '__pycache__'})
        o = harness(solo(go, ctx, 'h', policy=world.Policy(fs, seed=plan['seed']), **kw), 'import')
        fault_stats(stats, o)
        sim += o['sim_ns'] or 0
        judge(o, 'the process with the fault', True)
    else:
        o = harness(solo(go, ctx, 'h', **kw), 'import')
        sim += o['sim_ns'] or 0
        if plan['state'] not in ('warm', 'cold'):
            add(stats, f'fault:cache {plan["state"]}')
        judge(o, 'the first process', loud)
    if plan['kind'] != 'modes':
        fs = [{'from': 0, 'kinds': ['create', 'mkdir'], 'do': 'EACCES', 'path': '__pycache__'}] if plan['place'] == 'home' else []
        o = harness(solo(go, ctx, 'h', policy=world.Policy(fs), **kw), 'next import')
        sim += o['sim_ns'] or 0
        judge(o, 'a later process', loud)
    return {'stats': stats, 'violation': v, 'trace': h(trace, got, v and v['class']), 'states': [h(plan['kind'], plan['state'], plan['place'], plan.get('fault'), got)], 'sim_ns': sim,
            'nontrivial': h(plan), 'sample': {'kind': plan['kind'], 'cache': plan['state'], 'place': plan['place'], 'fault': plan.get('fault'), 'processes': got}}
