"""Orchestration: plans from one seed, lanes, minimisation, replay files, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import queue
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('VSIM_PYTHON', '/opt/venv/bin/python')
WORKERS = int(os.environ.get('VSIM_WORKERS', '8'))

STUBS_ALWAYS = ['libc file operations on the scratch directories: real kernel file system behind a fault-deciding shim',
                'wall clock, sleeps, getrandom: simulated']


def build_shim(scratch):
    so = os.path.join(scratch, 'vshim.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'shim.c'), '-ldl'], check=True)
    return so


class Lane:
    def __init__(self, name, conf, pid, scratch, shim, repo, tier, workers):
        env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': os.path.join(scratch, 'home'), 'LANG': 'C.UTF-8', 'TZ': 'UTC',
               'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONWARNINGS': 'ignore',
               'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '2', 'MPLBACKEND': 'Agg',
               'NUMBA_CACHE_DIR': os.path.join(scratch, 'numba'), 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
               'TMPDIR': os.path.join(scratch, 'tmp'), 'LD_PRELOAD': shim, 'VSIM_SHIM': shim, 'VSIM_REPO': repo,
               'VSIM_SCRATCH': scratch, 'VERIF_TIER': tier}
        env.update(conf.get('env', {}))
        for d in ('HOME', 'NUMBA_CACHE_DIR', 'MPLCONFIGDIR', 'TMPDIR'):
            os.makedirs(env[d], exist_ok=True)
        self.err = open(os.path.join(scratch, f'lane-{name}.err'), 'w+')
        self.name = name
        self.p = subprocess.Popen([PY, *conf.get('flags', []), os.path.join(HERE, 'lane.py'), pid, str(workers)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=scratch, text=True,
                                  start_new_session=True)
        self.ready = None
        self.pending = {}

    def send(self, i, plan):
        self.p.stdin.write(json.dumps({'id': i, 'plan': plan}) + '\n')
        self.p.stdin.flush()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            pass
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass


class HarnessError(Exception):
    pass


class Farm:
    def __init__(self, prop, pid, repo, tier, workers=WORKERS):
        self.prop, self.pid, self.repo, self.tier, self.workers = prop, pid, repo, tier, workers
        self.scratch = tempfile.mkdtemp(prefix='vsim.', dir='/tmp')
        self.shim = build_shim(self.scratch)
        self.lanes = {}
        self.starting = []
        self.q = queue.Queue()
        self.lane_conf = getattr(prop, 'LANES', {'std': {}})
        self.locks = {n: threading.Lock() for n in self.lane_conf}

    def lane(self, name):
        with self.locks[name]:
            return self._lane(name)

    def prestart(self, names):
        """start several lanes at once"""
        def go(n):
            try:
                self.lane(n)
            except HarnessError:
                pass            # told when the lane is needed
        self.starting = [threading.Thread(target=go, args=(n,), daemon=True) for n in names]
        for t in self.starting:
            t.start()

    def _lane(self, name):
        if name not in self.lanes:
            ln = Lane(name, self.lane_conf[name], self.pid, self.scratch, self.shim, self.repo, self.tier, self.workers)
            line = ln.p.stdout.readline()
            try:
                m = json.loads(line)
            except ValueError:
                ln.err.seek(0)
                raise HarnessError(f'lane {name} did not start: {line!r} {ln.err.read()[-2000:]}')
            if not m['ready']:
                raise HarnessError(f'lane {name} did not start:\n' + m['error'])
            self.lanes[name] = ln

            def pump():
                for line in ln.p.stdout:
                    m = json.loads(line)
                    self.q.put((m['id'], m['result']))
                self.q.put((None, ln))
            threading.Thread(target=pump, daemon=True).start()
        return self.lanes[name]

    def map(self, plans, deadline=None, stop=None):
        """run plans; yields (plan, result) as they finish"""
        todo = list(enumerate(plans))
        todo.reverse()
        inflight = {}
        base = id(plans) & 0xffff
        while todo or inflight:
            while todo and len(inflight) < self.workers and not (deadline and time.time() > deadline) and not (stop and stop()):
                i, plan = todo.pop()
                self.lane(plan.get('lane', 'std')).send([base, i], plan)
                inflight[i] = plan
            if not inflight:
                return
            k, res = self.q.get()
            if k is None:
                if res not in self.lanes.values():
                    continue
                res.err.seek(0)
                raise HarnessError(f'lane {res.name} ended {res.err.read()[-2000:]}')
            if k[0] != base:
                continue
            yield inflight.pop(k[1]), res

    def one(self, plan):
        for _, r in self.map([plan]):
            return r

    def close(self):
        for t in self.starting:
            t.join()
        for ln in self.lanes.values():
            ln.close()
        self.lanes = {}

    def cleanup(self):
        self.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def same_class(v, w):
    return bool(w) and v['class'] == w['class']


def minimise(farm, prop, plan, viol, result, budget=60, max_runs=1500):
    """greedy: the first simpler plan (in the order the property proposes them) that fails in the same
    class; once nothing simpler fails, make the schedule explicit and drop switches from it"""
    t0 = time.time()
    runs = 0
    while time.time() - t0 < budget and runs < max_runs:
        cands = []
        for c in prop.shrink(plan):
            cands.append(c)
            if len(cands) >= 64:
                break
        best = {}

        def stop():
            return bool(best)
        for c, r in farm.map(cands, stop=stop, deadline=t0 + budget):
            runs += 1
            if same_class(viol, r.get('violation')):
                k = cands.index(c)
                if not best or k < best['k']:
                    best.update(k=k, plan=c, r=r)
        if best:
            plan, result = best['plan'], best['r']
            continue
        ex = result.get('explicit')
        if not ex or ex.items() <= plan.items():
            break
        q = {**plan, **ex}
        r = farm.one(q)
        runs += 1
        if not same_class(viol, r.get('violation')):
            break
        plan, result = q, {**r, 'explicit': ex}
    return plan, result['violation'], runs


def write_replay(pid, seed, plan, viol, trace, nth=0):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{seed}-{nth}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'plan': plan, 'violation': viol, 'trace': trace}, f, indent=1)
    return path


def known_match(known, pid, viol):
    for k in known:
        if k.get('status') == 'known' and k['property'] == pid and k.get('key') and k['key'] == viol.get('key'):
            return k
    return None


def check(pid, tier, seed, repo):
    t0 = time.time()
    prop = importlib.import_module('sim.props.' + pid.lower() + '_plan')
    known = load_known()
    farm = Farm(prop, pid, repo, tier)
    stats, states, samples, kinds = {}, set(), [], {}
    runs = sim_ns = 0
    nontrivial = set()
    found = None
    known_hit = []
    err = None
    try:
        rng = random.Random(f'{pid}/{seed}')
        print(f'{pid}: seed {seed}, tier {tier}, repo {repo}', flush=True)
        plans = prop.plans(rng, tier)
        budget = float(os.environ.get('VSIM_BUDGET', 600 if tier == 'quick' else 3 * 3600))
        hits = []
        farm.prestart(n for n in farm.lane_conf if n != 'std' and any(p.get('lane') == n for p in plans))

        def stop():
            return bool(hits)
        for plan, r in farm.map(plans, deadline=t0 + budget, stop=stop):
            if r.get('harness_error'):
                err = (plan, r['harness_error'])
                break
            runs += 1
            sim_ns += r.get('sim_ns', 0)
            for k, v in r.get('stats', {}).items():
                stats[k] = stats.get(k, 0) + v
            states.update(r.get('states', []))
            if r.get('nontrivial'):
                nontrivial.add(r['nontrivial'])
            kinds[plan.get('kind', '')] = kinds.get(plan.get('kind', ''), 0) + 1
            if len(samples) < 3 and r.get('sample'):
                samples.append(r['sample'])
            v = r.get('violation')
            if v:
                k = known_match(known, pid, v)
                if k:
                    known_hit.append(k)
                else:
                    hits.append((plan, r))
        if err is None and hits:
            # the smallest plan index first: independent of which worker finished first
            plan, r = min(hits, key=lambda h: plans.index(h[0]))
            v = r['violation']
            print(f'{pid}: {v["class"]}: {v["msg"]}', flush=True)
            again = farm.one(plan)
            if not same_class(v, again.get('violation')):
                again = farm.one(plan)
            if not same_class(v, again.get('violation')):
                err = (plan, f'violation did not repeat: {v} / {again}')
            else:
                small, sv, n = minimise(farm, prop, plan, v, again)
                farm.close()
                fresh = farm.one(small)          # in a fresh interpreter
                if not same_class(v, fresh.get('violation')):
                    small, sv, fresh = plan, v, farm.one(plan)
                found = (small, fresh.get('violation') or sv, fresh.get('trace'), n)
    except HarnessError as e:
        err = (None, str(e))
    finally:
        farm.cleanup()
    wall = time.time() - t0
    hours = max(wall, 1e-9) / 3600
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(prop, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(nontrivial), 'rule': prop.RULE, 'samples': samples,
            'simulated_runs': runs, 'runs_per_hour': round(runs / hours), 'seeds_per_hour': round(runs / hours),
            'simulated_seconds': round(sim_ns / 1e9, 3), 'plan_kinds': kinds,
            'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'counters': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            'distinct_states': len(states), 'state_measure': prop.STATES,
            'real_components': prop.REAL, 'stubbed_components': prop.STUBS + STUBS_ALWAYS,
        },
        'assumptions': prop.ASSUMES, 'wall_s': round(wall, 2), 'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k['property'] == pid and k.get('status') == 'known':
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if err is not None and not found:
        json.dump(err[0], open('/tmp/vsim-harness-error.json', 'w'))
        print('HARNESS-ERROR (plan in /tmp/vsim-harness-error.json)')
        print(err[1])
        return 2
    if found:
        plan, v, trace, n = found
        path = write_replay(pid, seed, plan, v, trace)
        print(f'{pid}: minimised in {n} runs: {v["class"]}: {v["msg"]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid}: held in {runs} simulated runs ({len(nontrivial)} distinct, {len(states)} states) in {wall:.1f} s')
    return 0


def replay(path, repo):
    rec = json.load(open(path))
    pid = rec['property']
    prop = importlib.import_module('sim.props.' + pid.lower() + '_plan')
    farm = Farm(prop, pid, repo, 'quick')
    try:
        r = farm.one(rec['plan'])
    finally:
        farm.cleanup()
    if r.get('harness_error'):
        print(r['harness_error'])
        return 2
    v = r.get('violation')
    print(json.dumps({'recorded': rec['violation'], 'now': v, 'trace_recorded': rec.get('trace'), 'trace_now': r.get('trace')}, indent=1))
    if v:
        same = same_class(rec['violation'], v) and rec.get('trace') == r.get('trace')
        print('replayed exactly' if same else 'replayed with a difference')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def selftest(pid, n, repo):
    """determinism: n plans, run twice at two worker counts and under another hash seed; diff the traces"""
    prop = importlib.import_module('sim.props.' + pid.lower() + '_plan')
    plans = []
    s = 0
    while len(plans) < n:
        ps = prop.plans(random.Random(f'self/{pid}/{s}'), 'quick')
        random.Random(s).shuffle(ps)
        plans += ps[:max(1, n // 8)]
        s += 1
    plans = plans[:n]
    got = []
    for workers, hashseed in ((8, '0'), (3, '0'), (5, '4711')):
        farm = Farm(prop, pid, repo, 'quick', workers)
        farm.lane_conf = {k: {**c, 'env': {**c.get('env', {}), 'PYTHONHASHSEED': hashseed}} for k, c in farm.lane_conf.items()}
        out = {}
        try:
            for p, r in farm.map(plans):
                out[json.dumps(p)] = (r.get('trace'), (r.get('violation') or {}).get('class'), r.get('harness_error'))
        finally:
            farm.cleanup()
        got.append(out)
    bad = [k for k in got[0] if any(g[k] != got[0][k] for g in got)]
    print(f'{pid}: {len(plans)} plans x {len(got)} configurations, {len(bad)} with different traces')
    for k in bad[:3]:
        print(k[:1500], [g[k] for g in got])
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int)
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--plan', help='JSON plan to run once')
    a = ap.parse_args()
    repo = os.path.realpath(a.repo)
    if a.setup:
        d = tempfile.mkdtemp(prefix='vsim.', dir='/tmp')
        try:
            build_shim(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    if a.replay:
        return replay(a.replay, repo)
    if a.selftest:
        return selftest(a.property, a.selftest, repo)
    if a.plan:
        prop = importlib.import_module('sim.props.' + a.property.lower() + '_plan')
        farm = Farm(prop, a.property, repo, a.tier)
        try:
            print(json.dumps(farm.one(json.loads(a.plan)), indent=1))
        finally:
            farm.cleanup()
        return 0
    return check(a.property, a.tier, a.seed, repo)
