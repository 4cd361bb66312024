"""Default output directories under a simulated clock"""
import os
import re
import time

from .. import numeric
numeric.install()
from .. import artefacts as A, cases, program, world       # noqa: E402
from .common import add, fault_stats, h, harness, solo, viol       # noqa: E402

SEC = 10**9
FMT = '%Y%m%d%H%M%S'


def warm():
    program.warm()


def stamps(a, b):
    """local times from a to b (ns), to the second"""
    a, b = a // SEC, b // SEC
    step = 1
    return {time.strftime(FMT, time.localtime(s)) for s in range(a, min(b, a + 40000) + 1, step)}


def settings(kind, repo, case):
    if kind.startswith('template:'):
        with open(os.path.join(repo, 'pySailingVLM', kind[9:]), encoding='utf-8') as f:
            s = f.read()
        s, n = re.subn(r"('n_spanwise'\s*:\s*)\d+", r'\g<1>2', s)
        s, m = re.subn(r"('n_chordwise'\s*:\s*)\d+", r'\g<1>1', s)
        return s.encode()
    s = cases.variables_py(case, "''")
    a, b = s.index('output_args'), s.index('solver_args')
    return (s[:a] + {'default': "output_args = {'case_name': 'variables.py'}\n", 'named': "output_args = {'case_name': 'variables.py', 'file_name': 'mine'}\n",
                     'container': "from pySailingVLM.runner.container import Output\noutput_args = {'case_name': 'variables.py', 'name': Output().name}\n"}[kind] + s[b:]).encode()


def execute(plan, ctx):
    stats, states, traces, v = {}, [], [], None
    root = ctx.sub('world')
    cwd, tmp = os.path.join(root, 'cwd'), os.path.join(root, 'tmp')
    for d in (cwd, tmp):
        os.makedirs(d)
    sets = {}
    for s in plan['steps']:
        if s['op'] == 'run' and s['settings'] not in sets:
            d = sets[s['settings']] = os.path.join(root, f'set{len(sets)}')
            os.makedirs(d)
            with open(os.path.join(d, 'variables.py'), 'wb') as f:
                f.write(settings(s['settings'], ctx.repo, plan['case']))
    procs = []
    for s in plan['steps']:
        if s.get('process') is not None or not procs:
            procs.append([s.get('process') or plan['tz'], []])
        procs[-1][1].append(s)
    seen = []          # (local seconds of the start, directory, where)
    last = None
    simulated = 0
    for i, (tz, steps) in enumerate(procs):
        pol = world.Policy(seed=plan['seed'] + i)

        def go():
            L = world.lib()
            again = False
            program.start()
            for s in steps:
                L.vshim_clock(1, s['at'], s['tick'])
                if s['op'] == 'output':
                    from pySailingVLM.runner.container import Output
                    a = L.vshim_now()
                    o = Output(**{k: x for k, x in s['args'].items()})
                    pol.notes.append(['output', a, L.vshim_now(), o.name, None])
                    continue
                first = []
                start = len(pol.ops)

                def before(kind, path):
                    L.vshim_advance(s['op_ns'])
                    if not first and path.startswith('cwd/') and kind == 'mkdir':
                        first.append(L.vshim_now())
                pol.before = before
                if not plan.get('drawn'):
                    program.undrawn()
                a = L.vshim_now()
                code, err = program.status(['-dv', sets[s['settings']]], again)
                pol.before = None
                again = True
                dirs = set()
                for q in pol.ops[start:]:
                    if q[0] not in ('open', 'read'):
                        for p in q[1].split('>'):
                            if p.startswith('cwd/'):
                                dirs.add(p)
                pol.notes.append(['run', a, (first or [L.vshim_now()])[0], sorted(dirs), [code, err, L.vshim_now()]])
        o = harness(solo(go, ctx, 'h', cwd=cwd, roots=[root], policy=pol, env={'TMPDIR': tmp, 'TZ': tz}, clock={'ns': steps[0]['at'], 'tick': 1000}, seed=plan['seed'] + i,
                         capture=os.path.join(ctx.dir, 'console')), 'history')
        if o['status'] != 'ok':
            return {'stats': stats, 'violation': viol('the program hangs or dies', f'{o["status"]} {o.get("exc")} {(o.get("tb") or "")[-300:]}'), 'trace': ''}
        fault_stats(stats, o)
        os.environ['TZ'] = tz
        time.tzset()
        for s, (what, a, b, name, more) in zip(steps, o['notes']):
            where = f'{what} {len(seen) + 1} (process {i + 1}, {time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(a // SEC))} {tz})'
            if last is not None and a < last:
                add(stats, 'fault:clock set back')
            add(stats, f'fault:time zone {tz}')
            if s['op_ns'] >= SEC:
                add(stats, 'fault:slow disk (a second or more per operation)')
            if what == 'run':
                code, err, end = more
                simulated += end - a
                last = end
                if code != 0:
                    v = v or viol('a run of valid settings failed', f'{where}: {code} {err}')
                    continue
                leaf = result_dirs(cwd, name)
                if len(leaf) != 1:
                    v = v or viol('one run writes into several directories', f'{where}: {leaf}')
                    continue
                d = leaf[0]
                have = sorted(os.listdir(os.path.join(cwd, d)))
                if not any(x.endswith('.xlsx') for x in have) or 'variables.py' not in have:
                    v = v or viol('one run writes into several directories', f'{where}: {d} holds {have}')
                elif plan.get('drawn'):
                    m = A.missing(os.path.join(cwd, d), file_name='mine' if s['settings'] == 'named' else 'my_fancy_results')
                    if m:
                        v = v or viol('one run writes into several directories', f'{where}: {d} holds {have}, {m}')
            else:
                d = os.path.normpath(name)
                last = b
            digits = re.sub(r'\D', '', os.path.basename(d))
            ok = stamps(a, b)
            if not any(x in digits for x in ok):
                v = v or viol('the directory does not carry the time of the start', f'{where}: {d}')
            now = time.strftime(FMT, time.localtime(a // SEC))
            for t, e, w in seen:
                if e == d and not t & ok:
                    v = v or viol('two runs use the same directory', f'{where} and {w}: {d}')
            if seen:
                t = max(seen[-1][0])
                states.append(h(what, s.get('settings'), bool(s.get('process')), [x == y for x, y in zip(t, now)], min(s['op_ns'], SEC)))
            seen.append((ok, d, where))
            traces.append([what, now, d])
    return {'stats': stats, 'violation': v, 'trace': h(traces), 'states': states or [h('one', plan['steps'][0]['op'])], 'sim_ns': simulated, 'nontrivial': h(plan),
            'sample': {'steps': traces[:6]}}


def result_dirs(cwd, paths):
    """the innermost existing directories below cwd that these paths changed, temporary ones aside"""
    out = set()
    for p in paths:
        d = os.path.relpath(p, 'cwd')
        while d and not os.path.isdir(os.path.join(cwd, d)):
            d = os.path.dirname(d)
        if d:
            out.add(d)
    return sorted(d for d in out if not any(e != d and e.startswith(d + '/') for e in out))
