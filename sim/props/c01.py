import os

from .. import ops, threads, world
from .common import add, h, harness, round_digest, solo, viol


def run_program(prog, d, shared=None):
    out = []
    for i, op in enumerate(prog):
        if op['op'] == 'fly':
            out.append(ops.digest_wing(ops.fly(op['wing'])))
            continue
        inp = shared if shared is not None else ops.Inputs(op['case'])
        a = ops.analyse(inp)
        g = ops.digest(a)
        if op.get('save'):
            comp, integ, ic = ops.save(a, os.path.join(d, f'out{i}'), 'res')
            for n, df in (('comp', comp), ('integ', integ), ('ic', ic)):
                for k, v in ops.frames(df).items():
                    g[f'saved.{n}.{k}'] = v
        out.append(g)
    return out


def execute(plan, ctx):
    th = plan['threads']
    n = len(th)
    stats = {}
    refs, est, funcs = [], 0, set()

    for i, prog in enumerate(th):
        d = ctx.sub(f'solo{i}')

        def one():
            sim = threads.ThreadSim([lambda: run_program(prog, d)], {'kind': 'explicit', 'switches': []}, plan['gran'])
            r = sim.run()[0]
            return r, sim.step, sorted(sim.funcs)
        o = harness(solo(one, ctx, f'solo{i}', seed=plan['seed'] + i), 'solo run')
        r, steps, fn = o.get('value') or (('exc', [o['status'], str(o.get('exc'))]), 0, [])
        if r[0] != 'ok':
            return {'violation': viol('valid analysis failed on its own', r[1]), 'stats': stats}
        refs.append(r[1])
        est += steps
        funcs.update(fn)
    d = ctx.sub('together')
    for i in range(n):
        os.makedirs(os.path.join(d, str(i)))

    def together():
        shared = ops.Inputs(next(o['case'] for t in th for o in t if o['op'] == 'analyse')) if plan['share'] and any(
            o['op'] == 'analyse' for t in th for o in t) else None
        before = ops.snapshot(shared) if shared else None
        fns = [lambda i=i: run_program(th[i], os.path.join(d, str(i)), shared) for i in range(n)]
        sim = threads.ThreadSim(fns, plan['sched'], plan['gran'], est=est, max_steps=40 * est + 100000, funcs=funcs)
        res = sim.run()
        return res, sim.step, sim.switches, sim.deadlock, sim.overrun, sorted(h(*w) for w in sim.where), \
            (ops.same_snapshot(before, ops.snapshot(shared)) if shared else None)
    o = harness(solo(together, ctx, 'together', seed=plan['seed']), 'concurrent run')
    if o['status'] != 'ok':
        return {'violation': viol('process died', [o['status'], o.get('exc')]), 'stats': stats, 'trace': h(o['status'])}
    res, steps, switches, deadlock, overrun, where, changed = o['value']
    add(stats, 'steps', steps)
    add(stats, 'switches', len(switches))
    out = {'stats': stats, 'states': where, 'sim_ns': o.get('sim_ns', 0)}
    out['trace'] = h(switches, [(r[0], [round_digest(g) for g in r[1]] if r[0] == 'ok' else r[1][:2]) for r in res])
    if len(switches) > n:
        out['nontrivial'] = h(th, switches)
    out['sample'] = {'threads': [[o_['op'] for o_ in t] for t in th], 'sched': plan['sched'], 'gran': plan['gran'], 'steps': steps,
                     'switches': switches[:12]}
    v = None
    if deadlock:
        v = viol('deadlock', f'threads wait for each other after step {steps}')
    elif overrun:
        v = viol('no progress', f'not finished after {steps} steps (alone: {est})')
    elif changed:
        v = viol('shared input changed', changed)
    else:
        for i in range(n):
            if res[i][0] != 'ok':
                v = viol('analysis failed only when run concurrently', f'thread {i}: {res[i][1]}')
                break
            for k, (a, b) in enumerate(zip(res[i][1], refs[i])):
                e = ops.differ(a, b)
                if e:
                    v = viol('result depends on concurrent analyses', f'thread {i}, step {k}: {e} (concurrent / alone)')
                    break
            if v:
                break
    out['violation'] = v
    if v:
        out['explicit'] = {'sched': {'kind': 'explicit', 'switches': switches}}
    return out
