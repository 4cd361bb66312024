import os

from .. import ops, threads, workbook as W, world
from .c06 import Watch
from .common import add, fault_stats, h, harness, solo, viol


def where(plan, root):
    d = os.path.join(root, {'missing': 'out', 'nested': 'out/a/b c', 'exists': 'out', 'prefilled': 'out'}[plan['dir']])
    if plan['dir'] in ('exists', 'prefilled'):
        os.makedirs(d, exist_ok=True)
    return d


def save_all(s, d, a):
    ops.save(a, d, s['name'])
    if s['twice']:
        ops.save(a, d, s['name'])


def execute(plan, ctx):
    stats = {}
    savers = plan['savers']
    root = ctx.sub('world')
    for x in ('cwd', 'tmp'):
        os.makedirs(os.path.join(root, x))
    d = where(plan, root)
    names = sorted({s['name'] for s in savers})
    env = {'TMPDIR': os.path.join(root, 'tmp')}
    common = dict(cwd=os.path.join(root, 'cwd'), roots=[root], env=env)

    def analyses():
        return [W.expected(s['case'], ops.analyse(ops.Inputs(s['case']))) for s in savers]
    o = harness(solo(analyses, ctx, 'expect', seed=plan['seed']), 'expectations')
    if o['status'] != 'ok':
        return {'stats': stats, 'violation': viol('valid analysis failed', [o['status'], o.get('exc')]), 'trace': h(o['status'])}
    exps = o['value']
    old = {}
    keep = []
    if plan['dir'] == 'prefilled':
        def pre():
            a = ops.analyse(ops.Inputs(savers[0]['case']))
            ops.save(a, d, names[0])
        o = harness(solo(pre, ctx, 'pre', **common), 'prefill')
        if o['status'] != 'ok':
            return {'stats': stats, 'violation': viol('save failed on its own', [o['status'], o.get('exc')]), 'trace': h(o['status'])}
        old[names[0]] = exps[0]
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('mine')
        keep = ['notes.txt']
    watch = Watch(d, names)
    last = {n: watch.look(n) for n in names}
    torn = []

    def observe(step):
        for n in names:
            sha = watch.look(n)
            if sha == last[n] or torn:
                continue
            last[n] = sha
            if sha is None:
                torn.append(f'{n}.xlsx vanished at step {step}')
                continue
            errs = [W.check_bytes(watch.data, e) for s, e in zip(savers, exps) if s['name'] == n]
            if all(errs):
                torn.append(f'{n}.xlsx at step {step} is none of those saved: {errs[0]}')
    out = {'stats': stats}
    entropy = [plan['seed'] if plan['entropy'] == 'same' else plan['seed'] + 77 * i for i in range(len(savers))]
    if plan['kind'] == 'procs':
        specs = []
        for i, s in enumerate(savers):
            def fn(s=s):
                import tempfile
                tempfile.tempdir = None
                a = ops.analyse(ops.Inputs(s['case']))
                save_all(s, d, a)
            pol = world.Policy(seed=entropy[i])
            if plan['xdev']:
                pol.mounts = [os.path.join(root, 'tmp')]
            if plan.get('dies', {}).get('saver') == i:
                pol.faults = [{'at': plan['dies']['at'], 'do': plan['dies']['do']}]
            specs.append(dict(fn=fn, policy=pol, seed=entropy[i], clock={'ns': 1700000000_000000000}, **common))
        outs, taken, trace = world.run_together(specs, plan['sched'], observe=observe)
        fault_stats(stats, *outs)
        for o in outs:
            harness(o, 'saver')
        states = set()
        for a, b in zip(trace, trace[1:]):
            if a[0] != b[0]:
                states.add(h([(x[1], '/'.join(q[:3] for q in x[2].split('/')[:3])) for x in (a, b)]))
        add(stats, 'steps', len(trace))
        add(stats, 'switches', len(taken))
        res = [('ok' if o['status'] == 'ok' else o['status'], o.get('exc')) for o in outs]
        made = {os.path.relpath(os.path.join(root, q[1].split('>')[0]), d).split('/')[0] for o in outs if o['status'] == 'crash' for q in o['ops']
                if q[0] in ('mkdir', 'create', 'open')}
        explicit = {'sched': {'switches': taken}}
        out['trace'] = h(taken, res, trace)
        out['nontrivial'] = h(plan['savers'], taken, plan.get('dies'))
        out['sim_ns'] = max(o['sim_ns'] for o in outs)
    else:
        pol = world.Policy(seed=plan['seed'])
        if plan['xdev']:
            pol.mounts = [os.path.join(root, 'tmp')]

        def together():
            import tempfile
            tempfile.tempdir = None
            an = [ops.analyse(ops.Inputs(s['case'])) for s in savers]
            ops.save(an[0], os.path.join(root, 'elsewhere'), 'warm')       # imports
            base = len(pol.ops)
            fns = [lambda s=s, a=a: save_all(s, d, a) for s, a in zip(savers, an)]
            sim = threads.ThreadSim(fns, plan['sched'], 'line', est=len(savers) * 330, max_steps=len(savers) * 20000)

            def before(kind, path):
                if sim.me() is not None:
                    with world.off_seam():
                        observe(sim.step)
                    sim.point((kind, '/'.join(q[:3] for q in path.split('/')[:3])))
            pol.before = before
            r = sim.run()
            pol.before = None
            return r, sim.step, sim.switches, sim.deadlock, sim.overrun, sorted(h(*w) for w in sim.where), base, list(torn)
        o = harness(solo(together, ctx, 'threads', policy=pol, seed=plan['seed'], clock={'ns': 1700000000_000000000}, **common), 'threads')
        if o['status'] != 'ok':
            return {**out, 'violation': viol('process died', [o['status'], o.get('exc')]), 'trace': h(o['status'])}
        r, steps, switches, dead, over, states, base, t = o['value']
        torn.extend(t)
        observe(steps)
        add(stats, 'steps', steps)
        add(stats, 'switches', len(switches))
        res = [(x[0], x[1][:2] if x[0] == 'exc' else None) for x in r]
        made = set()
        explicit = {'sched': {'kind': 'explicit', 'switches': switches}}
        out['trace'] = h(switches, res, o['ops'])
        out['nontrivial'] = h(plan['savers'], switches)
        out['sim_ns'] = o['sim_ns']
        if dead or over:
            return {**out, 'explicit': explicit, 'violation': viol('no progress', f'{"deadlock" if dead else "not finished"} after {steps} steps')}
    out['states'] = sorted(states)
    out['sample'] = {'savers': [[s['name'], s['twice']] for s in savers], 'dir': plan['dir'], 'kind': plan['kind'], 'dies': plan.get('dies'),
                     'switches': explicit['sched']['switches'][:10], 'outcome': [x[0] for x in res]}
    v = None
    for i, (st, e) in enumerate(res):
        if st == 'crash':
            continue
        if st != 'ok' and not v:
            v = viol('a simultaneous save failed', f'saver {i}: {st} {e}')
    if torn and not v:
        v = viol('workbooks of simultaneous saves mixed or damaged', torn[0])
    for n in names:
        if v:
            break
        mine = [(i, e) for i, (s, e) in enumerate(zip(savers, exps)) if s['name'] == n]
        must = any(res[i][0] == 'ok' for i, _ in mine)
        errs = [W.check_file(os.path.join(d, n + '.xlsx'), e) for _, e in mine]
        if n in old and not must:
            errs.append(W.check_file(os.path.join(d, n + '.xlsx'), old[n]))
        if all(errs) and (must or set(errs) != {'absent'}):
            v = viol('workbook is none of those saved', f'{n}.xlsx: {errs[0]}')
    if not v:
        have = set(os.listdir(d)) if os.path.isdir(d) else set()
        extra = have - {n + '.xlsx' for n in names} - set(keep) - made
        if extra:
            v = viol('something else is left in the directory', sorted(extra))
        elif set(keep) - have:
            v = viol('a file of the user is gone', sorted(set(keep) - have))
    out['violation'] = v
    if v:
        out['explicit'] = explicit
    return out
