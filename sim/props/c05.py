import copy
import os

from .. import faults, ops, workbook as W, world
from .common import add, fault_stats, h, harness, solo, viol


def targets(plan, root):
    """where each step saves: (argument, real path of the workbook)"""
    out, last = [], None
    for i, s in enumerate(plan['steps']):
        if s['same'] and last:
            out.append(last)
            continue
        st = s['style']
        arg = {'abs': os.path.join(root, f'out{i}'), 'rel': f'out{i}', 'nested': os.path.join(root, f'out{i}', 'a', 'b c'), 'dot': f'./out{i}/../out{i}x',
               'slash': os.path.join(root, f'out{i}') + '/', 'unicode': os.path.join(root, f'out{i} żagle'), 'parent': f'../cwd/out{i}',
               'exists': os.path.join(root, f'out{i}')}[st]
        last = (arg, os.path.normpath(os.path.join(root, 'cwd', arg)))
        if st == 'dot':
            last = (arg, os.path.join(root, 'cwd', f'out{i}x'))
        out.append(last)
    return out


def session(plan, root, pol, bound):
    import tempfile
    tempfile.tempdir = None
    out, kept, expect = [], [], {}
    tg = targets(plan, root)
    for i, s in enumerate(plan['steps']):
        a = ops.analyse(ops.Inputs(s['case']))
        exp = W.expected(s['case'], a)
        kept.append((a, exp))
        if s['older']:
            a, exp = kept[0]
        arg, real = tg[i]
        with world.off_seam():
            if s['style'] == 'exists':
                os.makedirs(real, exist_ok=True)
            if s['style'] == 'dot':     # the path goes through this directory
                os.makedirs(os.path.join(root, 'cwd', f'out{i}'), exist_ok=True)
        f = os.path.join(real, s['name'] + '.xlsx')
        base = len(pol.ops)
        pol.faults = faults.shift(bound.get(i, []), base, pol.written)
        try:
            ops.save(a, arg, s['name'])
            r = ['returned', None]
        except (Exception, SystemExit) as e:
            r = ['raised', [type(e).__name__, str(e)[:160]]]
        pol.faults = []
        r.append([base, len(pol.ops)])
        with world.off_seam():
            e = W.check_file(f, exp)
            if r[0] == 'returned':
                expect[f] = (i, exp)
                r[1] = e
            elif expect.get(f):     # what is there now is C06's business
                del expect[f]
        out.append(r)
    with world.off_seam():
        for f, (i, exp) in expect.items():
            e = W.check_file(f, exp)
            if e and out[i][1] is None:
                out[i][1] = 'after the later steps: ' + e
    return out


def go(plan, ctx, name, bound):
    root = ctx.sub(name)
    for d in ('cwd', 'tmp'):
        os.makedirs(os.path.join(root, d))
    pol = world.Policy(seed=plan['seed'])
    return harness(solo(lambda: session(plan, root, pol, bound), ctx, name, cwd=os.path.join(root, 'cwd'), roots=[root], policy=pol,
                        env={'TMPDIR': os.path.join(root, 'tmp')}, seed=plan['seed'], clock={'ns': 1700000000_000000000 + plan['seed'] * 1000003}), name)


def execute(plan, ctx):
    stats = {}
    clean = copy.deepcopy(plan)
    o = go(clean, ctx, 'clean', {})
    out = {'stats': stats}
    if o['status'] != 'ok':
        return {**out, 'violation': viol('save failed without a fault', [o['status'], o.get('exc'), (o.get('tb') or '')[-300:]]), 'trace': h(o['status'])}
    for i, r in enumerate(o['value']):
        add(stats, 'saves')
        if r[0] == 'raised':
            return {**out, 'violation': viol('save failed without a fault', f'save {i} into {plan["steps"][i]["style"]}: {r[1]}'), 'trace': h(r[1])}
        if r[1]:
            return {**out, 'violation': viol('workbook is not the analysis', f'save {i}: {r[1]}'), 'trace': h(r[1])}
    bound = {}
    for i, s in enumerate(plan['steps']):
        if s['fault']:
            b, e = o['value'][i][2]
            bound[i] = faults.bind(s['fault'], o['ops'][b:e], s.get('where', ''))
    if not bound:
        return {**out, 'violation': None, 'trace': h(o['ops']), 'nontrivial': h(plan['steps']), 'sim_ns': o['sim_ns']}
    p = go(plan, ctx, 'faulty', bound)
    fault_stats(stats, p)
    out['sim_ns'] = o['sim_ns'] + p['sim_ns']
    if p['status'] != 'ok':
        return {**out, 'violation': viol('process ended by a disk error', [p['status'], p.get('exc'), (p.get('tb') or '')[-300:]]), 'trace': h(p['status'])}
    v, states = None, set()
    for i, r in enumerate(p['value']):
        b, e = o['value'][i][2]
        what = faults.describe(bound[i], o['ops'][b:e]) if i in bound else 'no fault'
        add(stats, 'save ' + r[0])
        hit = [q for q in p['ops'][r[2][0]:r[2][1]] if len(q) > 3]
        for q in hit[:1]:
            states.add(h(q[0], os.path.basename(os.path.dirname(q[1]))[:3], q[3], r[0]))
        if v:
            continue
        if r[0] == 'returned' and r[1]:
            v = viol('save reported success without the workbook', f'save {i}, {what}: {r[1]}')
        elif r[0] == 'raised' and not hit:
            v = viol('save failed without a fault', f'save {i}, after {what} in an earlier one: {r[1]}')
        elif r[0] == 'raised' and all(q[3] in world.TRANSPARENT for q in hit):
            v = viol('save failed without a fault', f'save {i}, {what} (which calls for a retry): {r[1]}')
    out.update(violation=v, trace=h(p['ops'], p['value']), states=sorted(states), nontrivial=h(plan['steps'], bound),
               sample={'steps': [[s['style'], s['name'], s['fault']] for s in plan['steps']], 'bound': bound, 'outcome': [r[0] for r in p['value']]})
    return out
