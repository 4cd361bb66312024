"""What a run of the program may touch"""
import os
import random
import re

from .. import numeric
numeric.install()
from .. import artefacts as A, faults, program, world       # noqa: E402
from . import clirun                        # noqa: E402
from .c08 import damage                     # noqa: E402
from .common import add, fault_stats, h, harness, viol       # noqa: E402

NAMES = ['res.xlsx', 'variables.py', 'cp_plot.html', 'section_cl.png', 'section_cd.png']
OWN = {'res.xlsx', 'variables.py', 'cp_plot.html', 'section_cl.png', 'section_cd.png'}


PROBE = re.compile(r'(tmp)?[a-z0-9_]{8}')


def warm():
    program.warm()


def furnish(plan, s, rng):
    """things of others, everywhere; returns the names of those in the output directory"""
    def put(p, text=None):
        if os.path.lexists(p):
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text or f'kept {rng.random()}')
    other = os.path.join(s.root, 'other results')
    for d in {s.cwd, other, s.root, s.set, os.path.dirname(s.out)}:
        for n in rng.sample(NAMES + ['notes.txt', 'section_cl', 'Results.csv', 'res.tmp', 'res.xlsx~', 'my_fancy_results.xlsx'], 6):
            if d == s.set and n == 'variables.py':
                continue
            put(os.path.join(d, n))
    put(os.path.join(s.out + '2', 'res.xlsx'))
    put(os.path.join(s.out + '.bak', 'res.xlsx'))
    put(os.path.join(s.tmp, 'someone', 'file'))
    mine = {}
    if plan['full']:
        os.makedirs(s.out, exist_ok=True)
        for n in rng.sample(['notes.txt', 'res.xlsx.bak', 'old/res.xlsx', 'res.csv', 'tmpabcd1234/res.xlsx', 'section_cl.png.txt', 'section_cl', 'variables.pyc', '.hidden', 'other.xlsx',
                             'res', 'cp_plot.html.tmp', 'section_cm.png', 'variables_old.py', '~$res.xlsx', 'sub/dir/file'], 7):
            put(os.path.join(s.out, n))
        for n in rng.sample(NAMES, rng.choice([0, 2, 5])):      # left by an earlier run
            put(os.path.join(s.out, n))
        mine = {k: x for k, x in A.tree(s.out).items() if k not in OWN}
    return mine


def snapshot(s):
    """everything below the root except the output and the temporary directory"""
    t = A.tree(s.root)
    skip = [os.path.relpath(d, s.root) for d in (s.out, s.tmp)]
    return {k: x for k, x in t.items() if not any(k.rstrip('/') == d or k.startswith(d + '/') for d in skip)}


def execute(plan, ctx):
    stats = {}
    b = clirun.baseline(plan['spec'], ctx)
    if b.get('error'):
        return {'stats': stats, 'violation': viol(*b['error']), 'trace': h(b['error'])}
    s = clirun.Setup(ctx.sub('world'), plan['spec'])
    rng = random.Random(plan['pick'])
    v, told, traces, states, ns = None, [], [], [], 0
    if plan['kind'] == 'input':
        damage({'bad': plan['bad'], 'pick': plan['pick'], 'spec': plan['spec']}, s)
    mine = furnish(plan, s, rng)
    before = snapshot(s)
    parents = set()        # directories that the output directory needs
    d = os.path.dirname(s.out)
    while len(d) > len(s.root):
        parents.add(os.path.relpath(d, s.root) + '/')
        d = os.path.dirname(d)
    disturbed = probing = False
    for i, e in enumerate(plan['runs']):
        pol = world.Policy(seed=plan['seed'] + i)
        what = 'healthy'
        if e.get('fault'):
            pol.faults = faults.bind(e['fault'], b['ops'], e['where'])
            what = faults.describe(pol.faults, b['ops'])
        if plan['xdev']:
            pol.mounts = [s.tmp]
        if e.get('num'):
            what = f'solver {e["num"]["mode"]}'
        if plan['kind'] == 'input':
            what = f'settings: {plan["bad"]}'
        o = s.run(ctx, policy=pol, seed=plan['seed'] + i, numfault=e.get('num'))
        fault_stats(stats, o)
        if e.get('num') and any(x[0] == 'num' and x[1] for x in o['notes']):
            add(stats, 'fault:solver:' + e['num']['mode'])
        ns += o['sim_ns']
        end = 'died' if o['status'] == 'crash' else f'status {o.get("code")}'
        add(stats, f'ended: {end}')
        told.append(f'{what}: {end}')
        traces.append([o['ops'], end])
        t = '; '.join(told)
        # python looks for a temporary directory in TMPDIR, /tmp, /var/tmp, /usr/tmp and, when nothing can be written there, the working directory
        probing = probing or any(len(q) > 3 and q[1].startswith('tmp') for q in o['ops'])
        out = [x for x in o['escapes'] if not (probing and os.path.dirname(x[1]) in ('/tmp', '/var/tmp', '/usr/tmp') and PROBE.fullmatch(os.path.basename(x[1])))]
        if out:
            v = v or viol('touches files outside the output and temporary directories', f'{t}: {out[:4]}')

        def temporary(p):
            p = os.path.relpath(p, os.path.relpath(s.cwd, s.root)).split('/')
            return probing and PROBE.fullmatch(p[0]) is not None
        skip = [os.path.relpath(d, s.root) for d in (s.out, s.tmp)]
        for q in o['ops']:
            if q[0] in ('open', 'read'):
                continue
            for p in q[1].split('>'):
                if q[0] == 'mkdir' and p + '/' in parents:
                    continue
                if not any(p == d or p.startswith(d + '/') for d in skip) and q[0] not in ('close', 'meta') and not temporary(p):
                    v = v or viol('touches files outside the output and temporary directories', f'{t}: {q}')
        after = snapshot(s)
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k) and not (k in parents and k not in before) and not temporary(k):
                v = v or viol('changes what is not its own', f'{t}: {k}: {before.get(k)} -> {after.get(k)}')
        if mine:
            now = A.tree(s.out)
            for k in mine:
                if now.get(k) != mine[k]:
                    v = v or viol('changes what is not its own', f'{t}: {k} in the output directory: {mine[k]} -> {now.get(k)}')
        if end == 'status 0':
            now = {k for k in A.tree(s.out) if k not in mine}
            if now != OWN and not disturbed:      # what a killed run left is not the business of a later one
                v = v or viol('a successful run leaves something else than its artefacts', f'{t}: {sorted(now ^ OWN)}')
            elif not OWN <= now:
                v = v or viol('a successful run leaves something else than its artefacts', f'{t}: no {sorted(OWN - now)}')
        else:
            disturbed = True
        hit = [q for q in o['ops'] if len(q) > 3][:1]
        states.append(h(plan['spec']['out'], plan['spec']['dv'], plan['full'], end, i, [[q[0], os.path.basename(q[1])[:4], q[3]] for q in hit]))
    return {'stats': stats, 'violation': v, 'trace': h(traces), 'states': states, 'sim_ns': ns, 'nontrivial': h(plan),
            'sample': {'runs': told, 'out': plan['spec']['out'], 'dv': plan['spec']['dv'], 'kept': len(mine)}}
