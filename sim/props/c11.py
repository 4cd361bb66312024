"""Reruns in what a crashed or failed run left"""
import os

from .. import numeric
numeric.install()
from .. import faults, program, world       # noqa: E402
from . import clirun                        # noqa: E402
from .common import add, fault_stats, h, harness, solo, viol       # noqa: E402


def warm():
    program.warm()


def execute(plan, ctx):
    stats = {}
    b = clirun.baseline(plan['spec'], ctx)
    if b.get('error'):
        return {'stats': stats, 'violation': viol(*b['error']), 'trace': h(b['error'])}
    s = clirun.Setup(ctx.sub('world'), plan['spec'])
    told, traces, ns = [], [], 0

    def note(o, pol, what):
        fault_stats(stats, o)
        told.append(f'{what}: {"died" if o["status"] == "crash" else "status %s" % o.get("code")}')

    def bound(e, ops):
        fs = faults.bind(e['fault'], ops, e['where'])
        return fs, faults.describe(fs, ops)
    earlier = list(plan['earlier'])
    other = {}          # settings file and operations of an earlier run with other settings
    for e in earlier:
        if e.get('case'):
            spec = {**plan['spec'], 'case': e['case']}
            o = clirun.baseline(spec, ctx)
            if o.get('error'):
                return {'stats': stats, 'violation': viol(*o['error']), 'trace': ''}
            other[id(e)] = clirun.Setup(os.path.join(ctx.dir, 'spare', str(len(other))), spec).source.replace(
                os.path.join(ctx.dir, 'spare', str(len(other))).encode(), s.root.encode()), o['ops']
    states = []
    for i, e in enumerate(earlier):
        src, ops = other.get(id(e), (s.source, b['ops']))
        s.write(src)
        fs, what = bound(e, ops)
        if e.get('same_process') and i == len(earlier) - 1 and not any(f.get('do') in ('crash', 'crash_after', 'torn') for f in fs):
            pol = world.Policy(seed=plan['seed'])
            pol.faults = fs

            def both():
                one = program.status(s.argv)
                pol.faults = []
                with world.off_seam():
                    s.write()
                pol.notes.append(['first', one[0], one[1]])
                return program.status(s.argv, again=True)
            o = s.run(ctx, policy=pol, seed=plan['seed'], fn=lambda argv: both())
            fault_stats(stats, o)
            first = next((x for x in o['notes'] if x[0] == 'first'), ['first', None, None])
            told.append(f'{what}: status {first[1]} ({first[2]}), then in the same process')
            code, err = o.get('value') or (o.get('code'), o.get('exc'))
            add(stats, 'rerun in the same process')
            ns += o['sim_ns']
            break
        pol = world.Policy(seed=plan['seed'] + i * plan['reseed'])
        pol.faults = fs
        if plan['xdev']:
            pol.mounts = [s.tmp]
        o = s.run(ctx, policy=pol, seed=plan['seed'] + i * plan['reseed'])
        note(o, pol, what)
        traces.append([o['ops'], o.get('code')])
        hit = [q for q in o['ops'] if len(q) > 3][:1]
        states += [h(q[0], q[1].split('/')[0], os.path.basename(q[1])[:4], q[3]) for q in hit]
        ns += o['sim_ns']
    else:
        s.write()
        pol = world.Policy(seed=plan['seed'] + 99 * plan['reseed'])
        if plan['xdev']:
            pol.mounts = [s.tmp]
        left = clirun.A.tree(s.out) if os.path.isdir(s.out) else None
        o = s.run(ctx, policy=pol, seed=plan['seed'] + 99 * plan['reseed'])
        code, err = o.get('code'), o.get('exc')
        ns += o['sim_ns']
        states = [h(x, -1 if left is None else len(left)) for x in states]
    traces.append([o['ops'], code])
    v = None
    told = '; '.join(told)
    if o['status'] in ('hang', 'signal', 'crash'):
        v = viol('the rerun hangs or dies', f'{told}; rerun {o["status"]}')
    elif code != 0:
        v = viol('the rerun fails', f'{told}; rerun: status {code}, {err}, {clirun.console(ctx, 200)}')
    else:
        m = clirun.same_content(s, b)
        if m:
            v = viol('the rerun leaves something else', f'{told}; rerun: {m}')
    add(stats, f'{len(earlier)} earlier runs')
    return {'stats': stats, 'violation': v, 'trace': h(traces), 'states': states or [h(told)], 'sim_ns': ns, 'nontrivial': h(plan),
            'sample': {'earlier': told, 'rerun': code}}
