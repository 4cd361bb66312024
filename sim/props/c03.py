import gc
import os
import random

from .. import cases, ops, program, threads, workbook as W, world
from .common import add, fault_stats, h, harness, round_digest, solo, viol


def warm():
    program.warm()


class Counter(threads.Interrupter):
    """records the lines a call executes"""

    def __init__(self):
        super().__init__(None)
        self.seen = []

    def on(self, code, line):
        r = super().on(code, line)
        if r is None:
            self.seen.append((self.names[code], line))
        return r


def make(plan, d):
    """(the call, what it needs to compare, objects the caller owns)"""
    from pySailingVLM.solver.panels_plotter import plot_section_coeff
    op = plan['kind']
    inp = ops.Inputs(plan['case'])
    if op == 'fly':
        wing = plan['wing']
        return (lambda: ops.digest_wing(ops.fly(wing))), inp, None
    if op == 'analyse':
        return (lambda: ops.digest(ops.analyse(inp))), inp, None
    a = ops.analyse(inp)
    if op in ('parts', 'vlm'):
        parts = {'csys': a.csys, 'wind': a.wind, 'sail': a.sail} if op == 'parts' else {'csys': a.csys, 'wind': a.wind, 'sail': a.sail, 'sail_set': a.sail_set}
        return (lambda: ops.digest(ops.analyse(inp, parts))), inp, a
    if op in ('save', 'resave'):
        def save():
            comp, integ, ic = ops.save(a, d, 'res')
            g = {}
            for n, df in (('comp', comp), ('integ', integ), ('ic', ic)):
                for k, v in ops.frames(df).items():
                    g[f'{n}.{k}'] = v
            return g
        if op == 'resave':
            b = ops.analyse(ops.Inputs(cases.variant(random.Random(plan['seed']), plan['case'])))
            ops.save(b, d, 'res')
        return save, inp, a

    def plot():
        os.makedirs(d, exist_ok=True)
        labels = ['main'] if plan['case']['rig']['sails_def'] == 'main' else ['jib', 'main']
        plot_section_coeff(a.coeffs[1], a.coeffs[0], d, 'lift', ['blue', 'green'], labels)
        return {}
    return plot, inp, a


def png(d):
    from .. import artefacts
    with open(os.path.join(d, 'section_cl.png'), 'rb') as f:
        return artefacts.read_png(f.read())


def listing(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


def session(plan, d, cuts):
    """cuts: [[k-th line executed, exception]...]"""
    import numpy as np
    call, inp, a = make(plan, d)
    before = ops.snapshot(inp)
    kept = ops.digest(a) if a is not None else None
    state = ops.process_state()
    with world.off_seam():
        old = None
        if os.path.exists(os.path.join(d, 'res.xlsx')):
            old = open(os.path.join(d, 'res.xlsx'), 'rb').read()
    exp = W.expected(plan['case'], a) if plan['kind'] in ('save', 'resave') else None
    bad, hits, lines = None, [], None
    if cuts is None:
        with Counter() as c:
            r = call()
        lines = c.seen
    else:
        for k, exc in cuts:
            it = threads.Interrupter(k, exc)
            reached = None
            try:
                with it:
                    call()
            except BaseException as e:
                reached = type(e).__name__
            gc.collect()
            hits.append(it.fired)
            if it.fired and reached != exc and not bad:
                bad = ['the interruption does not reach the caller', f'{exc} at {it.fired}: {reached}']
            if not it.fired and reached and not bad:
                bad = ['the repeated call fails', f'after {exc} at {hits[:-1]}: {reached}']
            e = ops.same_snapshot(before, ops.snapshot(inp))
            if e and not bad:
                bad = ['an interrupted call changed the inputs', f'{exc} at {it.fired}: {e}']
            with world.off_seam():
                have = set(listing(d))
                if plan['kind'] in ('save', 'resave'):
                    e = None
                    if have - {'res.xlsx'}:
                        e = f'left {sorted(have - {"res.xlsx"})}'
                    elif 'res.xlsx' in have:
                        now = open(os.path.join(d, 'res.xlsx'), 'rb').read()
                        if now != old:
                            e = W.check_bytes(now, exp)
                    elif old is not None:
                        e = 'the earlier workbook is gone'
                    if e and not bad:
                        bad = ['an interrupted save leaves debris or a damaged workbook', f'{exc} at {it.fired}: {e}']
            if bad:
                return [bad, hits, None, None]
        if plan['other']:
            ops.digest(ops.analyse(ops.Inputs(cases.variant(random.Random(plan['seed']), plan['case']))))
        try:
            r = call()
        except BaseException as e:
            return [['the repeated call fails', f'after {cuts} at {hits}: {type(e).__name__}: {e}'], hits, None, None]
    e = ops.same_snapshot(before, ops.snapshot(inp))
    if e and not bad:
        bad = ['an interrupted call changed the inputs', f'{hits}: {e}']
    if kept is not None and not bad:
        e = ops.differ(ops.digest(a), kept)
        if e:
            bad = ['an earlier result changed', f'{hits}: {e}']
    if cuts is not None and not bad and plan['kind'] != 'plot':
        now = ops.process_state()
        diff = [k for k in state if state[k] != now[k]]
        if diff:
            bad = ['process-wide settings changed', f'{hits}: {diff}']
    with world.off_seam():
        if plan['kind'] in ('save', 'resave'):
            e = W.check_file(os.path.join(d, 'res.xlsx'), exp)
            if e and not bad:
                bad = ['the repeated save did not write the workbook', f'{hits}: {e}']
        if plan['kind'] == 'plot' and not bad:
            r = {'pixels': np.asarray(png(d), dtype=float)}
            if listing(d) != ['section_cl.png']:
                bad = ['the repeated plot left something else', listing(d)]
    return [bad, hits, r, lines]


def go(plan, ctx, name, cuts):
    root = ctx.sub(name)
    for x in ('cwd', 'tmp'):
        os.makedirs(os.path.join(root, x))
    return harness(solo(lambda: session(plan, os.path.join(root, 'out'), cuts), ctx, name, cwd=os.path.join(root, 'cwd'), roots=[root], seed=plan['seed'],
                        env={'TMPDIR': os.path.join(root, 'tmp')}, clock={'ns': 1700000000_000000000}), name)


def execute(plan, ctx):
    stats = {}
    o = go(plan, ctx, 'clean', None)
    if o['status'] != 'ok':
        return {'stats': stats, 'violation': viol('valid call failed', [o['status'], o.get('exc'), (o.get('tb') or '')[-300:]]), 'trace': h(o['status'])}
    bad, _, ref, lines = o['value']
    if bad:
        return {'stats': stats, 'violation': viol(bad[0], bad[1]), 'trace': h(bad)}
    first = {}
    for i, x in enumerate(lines):
        first.setdefault(x, []).append(i)
    distinct = list(first)
    cuts = []
    for f, exc in plan['cuts']:
        if plan['by'] == 'line':
            occ = first[distinct[int(f * len(distinct))]]
            k = occ[random.Random(plan['seed'] + int(f * 1e6)).randrange(len(occ))]
        else:
            k = int(f * len(lines))
        cuts.append([k, exc])
    add(stats, 'lines executed', len(lines))
    o = go(plan, ctx, 'cut', cuts)
    if o['status'] != 'ok':
        return {'stats': stats, 'violation': viol('process ended', [o['status'], o.get('exc'), (o.get('tb') or '')[-300:]]), 'trace': h(o['status'])}
    bad, hits, r, _ = o['value']
    for (k, exc), hit in zip(cuts, hits):
        if hit:
            add(stats, 'fault:' + exc)
    v = viol(bad[0], bad[1]) if bad else None
    if not v:
        e = ops.differ(r, ref)
        if e:
            v = viol('the repeated call gives another result', f'after interruptions at {hits}: {e} (repeated / undisturbed)')
    return {'stats': stats, 'violation': v, 'trace': h(hits, bad, round_digest(r) if r and plan['kind'] != 'plot' else ''), 'states': [x for x in hits if x],
            'nontrivial': h(plan['kind'], plan['case'], cuts), 'sim_ns': o['sim_ns'],
            'sample': {'call': plan['kind'], 'cuts': cuts, 'at': hits, 'lines': len(lines)}}
