"""What the plots of a run show, after whatever was plotted, saved, interrupted or left open before in the same process"""
import gc
import os
import pickle
import random
import re

import numpy as np

from .. import numeric
numeric.install()
from .. import artefacts as A, cases, faults, ops, program, world       # noqa: E402
from . import clirun                        # noqa: E402
from .common import add, fault_stats, h, harness, solo, viol       # noqa: E402


def warm():
    program.warm()


def sections(a):
    """heights, normalised lift and drag coefficients of the sections of each sail above the water, from panel loads"""
    v = a.vlm
    nc, ns = a.inp.solver.n_chordwise, a.inp.solver.n_spanwise
    out = []
    lift, drag, cp = (np.asarray(x, dtype=float) for x in (v.lift, v.drag, v.cp))
    wind = np.asarray(v.inlet_conditions.V_app_infs, dtype=float)
    area = np.asarray(v.areas, dtype=float)
    q = 0.5 * a.inp.conditions.rho * np.sum(wind * wind, axis=1)
    for i, s in enumerate(a.sail_set.sails):
        g = slice(i * nc * ns, (i + 1) * nc * ns)
        w = area[g].reshape(nc, ns)
        z = cp[g, 2].reshape(nc, ns).mean(axis=0)
        one = {'name': s.name, 'z': z}
        for k, f in (('lift', lift), ('drag', drag)):
            c = np.sum((np.linalg.norm(f[g], axis=1) / q[g]).reshape(nc, ns), axis=0) / w.sum(axis=0)
            one[k] = c / (np.sum(c * w.sum(axis=0)) / w.sum())
        out.append(one)
    return out


def polygons(a):
    """the polygons expected, and what is wrong with them as a picture of the panels, if something is"""
    m = np.asarray(a.sail_set.zero_mesh, dtype=float)
    p = np.asarray(a.sail_set.panels, dtype=float)
    nc, ns = a.inp.solver.n_chordwise, a.inp.solver.n_spanwise
    if m.shape != p.shape:
        return None, 'not one polygon per panel'
    bad = None
    for i in range(len(p)):
        r, _ = divmod(i % (nc * ns), ns)
        if (m[i, :, 2].mean() > 0) != (p[i, :, 2].mean() > 0):
            bad = bad or f'polygon {i} is on the other side of the water than its panel'
        if r + 1 < nc and not (np.allclose(m[i, 0], m[i + ns, 1], atol=1e-9) and np.allclose(m[i, 3], m[i + ns, 2], atol=1e-9)):
            bad = bad or f'polygon {i} and the next along the chord do not touch'
        if r == 0:
            for c in (1, 2):
                w = a.csys.reverse_rotations_with_mirror(p[i, c])
                if not np.allclose(w, m[i, c], atol=1e-6):
                    bad = bad or f'polygon {i} does not lie at the luff of its panel'
    return [(np.append(q[:, 0], q[0, 0]), np.append(q[:, 2], q[0, 2])) for q in m], bad


def expected(case, ctx):
    d = os.path.join(ctx.base, 'baseline')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'fig' + h(case) + '.pickle')
    if os.path.exists(f):
        with open(f, 'rb') as g:
            return pickle.load(g)

    def go():
        a = ops.analyse(ops.Inputs(case))
        xy, bad = polygons(a)
        return {'sections': sections(a), 'polygons': xy, 'bad': bad, 'p': np.asarray(a.vlm.p_coeffs, dtype=float)}
    e = harness(solo(go, ctx, 'fig' + h(case), roots=[ctx.dir]), 'expectation')
    r = e['value'] if e['status'] == 'ok' else {'error': [e['status'], e.get('exc')]}
    t = f'{f}.{os.getpid()}'
    with open(t, 'wb') as g:
        pickle.dump(r, g)
    os.replace(t, f)
    return r


def look(fig):
    """what a figure shows"""
    out = {'series': [], 'legend': [], 'xlabel': '', 'ylabel': '', 'axes': len(fig.axes), 'outside': 0}
    for ax in fig.axes:
        out['xlabel'] += ax.get_xlabel()
        out['ylabel'] += ax.get_ylabel()
        x0, x1 = sorted(ax.get_xlim())
        y0, y1 = sorted(ax.get_ylim())
        items = [(c.get_label(), np.asarray(c.get_offsets(), dtype=float), c.get_facecolor()) for c in ax.collections if c.get_visible() and hasattr(c, 'get_offsets')]
        items += [(c.get_label(), np.asarray(c.get_xydata(), dtype=float), c.get_color()) for c in ax.lines if c.get_visible()]
        items += [(c.get_label(), np.zeros((0, 2)), None) for c in (*ax.patches, *ax.images)]
        ex, ey = 1e-9 + 1e-9 * abs(x1), 1e-9 + 1e-9 * abs(y1)
        for lab, xy, col in items:
            out['series'].append([str(lab), xy.tolist()])
            for x, y in xy:
                if not (x0 - ex <= x <= x1 + ex and y0 - ey <= y <= y1 + ey):
                    out['outside'] += 1
        leg = ax.get_legend()
        if leg is not None:
            out['legend'] += [t.get_text() for t in leg.get_texts()]
        out.setdefault('text', []).extend(t.get_text() for t in ax.texts)
    return out


def sail(name):
    """jib, main, main sail, main_sail: which one is meant"""
    return re.split(r'[\W_]', name.lower())[0].replace('mainsail', 'main')


def judge(kind, seen, exp, labels):
    """kind: lift or drag; exp: [(x, y)]"""
    want = 'c_l' if kind == 'lift' else 'c_d'
    if want not in seen['xlabel'] or ('c_d' if kind == 'lift' else 'c_l') in seen['xlabel']:
        return f'the {kind} plot is labelled {seen["xlabel"]!r}'
    if len(seen['series']) != len(exp):
        return f'{len(seen["series"])} series for {len(exp)} sails: {[s[0] for s in seen["series"]]}'
    got = {sail(s[0]): np.asarray(s[1], dtype=float).reshape(-1, 2) for s in seen['series']}
    if sorted(got) != sorted(labels) or sorted(map(sail, seen['legend'])) != sorted(labels):
        return f'series {sorted(got)}, legend {seen["legend"]}, sails {labels}'
    for n, (x, y) in zip(labels, exp):
        e = np.stack([np.asarray(x, dtype=float), np.asarray(y, dtype=float)], axis=1)
        g = got[n]
        if g.shape != e.shape or not np.allclose(g[np.lexsort(g.T)], e[np.lexsort(e.T)], rtol=1e-7, atol=1e-9):
            return f'{n}: shows {np.round(g, 4).tolist()[:4]} for {np.round(e, 4).tolist()[:4]}'
    if seen['outside']:
        return f'{seen["outside"]} points outside the axes'
    return None


class Stop(KeyboardInterrupt):
    pass


def leave(k, rng, plt, matplotlib):
    """what a user of the process may have done to pyplot before"""
    if k == 'plot':
        plt.figure()
        plt.plot([1, 2, 3], [rng.random() * 9 for _ in range(3)], label='mine')
        plt.xlabel('mine')
    elif k == 'subplots':
        fig, ax = plt.subplots(2, 2)
        ax[0, 0].scatter([0.5], [3.0], s=5.0, label='jib')
        plt.sca(ax[1, 0])
    elif k == 'number':
        plt.figure(num=rng.choice([1, 2, 'section', 'lift']))
        plt.scatter([9.0], [9.0], s=5.0, label='main')
        plt.legend()
    elif k == 'twin':
        ax = plt.figure().add_subplot(111)
        ax.twinx().plot([5, 6])
        ax.set_yscale('log')
    elif k == 'many':
        for _ in range(4):
            plt.plot(plt.figure().number * np.ones(2))
    elif k == 'close':
        plt.close(rng.choice(['all', None]))
    elif k == 'saved':
        with world.off_seam():
            plt.figure()
            plt.plot([1, 2])
    elif k == 'rc':
        plt.rcParams.update(rng.choice([{'axes.prop_cycle': matplotlib.cycler(color=['r', 'k'])}, {'figure.figsize': [2, 2]}, {'lines.marker': 'x'},
                                        {'axes.xmargin': 0.3}, {'legend.loc': 'upper right'}, {'interactive': True}, {'axes.autolimit_mode': 'round_numbers'}]))
    elif k == 'errstate':
        np.seterr(all='ignore')


def series(s, case, rng):
    """section data of many analyses in a row, nothing kept between them: first that does not belong to its loads, or None"""
    for j in range(s['n']):
        a = ops.analyse(ops.Inputs(case))
        want = sections(a)
        for n, k in zip(a.coeffs, ('z', 'lift', 'drag')):
            w = np.array([q[k] for q in want])
            g = np.array([np.asarray(x, dtype=float) for x in n])
            if w.shape != g.shape or not np.allclose(g, w, rtol=1e-7, atol=1e-9):
                return f'analysis {j + 1} of {s["n"]}: {k} of the sections {np.round(g, 4).tolist()} for {np.round(w, 4).tolist()}'
        case = cases.variant(rng, case)
        del a, n, g, w, want
        if s['collect']:
            gc.collect()
    return None


def execute(plan, ctx):
    stats = {}
    exps = [expected(c, ctx) for c in plan['cases']]
    for e in exps:
        if e.get('error'):
            return {'stats': stats, 'violation': viol('valid analysis failed', e['error']), 'trace': ''}
        if e['bad']:
            return {'stats': stats, 'violation': viol('the pressure plot does not show the panels', e['bad']), 'trace': h(e['bad'])}
    bases = [clirun.baseline({'case': c, 'out': 'abs', 'dv': 'abs'}, ctx) if plan['drawn'] else {} for c in plan['cases']]
    for b in bases:
        if b.get('error'):
            return {'stats': stats, 'violation': viol(*b['error']), 'trace': ''}
    root = ctx.sub('world')
    cwd, tmp = os.path.join(root, 'cwd'), os.path.join(root, 'tmp')
    os.makedirs(cwd)
    os.makedirs(tmp)
    pol = world.Policy(seed=plan['seed'])

    def go():
        import matplotlib
        import matplotlib.pyplot as plt
        from matplotlib.backend_bases import FigureCanvasBase
        real = FigureCanvasBase.print_figure
        stop = {'at': None, 'after': False}
        saved = []

        def print_figure(self, filename, *a, **k):
            n = len(saved)
            ext = '' if os.path.splitext(str(filename))[1] else '.' + (k.get('format') or 'png')
            saved.append([os.path.abspath(str(filename)) + ext, look(self.figure)])
            if stop['at'] == n and not stop['after']:
                raise Stop
            if plan['drawn']:
                real(self, filename, *a, **k)
            if stop['at'] == n:
                raise Stop
        FigureCanvasBase.print_figure = print_figure
        again = False
        program.start()
        for i, s in enumerate(plan['steps']):
            rng = random.Random(s['pick'])
            saved.clear()
            stop['at'] = None
            pol.faults = []
            if s['op'] == 'run':
                with world.off_seam():
                    sd = os.path.join(root, f'set{i}')
                    os.makedirs(sd)
                    out = os.path.join(root, 'out' if plan['shared'] else f'out{i}')
                    with open(os.path.join(sd, 'variables.py'), 'w') as f:
                        f.write(cases.variables_py(plan['cases'][s['case']], repr(out)))
                f = s.get('stop')
                if f and f['how'] in ('before', 'after'):
                    stop.update(at=f['at'], after=f['how'] == 'after')
                elif f and f['how'] == 'disk':
                    pol.faults = [{'from': 0, 'kinds': ['create', 'write'], 'do': 'EIO', 'path': f['path']}]
                elif f and f['how'] == 'solver':
                    numeric.arm({'mode': 'raise', 'at': 0})
                try:
                    r = program.status(['-dv', sd], again)
                except KeyboardInterrupt:
                    r = (130, 'stopped')
                numeric.arm(None)
                pol.faults = []
                with world.off_seam():
                    html = os.path.join(out, 'cp_plot.html')
                    page = clirun.read(html) if r[0] == 0 and os.path.exists(html) else None
                    px = {k: clirun.read(p) if os.path.exists(p) else None for k, p in A.paths(out).items() if k in ('lift', 'drag')} if plan['drawn'] and r[0] == 0 else None
                pol.notes.append([i, 'run', r, [list(x) for x in saved], page, px, out])
                again = True
            elif s['op'] == 'plot':
                from pySailingVLM.solver.panels_plotter import plot_cp, plot_section_coeff
                out = os.path.join(root, f'api{i}')
                with world.off_seam():
                    os.makedirs(out)
                x, y = s['x'], s['y']
                try:
                    plot_section_coeff([np.array(v) for v in x], [np.array(v) for v in y], out, s['what'], ['blue', 'green'])
                    mesh = np.array(s['mesh'])
                    plot_cp(mesh, np.array(s['p']), out)
                    r = 'returned'
                except Exception as e:
                    r = repr(e)
                with world.off_seam():
                    html = os.path.join(out, 'cp_plot.html')
                    page = clirun.read(html) if os.path.exists(html) else None
                pol.notes.append([i, 'plot', r, [list(x) for x in saved], page, None, out])
            elif s['op'] == 'series':
                pol.notes.append([i, 'series', series(s, plan['cases'][s['case']], rng), [], None, None, ''])
            elif s['op'] == 'left':
                leave(s['what'], rng, plt, matplotlib)
    o = harness(solo(go, ctx, 'h', cwd=cwd, roots=[root], policy=pol, env={'TMPDIR': tmp}, clock={'ns': clirun.START}, seed=plan['seed'],
                     capture=os.path.join(ctx.dir, 'console')), 'history')
    fault_stats(stats, o)
    if o['status'] != 'ok':
        return {'stats': stats, 'violation': viol('the program hangs or dies', f'{o["status"]} {o.get("exc")} {(o.get("tb") or "")[-400:]}'), 'trace': ''}
    v, traces, states = None, [], []
    rc = False
    did = []
    notes = {n[0]: n for n in o['notes']}
    for i, s in enumerate(plan['steps']):
        if s['op'] == 'left':
            rc = rc or s['what'] == 'rc'
            did.append(s['what'])
            add(stats, 'fault:left ' + s['what'])
            continue
        _, what, r, saved, page, px, out = notes[i]
        where = f'step {i + 1} of {len(plan["steps"])} ({what}, after {did})'
        if what == 'series':
            add(stats, 'analyses in series', s['n'])
            if r:
                v = v or viol('section data of an analysis does not belong to its loads', f'{where}: {r}')
            traces.append([what, str(r)])
            did.append(what)
            continue
        bad = None
        if what == 'plot':
            exp, labels = list(zip(s['x'], s['y'])), ['jib', 'main'][:len(s['x'])]
            if r != 'returned':
                bad = ('plotting fails', r)
            files = {'section_cl.png' if s['what'] == 'lift' else 'section_cd.png': (s['what'], exp, labels)}
            xy = [(np.append(np.array(q)[:, 0], q[0][0]), np.append(np.array(q)[:, 2], q[0][2])) for q in s['mesh']]
            pc = np.array(s['p'])
        else:
            e = exps[s['case']]
            labels = [sail(q['name']) for q in e['sections']]
            files = {'section_cl.png': ('lift', [(q['lift'], q['z']) for q in e['sections']], labels),
                     'section_cd.png': ('drag', [(q['drag'], q['z']) for q in e['sections']], labels)}
            xy, pc = e['polygons'], e['p']
            f = s.get('stop')
            if f:
                add(stats, f'fault:run stopped: {f["how"]}')
                did.append('stopped ' + f['how'])
            elif r[0] != 0:
                bad = ('a run of valid settings failed', str(r))
        names = [os.path.relpath(x[0], out) for x in saved]
        for (p, seen), n in zip(saved, names):
            if n in files:
                m = judge(files[n][0], seen, *files[n][1:])
                if m and not bad:
                    bad = ('a section plot shows something else', f'{n}: {m}')
        complete = (what == 'plot' and r == 'returned') or (what == 'run' and r[0] == 0)
        if complete and not bad:
            if sorted(n for n in names if n in files) != sorted(files):
                bad = ('a section plot shows something else', f'figures written: {names}')
            elif page is None:
                bad = ('the pressure plot shows something else', 'no file')
            else:
                try:
                    gxy, gv = A.polygons(page)
                    if len(gxy) != len(xy):
                        bad = ('the pressure plot shows something else', f'{len(gxy)} polygons for {len(xy)} panels')
                    else:
                        for k in range(len(xy)):
                            if any(len(a) != len(b) or not np.allclose(a, b, rtol=1e-7, atol=1e-9) for a, b in zip(gxy[k], xy[k])) or not np.isclose(gv[k], pc[k], rtol=1e-7, atol=1e-12):
                                bad = bad or ('the pressure plot shows something else', f'polygon {k}: {np.round(gxy[k], 3).tolist()} {gv[k]} for {np.round(xy[k], 3).tolist()} {pc[k]}')
                except A.Broken as e2:
                    bad = ('the pressure plot shows something else', str(e2))
            if what == 'run' and px and not rc and not bad:
                for k in ('lift', 'drag'):
                    try:
                        g = A.read_png(px[k] or b'')
                        if g.shape != bases[s['case']]['pixels'][k].shape or not np.array_equal(g, bases[s['case']]['pixels'][k]):
                            bad = bad or ('a section plot shows something else', f'the {k} picture differs from the one of a run in a fresh process')
                    except A.Broken as e2:
                        bad = bad or ('a section plot shows something else', f'{k}: {e2}')
        if bad:
            v = v or viol(bad[0], f'{where}: {bad[1]}')
        traces.append([what, str(r), names, [len(x[1]['series']) for x in saved]])
        states.append(h(what, [plan['cases'][s['case']]['rig']['sails_def'] if what == 'run' else s['what']], did[-2:], s.get('stop'), complete))
        did.append(what)
    return {'stats': stats, 'violation': v, 'trace': h(traces), 'states': states, 'sim_ns': o['sim_ns'], 'nontrivial': h(plan),
            'sample': {'steps': [s['op'] + ' ' + str(s.get('what', s.get('stop') or '')) for s in plan['steps']], 'drawn': plan['drawn']}}
