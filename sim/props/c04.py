from .. import numeric

numeric.install()

import numpy as np  # noqa: E402

from .. import ops  # noqa: E402
from .. import refmodel as R  # noqa: E402
from .common import add, h, harness, round_digest, solo, viol  # noqa: E402


def check_sails(c, a):
    """the flow an analysis returned against the independent lattice -> (class, message) or None"""
    sv, k = c['solver'], c['conditions']
    g = np.asarray(a.vlm.gamma_magnitude, dtype=float)
    L = R.Lattice(a.sail_set.panels, sv['n_chordwise'], sv['n_spanwise'], R.wind_of(c))
    if g.shape != (L.K,):
        return 'wrong solution returned', f'circulation has shape {g.shape} for {L.K} panels'
    if not np.all(np.isfinite(g)):
        return 'wrong solution returned', f'circulation {g}'
    leak = np.abs(L.leak(g))
    w = np.linalg.norm(L.wind, axis=1)
    i = int(np.argmax(leak / w))
    if not leak[i] < 1e-9 * w[i]:
        return 'wrong solution returned', f'air flows through panel {i} of {L.K} at {leak[i]:.3g} m/s, wind {w[i]:.3g} m/s'
    loads = L.loads(g, k['rho'])
    for f, v in loads.items():
        e = R.relative(getattr(a.vlm, f), v)
        if not e < 1e-8:
            return 'loads do not belong to the circulation', f'{f} off by {e:.3g} of its largest value'
    v = L.wind + L.induced(L.ctr, g)
    e = R.relative(a.vlm.V_app_fs_at_ctrl_p, v)
    if not e < 1e-8:
        return 'loads do not belong to the circulation', f'V_app_fs_at_ctrl_p off by {e:.3g}'
    F = loads['force']
    p = np.sum(F * L.normal, axis=1) / np.asarray(a.vlm.areas)
    e = R.relative(a.vlm.pressure, p)
    if not e < 1e-8:
        return 'loads do not belong to the circulation', f'pressure off by {e:.3g}'
    e = R.relative(a.vlm.p_coeffs, p / (0.5 * k['rho'] * w ** 2))
    if not e < 1e-8:
        return 'loads do not belong to the circulation', f'pressure coefficients off by {e:.3g}'
    half = L.K // 2
    r = L.cp[:half] - np.array(c['csys'], dtype=float)
    M = np.cross(r, F[:half])
    size = np.sum(np.linalg.norm(F[:half], axis=1))
    arm = np.max(np.linalg.norm(r, axis=1))
    for name, got, want, s in (('total force', a.ifr.F_xyz_total, F[:half].sum(0), size),
                               ('total moment', a.ifr.M_total_above_water_in_xyz_csys, M.sum(0), size * arm)):
        if not np.max(np.abs(np.asarray(got) - want)) < 1e-8 * s:
            return 'loads do not belong to the circulation', f'{name} {got}, the panels add up to {want}'
    return None


def check_wing(w, o):
    P = R.wing_panels(w)
    L = R.Lattice(P, w['n_chordwise'], w['n_spanwise'], np.tile(np.array(w['V'], dtype=float), (len(P), 1)), orientation=1.0)
    g = L.solve()
    F = L.loads(g, w['rho'])['force']
    S = 2 * w['half_wing_span'] * w['chord_length']
    q = 0.5 * w['rho'] * np.dot(w['V'], w['V']) * S
    got = np.sum(o.force, axis=0)
    T = F.sum(0)
    s = np.linalg.norm(T)
    if not np.max(np.abs(got - T)) < 1e-7 * s:
        return 'wrong solution returned', f'free wing: total force {got}, the flow with no leak gives {T}'
    e = R.relative(np.sort(np.linalg.norm(o.force, axis=1)), np.sort(np.linalg.norm(F, axis=1)))
    if not e < 1e-7:
        return 'wrong solution returned', f'free wing: panel forces off by {e:.3g}'
    for name, v, want in (('Cxyz', o.Cxyz, T / q), ('CD', o.CD, T[0] / q), ('CL', o.CL, T[2] / q)):
        if not np.max(np.abs(np.asarray(v) - want)) < 1e-7 * s / q:
            return 'loads do not belong to the circulation', f'free wing: {name} {v}, forces give {want}'
    return None


def session(plan):
    out = []
    for s in plan['steps']:
        f = s['fault']
        numeric.arm(f)
        try:
            if 'case' in s:
                a = ops.analyse(ops.Inputs(s['case']))
                d = ops.digest(a)
            else:
                a = ops.fly(s['wing'])
                d = ops.digest_wing(a)
            r = ['returned', None, round_digest(d)]
        except (Exception, SystemExit) as e:
            r = ['raised', [type(e).__name__, str(e)[:200]], '']
            a = None
        fired = list(numeric.fired)
        numeric.arm(None)
        if a is not None:
            r[1] = check_sails(s['case'], a) if 'case' in s else check_wing(s['wing'], a)
        out.append((r, fired))
    return out


def execute(plan, ctx):
    stats = {}
    o = harness(solo(lambda: session(plan), ctx, 'session', seed=plan['seed']), 'session')
    if o['status'] != 'ok':
        return {'violation': viol('session failed', [o['status'], o.get('exc'), (o.get('tb') or '')[-400:]]), 'stats': stats, 'trace': h(o['status'])}
    v, states, tr = None, set(), []
    for i, (s, (r, fired)) in enumerate(zip(plan['steps'], o['value'])):
        for x in fired:
            add(stats, 'fault:' + x)
        add(stats, r[0])
        mode = s['fault']['mode'] if s['fault'] else 'healthy'
        size = [s['case']['rig']['sails_def'], s['case']['solver']['n_spanwise'], s['case']['solver']['n_chordwise']] if 'case' in s else \
            ['wing', s['wing']['n_spanwise'], s['wing']['n_chordwise']]
        states.add(h(mode, size, plan['lane'], r[0]))
        tr.append([r, fired])
        if v:
            continue
        if r[0] == 'returned' and r[1]:
            v = viol(r[1][0], f'step {i}, solver fault {mode} ({"fired" if fired else "not reached"}), lane {plan["lane"]}: {r[1][1]}')
        elif r[0] == 'raised' and not fired:
            v = viol('valid analysis failed', f'step {i}, no fault: {r[1]}')
    return {'violation': v, 'stats': stats, 'states': sorted(states), 'sim_ns': 0, 'trace': h(tr), 'nontrivial': h(plan['steps']) if any(
        x[1] for x in o['value']) else None,
        'sample': {'steps': [[s['fault'], 'wing' if 'wing' in s else s['case']['rig']['sails_def']] for s in plan['steps']], 'lane': plan['lane']}}
