import copy
import gc
import os
import pickle
import random

import numpy as np

from .. import cases, ops, threads
from .common import add, h, harness, round_digest, solo, viol

SCRIBBLE = ['gamma_magnitude', 'force', 'pressure', 'p_coeffs', 'lift', 'drag', 'V_app_fs_at_cp', 'V_induced_at_cp', 'coeff', 'RHS',
            'v_ind_coeff', 'normals', 'areas', 'rings', 'cp', 'ctr_p', 'span_vectors']
ARRAYS = ['chords', 'centerline_twist_deg', 'camber', 'girths']


def edit_case(c, what, by):
    c = copy.deepcopy(c)
    if what in ('chords', 'centerline_twist_deg', 'camber'):
        for s in ('main', 'jib'):
            c[s][what] = [round(x * by, 5) for x in c[s][what]]
    elif what == 'girths':
        for s in ('main', 'jib'):
            c[s]['girths'] = [round(x ** (1 + (by - 1) / 4), 5) for x in c[s]['girths']]
    elif what in ('main_sail_luff', 'jib_luff'):
        c['rig'][what] = round(c['rig'][what] * (1 + (by - 1) / 4), 4)
    elif what == 'csys':
        c['csys'] = [c['csys'][0] + by, c['csys'][1], c['csys'][2] + by]
    elif what == 'keel':
        c['keel'] = [c['keel'][0], c['keel'][1], c['keel'][2] * by]
    elif what == 'wind_profile':
        p = ['exponential', 'flat', 'logarithmic']
        c['conditions'][what] = p[(p.index(c['conditions'][what]) + 1) % 3]
    else:
        c['conditions'][what] = round(c['conditions'][what] * by, 4)
    return c


def apply_edit(inp, new):
    """bring the user's objects to the content of the case, in place"""
    for s in ('main', 'jib'):
        o = getattr(inp, s)
        for f in ARRAYS:
            getattr(o, f)[:] = new[s][f]
    for k, v in new['conditions'].items():
        if getattr(inp.conditions, k) != v:
            setattr(inp.conditions, k, v)
    for k, v in new['rig'].items():
        if getattr(inp.rig, k) != v:
            setattr(inp.rig, k, v)
    if inp.csys.reference_level_for_moments.tolist() != new['csys']:
        inp.csys.reference_level_for_moments = np.array(new['csys'])
    if inp.keel.center_of_lateral_resistance_upright.tolist() != new['keel']:
        inp.keel.center_of_lateral_resistance_upright = np.array(new['keel'])
    inp.case = new


def defaults():
    from pySailingVLM.runner import container as k
    out = {}
    for cls in (k.Solver, k.Conditions, k.Rig, k.MainSail, k.JibSail, k.Csys, k.Keel):
        o = cls()
        for f, v in vars(o).items():
            out[f'{cls.__name__}.{f}'] = np.array(v)
    return out


def scribble_defaults():
    from pySailingVLM.runner import container as k
    for cls in (k.MainSail, k.JibSail, k.Csys, k.Keel):
        for v in vars(cls()).values():
            if isinstance(v, np.ndarray):
                if v.dtype.kind == 'f':
                    v += 1.5
                else:
                    v += 3


class Slot:
    def __init__(self, inp):
        self.inp, self.a, self.fresh = inp, None, False


def series(op):
    """many analyses in a row, each freed before the next, so that its memory and the identities of its objects come again; some are looked at"""
    rng = random.Random(op['pick'])
    c = op['case']
    out = []
    for j in range(op['n']):
        a = ops.analyse(ops.Inputs(c))
        if j >= op['n'] - 2 or rng.random() < 0.3:
            out.append((c, pickle.dumps(ops.digest(a))))
        del a
        if op['collect']:
            gc.collect()
        c = cases.variant(rng, c)
    return out


def session(plan, ctx, d):
    """runs in a simulated process; returns a list of (what, digest or error) and the first broken rule"""
    slots, log, kept, broken = [], [], [], []

    def rule(i, what, msg):
        if not broken:
            broken.append([i, what, msg])

    def go(i, s, parts=None):
        before = ops.snapshot(s.inp)
        st = ops.process_state()
        a = None
        try:
            w = ops.Watch()
            a = ops.analyse(s.inp, parts, w)
            if w.changed:
                rule(i, 'argument modified by a stage of the analysis', w.changed[0])
            g = ops.digest(a)
            r = ('analyse', copy.deepcopy(s.inp.case), g)
            kept.append([i, a, g, True])
            s.a, s.fresh = a, True
        except SystemExit as e:
            r = ('error', copy.deepcopy(s.inp.case), ['SystemExit', str(e)])
        except Exception as e:
            r = ('error', copy.deepcopy(s.inp.case), [type(e).__name__, str(e)[:200]])
        e = ops.same_snapshot(before, ops.snapshot(s.inp))
        if e:
            rule(i, 'input modified by the analysis', e)
        t = ops.process_state()
        bad = [k for k in st if st[k] != t[k]]
        if bad:
            rule(i, 'process-wide state changed by the analysis', bad)
        return r

    for i, op in enumerate(plan['ops']):
        k = op['op']
        s = slots[op['slot']] if 'slot' in op and op['slot'] < len(slots) else None
        if 'slot' in op and s is None:
            log.append(('skip',))
            if k == 'rewind':
                slots.append(None)
            continue
        if k == 'new':
            s = Slot(ops.Inputs(op['case']))
            slots.append(s)
            log.append(go(i, s))
        elif k == 'again':
            parts = {}
            if s.a is not None and s.fresh and op['reuse']:
                names = ['csys', 'wind', 'sail'] if op['reuse'] == 'all' else (['csys', 'sail', 'sail_set'] if op['reuse'] == 'sail_set'
                                                                          else ['csys', 'sail'] if op['reuse'] == 'sail'
                                                                          else ['csys', 'wind', 'sail', 'sail_set', 'vlm'] if op['reuse'] == 'vlm' else [op['reuse']])
                parts = {n: getattr(s.a, n) for n in names}
            log.append(go(i, s, parts))
        elif k == 'rewind':
            t = Slot(copy.copy(s.inp))
            t.inp.case = copy.deepcopy(s.inp.case)
            if 'csys' in op:        # the loads of the same flow about another point
                t.inp.case['csys'] = op['csys']
                t.inp.csys = type(s.inp.csys)(np.array(op['csys']))
                slots.append(t)
                log.append(go(i, t, {n: getattr(s.a, n) for n in ('wind', 'sail', 'sail_set', 'vlm')} if s.a is not None and s.fresh else None))
                continue
            t.inp.case['conditions'].update(op['set'])
            t.inp.conditions = type(s.inp.conditions)(**t.inp.case['conditions'])
            slots.append(t)
            parts = {n: getattr(s.a, n) for n in ('csys', 'sail', 'sail_set')} if s.a is not None and s.fresh else None
            log.append(go(i, t, parts))
        elif k == 'edit':
            new = edit_case(s.inp.case, op['what'], op['by'])
            shared = [t for t in slots if t and t is not s and (t.inp.main is s.inp.main)]
            apply_edit(s.inp, new)
            s.fresh = False
            for t in shared:        # they share the sail arrays and the rig
                t.fresh = False
                c = copy.deepcopy(t.inp.case)
                for q in ('main', 'jib', 'rig', 'solver'):
                    c[q] = copy.deepcopy(new[q])
                if t.inp.conditions is s.inp.conditions:
                    c['conditions'] = copy.deepcopy(new['conditions'])
                if t.inp.csys is s.inp.csys:
                    c['csys'] = list(new['csys'])
                if t.inp.keel is s.inp.keel:
                    c['keel'] = list(new['keel'])
                t.inp.case = c
            log.append(go(i, s))
        elif k == 'refused':
            try:
                inp = ops.Inputs(op['case'])
                ops.analyse(inp)
                log.append(('refused', op['case'], 'accepted'))
            except SystemExit as e:
                log.append(('refused', op['case'], ['SystemExit', str(e.code)]))
            except Exception as e:
                log.append(('refused', op['case'], [type(e).__name__]))
        elif k == 'interrupted':
            before = ops.snapshot(s.inp)
            with threads.Interrupter(None) as it:
                try:
                    ops.analyse(s.inp)
                except (Exception, SystemExit):
                    pass
            n = it.n
            with threads.Interrupter(int(op['frac'] * n), op['with']) as it:
                try:
                    ops.analyse(s.inp)
                except (Exception, SystemExit, KeyboardInterrupt):
                    pass
            e = ops.same_snapshot(before, ops.snapshot(s.inp))
            if e:
                rule(i, 'input modified by an interrupted analysis', e)
            log.append(('interrupted', it.fired))
        elif k == 'fly':
            V = np.array(op['wing']['V'])
            w = ops.Aircraft(**{**op['wing'], 'V': V})
            if V.tolist() != op['wing']['V']:
                rule(i, 'input modified by the analysis', 'free wing velocity')
            log.append(('fly', op['wing'], ops.digest_wing(w)))
        elif k == 'series':
            log.append(('series', series(op)))
        elif k == 'save':
            if s.a is None:
                log.append(('skip',))
                continue
            st = ops.process_state()
            ops.save(s.a, os.path.join(d, f'out{i}'), 'res')
            t = ops.process_state()
            bad = [q for q in st if st[q] != t[q]]
            if bad:
                rule(i, 'process-wide state changed by the save', bad)
            log.append(('save',))
        elif k == 'scribble':
            if s.a is not None:
                for f in SCRIBBLE:
                    v = getattr(s.a.vlm, f, None)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v += 3.25
                for f in ops.IFR_FIELDS:
                    v = getattr(s.a.ifr, f, None)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v -= 1.5
                for x in s.a.coeffs:
                    for y in x:
                        y += 0.5
                for q in kept:
                    if q[1].vlm is s.a.vlm:
                        q[3] = False
                flow = s.a.vlm
                for t in slots:         # the same flow may be in several result tables
                    if t and t.a is not None and t.a.vlm is flow:
                        t.fresh = False
                        t.a = None
            log.append(('scribble',))
        elif k == 'defaults':
            g = defaults()
            log.append(('defaults', g))
            scribble_defaults()
        for j, a, g, alive in kept:
            if alive:
                e = ops.differ(ops.digest(a), g, 0)
                if e:
                    rule(i, 'result returned earlier changed', f'result of step {j}: {e} (now / when returned)')
    return log, broken


def reference(what, arg):
    if what in ('analyse', 'error'):
        try:
            return 'analyse', ops.digest(ops.analyse(ops.Inputs(arg)))
        except SystemExit as e:
            return 'error', ['SystemExit', str(e)]
        except Exception as e:
            return 'error', [type(e).__name__, str(e)[:200]]
    if what == 'fly':
        return 'fly', ops.digest_wing(ops.fly(arg))
    if what == 'defaults':
        return 'defaults', defaults()
    if what == 'refused':
        try:
            ops.analyse(ops.Inputs(arg))
            return 'refused', 'accepted'
        except SystemExit as e:
            return 'refused', ['SystemExit', str(e.code)]
        except Exception as e:
            return 'refused', [type(e).__name__]


def execute(plan, ctx):
    stats = {}
    d = ctx.sub('session')
    o = harness(solo(lambda: session(plan, ctx, d), ctx, 'session', seed=plan['seed']), 'session')
    out = {'stats': stats, 'sim_ns': 0, 'sample': {'ops': [p['op'] for p in plan['ops']]}}
    if o['status'] != 'ok':
        return {**out, 'violation': viol('session failed', [o['status'], o.get('exc'), o.get('tb', '')[-400:]]), 'trace': h(o['status'])}
    log, broken = o['value']
    v = None
    tr = []
    states, prev = set(), ''
    cache = {}
    for i, (op, r) in enumerate(zip(plan['ops'], log)):
        add(stats, 'op:' + op['op'])
        if r[0] == 'interrupted':
            add(stats, 'fault:interruption')
        tr.append((op['op'], r[0], round_digest(r[-1]) if isinstance(r[-1], dict) else str(r[1:])[:200] if r[0] != 'series' else [round_digest(pickle.loads(g)) for _, g in r[1]]))
        states.add(h(prev, op['op'], r[1]['rig']['sails_def'] if r[0] == 'analyse' else '', r[1]['solver'] if r[0] == 'analyse' else ''))
        prev = op['op']
        if v or r[0] in ('skip', 'interrupted', 'save', 'scribble'):
            continue
        if r[0] == 'series':
            add(stats, 'analyses in series', op['n'])
            for j, (c, g) in enumerate(r[1]):
                ro = harness(solo(lambda: reference('analyse', c), ctx, f'ref{i}.{j}', seed=plan['seed'] + 1), 'reference')
                e = ops.differ(pickle.loads(g), ro['value'][1]) if ro['status'] == 'ok' and ro['value'][0] == 'analyse' else ro.get('exc') or ro.get('value')
                if e:
                    v = viol('result depends on what ran before', f'step {i} (series): {e} (in the session / in a fresh process)')
                    break
            continue
        key = h(r[0] if r[0] != 'error' else 'analyse', r[1] if r[0] != 'defaults' else '')
        if key not in cache:
            ro = harness(solo(lambda: reference(r[0], r[1]), ctx, f'ref{i}', seed=plan['seed'] + 1), 'reference')
            if ro['status'] != 'ok':
                v = viol('operation failed in a fresh process', [op['op'], ro['status'], ro.get('exc')])
                continue
            cache[key] = ro['value']
        what, ref = cache[key]
        if what == 'error' and r[0] == 'error':
            if op['op'] == 'new':
                v = viol('valid analysis failed', ref)
            continue
        if what != r[0]:
            v = viol('outcome depends on what ran before', f'step {i} ({op["op"]}): {r[0]} {r[2] if r[0] == "error" else ""}, in a fresh process: {what} {ref if what == "error" else ""}')
        elif what == 'refused':
            if r[2] != ref or ref == 'accepted':
                v = viol('refusal depends on what ran before', f'step {i}: {r[2]}, in a fresh process: {ref} ({op["case"].get("invalid")})')
        else:
            e = ops.differ(r[-1], ref)
            if e:
                v = viol('result depends on what ran before', f'step {i} ({op["op"]}): {e} (in the session / in a fresh process)')
    if broken and not v:
        i, what, msg = broken[0]
        v = viol(what, f'step {i} ({plan["ops"][i]["op"]}): {msg}')
    out.update(violation=v, trace=h(tr), states=sorted(states), nontrivial=h([o_ for o_ in plan['ops']]))
    return out
