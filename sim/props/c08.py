import os
import random

from .. import numeric  # noqa: F401  (before the code under test)
numeric.install()
from .. import cases, faults, program, world       # noqa: E402
from . import clirun                        # noqa: E402
from .common import add, fault_stats, h, viol       # noqa: E402


def warm():
    program.warm()


def damage(plan, s):
    """make the settings bad"""
    rng = random.Random(plan['pick'])
    kind, c = plan['bad'], plan['spec']['case']
    f = os.path.join(s.set, 'variables.py')
    src = s.source.decode()
    name = repr(s.name)

    def case(c2, **kw):
        s.write(cases.variables_py(c2, kw.pop('name', name), **kw).encode())

    def mod(**kw):
        import copy
        c2 = copy.deepcopy(c)
        for k, v in kw.items():
            a, b = k.split('__')
            c2[a][b] = v
        return c2
    if kind == 'nodir':
        s.argv = ['-dv', s.set + '-nowhere']
    elif kind == 'nofile':
        os.remove(f)
    elif kind == 'empty':
        s.write(b'')
    elif kind == 'syntax':
        s.write((src + '\nrig_args = {\n').encode())
    elif kind == 'nullbyte':
        s.write(src.encode() + b'\0')
    elif kind == 'encoding':
        s.write(b'# -*- coding: no-such-codec -*-\n' + src.encode())
    elif kind == 'raises':
        s.write((src + f'\nraise {rng.choice(["ValueError(1)", "RuntimeError()", "KeyError(3)", "OSError(5, 1)", "AssertionError()"])}\n').encode())
    elif kind == 'importerror':
        s.write((f'import {rng.choice(["no_such_module_xyz", "pySailingVLM.nothing"])}\n' + src).encode())
    elif kind == 'isdir':
        os.remove(f)
        os.mkdir(f)
    elif kind in ('no_output_args', 'no_rig'):
        v = 'output_args' if kind == 'no_output_args' else rng.choice(['rig_args', 'solver_args', 'conditions_args', 'csys_args', 'keel_args',
                                                                       'jib_sail_args', 'main_sail_args'])
        s.write((src + f'\ndel {v}\n').encode())
    elif kind == 'unknown_key':
        s.write((src + f"\n{rng.choice(['rig_args', 'solver_args', 'conditions_args', 'output_args', 'keel_args'])}['colour'] = 1\n").encode())
    elif kind == 'badtype':
        s.write((src + '\n' + rng.choice(["conditions_args['tws_ref'] = 'five'", "solver_args['n_spanwise'] = 2.5", "solver_args['n_chordwise'] = '2'", "rig_args = 3",
                                          "rig_args['rake_deg'] = None", "csys_args['reference_level_for_moments'] = None", "conditions_args['heel_deg'] = None",
                                          "conditions_args['rho'] = 'air'"]) + '\n').encode())
    elif kind == 'case':
        case(cases.invalid(rng, c))
    elif kind.startswith('refuse:'):
        what = kind.split(':')[1:]
        if what[0] == 'wind':
            case(mod(conditions__wind_profile=what[1], **{'conditions__' + what[2]: None}))
        else:
            sl = rng.choice(['jib', 'main'] if c['rig']['sails_def'] == 'jib_and_main' else [c['rig']['sails_def']])
            key = what[1] if what[0] != 'rig' else rng.choice({'jib': ['foretriangle_base', 'foretriangle_height', 'jib_luff'], 'main': ['main_sail_luff']}[sl])
            if what[0] == 'missing':
                case(mod(**{f'{sl}__{key}': None}))
            elif what[0] == 'shapes':
                v = c[sl][key]
                case(mod(**{f'{sl}__{key}': v + v[-1:] if rng.random() < 0.5 else v[:-1]}))
            else:
                case(mod(**{'rig__' + key: None}))
    elif kind == 'sails_def':
        case(mod(rig__sails_def=rng.choice(['none', 'mainsail', 'both', ''])))
    elif kind == 'zero_panels':
        case(mod(**{rng.choice(['solver__n_spanwise', 'solver__n_chordwise']): 0}))
    elif kind == 'negative_panels':
        case(mod(**{rng.choice(['solver__n_spanwise', 'solver__n_chordwise']): -2}))
    elif kind == 'emptyname':
        case(c, name="''")
    elif kind == 'name_none':
        case(c, name='None')
    elif kind == 'filename_dir':
        case(c, file_name='no/such/dir/res')
    elif kind == 'outfile':
        with open(os.path.join(s.root, 'occupied'), 'w') as g:
            g.write('x')
        case(c, name=repr(os.path.join(s.root, 'occupied')))
    elif kind == 'outfile_parent':
        with open(os.path.join(s.root, 'occupied'), 'w') as g:
            g.write('x')
        case(c, name=repr(os.path.join(s.root, 'occupied', 'sub')))
    elif kind == 'noarg':
        s.argv = ['-dv']
    elif kind == 'badarg':
        s.argv = ['-dv', s.set, '--fast']
    elif kind == 'dangling':
        os.remove(f)
        os.symlink('/nonexistent/variables.py', f)
    elif kind == 'chords_only':
        sl = 'jib' if 'jib' in c['rig']['sails_def'] else 'main'
        case(mod(**{f'{sl}__chords': c[sl]['chords'][:-1]}))
    # 'unreadable': a fault on the first open


def execute(plan, ctx):
    stats = {}
    spec = plan['spec']
    b = clirun.baseline(spec, ctx)
    if b.get('error'):
        return {'stats': stats, 'violation': viol(*b['error']), 'trace': h(b['error'])}
    s = clirun.Setup(ctx.sub('world'), spec)
    pol = world.Policy(seed=plan['seed'])
    if plan['xdev']:
        pol.mounts = [s.tmp]
    kind = plan['kind']
    what = kind
    if kind in ('fault', 'sweep'):
        pol.faults = faults.bind(plan['fault'], b['ops'], plan['where'])
        what = faults.describe(pol.faults, b['ops'])
    elif kind == 'input':
        damage(plan, s)
        what = f'settings: {plan["bad"]}'
        if plan['bad'] == 'unreadable':
            pol.faults = [{'from': 0, 'until': 6, 'kinds': ['open', 'read'], 'do': random.Random(plan['pick']).choice(['EACCES', 'EIO', 'EMFILE']), 'path': 'variables.py'}]
            if pol.faults[0]['do'] != 'EIO':
                pol.faults[0]['kinds'] = ['open']
    elif kind == 'solver':
        what = f'solver: {plan["num"]}'
    o = s.run(ctx, policy=pol, numfault=plan.get('num'), seed=plan['seed'])
    fault_stats(stats, o)
    if kind == 'solver' and any(x[0] == 'num' and x[1] for x in o['notes']):
        add(stats, 'fault:solver:' + plan['num']['mode'])
    if kind == 'input':
        add(stats, 'fault:settings:' + plan['bad'])
    add(stats, f'exit {o["code"]}')
    m = s.missing(b)
    v = None
    if o['status'] in ('hang', 'signal'):
        v = viol('the program hangs or dies', f'{what}: {o["status"]} {o["code"]}')
    elif o['code'] == 0:
        if kind == 'input':
            v = viol('exit status 0 for settings that are missing or refused', what)
        elif m:
            v = viol('exit status 0 without complete artefacts', f'{what}: {m}')
    elif kind == 'valid' or (kind in ('fault', 'sweep') and not o['fired']):
        v = viol('a run without a fault failed', f'{what}: status {o["code"]}, {o.get("exc")}, {clirun.console(ctx)}')
    hit = [q for q in o['ops'] if len(q) > 3][:1]
    states = [h(q[0], q[1].split('/')[0], os.path.basename(q[1])[:4], q[3], o['code'], (m or '').split(':')[0]) for q in hit] or [h(kind, plan.get('bad'), plan.get('num', {}).get('mode'), o['code'])]
    return {'stats': stats, 'violation': v, 'trace': h(o['ops'], o['code'], o.get('exc'), m), 'states': states, 'sim_ns': o['sim_ns'],
            'nontrivial': h({k: x for k, x in plan.items()}), 'sample': {'kind': kind, 'what': what, 'exit': o['code'], 'missing': m, 'lane': plan['lane']}}

