"""Workloads: sailing cases as plain JSON, made from a PRNG, and simpler versions of them."""
import copy


def r(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def sail_arrays(rng, n, jib):
    inner = sorted(rng.sample([0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9], n - 2))
    g = [0.0] + inner + [1.0]
    c0 = r(rng, 2.5, 4.5)
    c1 = r(rng, 0.4, 1.2) if jib else r(rng, 1.0, 2.4)
    m0, m1 = r(rng, 0.01, 0.08), r(rng, 0.01, 0.08)
    pd = rng.choice([0.3, 0.4, 0.5, 0.6])
    t0, t1 = r(rng, 4, 9), r(rng, 6, 15)
    return {
        'girths': g,
        'chords': [round(c0 + (c1 - c0) * x + r(rng, -0.05, 0.05), 3) for x in g],
        'centerline_twist_deg': [round(t0 + t1 * x + r(rng, -0.3, 0.3), 3) for x in g],
        'camber': [round(m0 + (m1 - m0) * x, 4) for x in g],
        'camber_distance_from_luff': [pd] * n,
    }


def case(rng, small=True, **fixed):
    sails = fixed.get('sails') or rng.choice(['jib', 'main', 'jib_and_main', 'jib_and_main'])
    interp = rng.choice(['spline', 'linear'])
    lo = 4 if interp == 'spline' else 2
    hi = 3 if small else 5
    c = {
        'solver': {'n_spanwise': fixed.get('ns') or rng.randint(1, hi), 'n_chordwise': fixed.get('nc') or rng.randint(1, hi),
                   'interpolation_type': interp},
        'conditions': {
            'leeway_deg': r(rng, 0, 8), 'heel_deg': r(rng, 0, 25), 'SOG_yacht': r(rng, 1, 7),
            'tws_ref': r(rng, 2, 10), 'alpha_true_wind_deg': r(rng, 30, 80),
            'reference_water_level_for_wind_profile': rng.choice([-0.0, -0.5, -1.0]),
            'wind_exp_coeff': r(rng, 0.08, 0.2, 4), 'wind_reference_measurment_height': rng.choice([10.0, 12.0, 22.0]),
            'rho': rng.choice([1.225, 1.184, 1.29]),
            'wind_profile': rng.choice(['exponential', 'exponential', 'flat', 'logarithmic']),
            'roughness': rng.choice([0.05, 0.0002, 0.03])},
        'rig': {
            'main_sail_luff': r(rng, 9, 14), 'jib_luff': r(rng, 7, 10), 'foretriangle_height': r(rng, 10.5, 12.5),
            'foretriangle_base': r(rng, 3.2, 4.4), 'sheer_above_waterline': r(rng, 0.8, 1.5),
            'boom_above_sheer': r(rng, 0.9, 1.6), 'rake_deg': r(rng, 88, 97), 'mast_LOA': r(rng, 0.05, 0.3),
            'sails_def': sails},
        'main': sail_arrays(rng, rng.randint(lo, 7), False),
        'jib': sail_arrays(rng, rng.randint(lo, 6), True),
        'csys': [rng.choice([0, 0, 0.5, -1.0]), 0, rng.choice([0, 0, 1.0])],
        'keel': [rng.choice([0, 0.3]), 0, rng.choice([-1.0, -0.7])],
    }
    return c


def variant(rng, c):
    """the same case with something changed: same mesh sizes, so that anything kept per size,
    per identity or per part of the input is tempted to be reused"""
    c = copy.deepcopy(c)
    what = rng.choice(['tws', 'awa', 'sog', 'rho', 'heel', 'leeway', 'profile', 'chord', 'twist', 'camber',
                       'luff', 'csys', 'keel', 'interp', 'exp', 'rake'])
    k = c['conditions']
    if what == 'tws':
        k['tws_ref'] = round(k['tws_ref'] * rng.choice([0.5, 1.3]), 3)
    elif what == 'awa':
        k['alpha_true_wind_deg'] = round(k['alpha_true_wind_deg'] + rng.choice([-7, 9]), 3)
    elif what == 'sog':
        k['SOG_yacht'] = round(k['SOG_yacht'] + 1.1, 3)
    elif what == 'rho':
        k['rho'] = round(k['rho'] * 1.1, 4)
    elif what == 'heel':
        k['heel_deg'] = round((k['heel_deg'] + 6) % 28, 3)
    elif what == 'leeway':
        k['leeway_deg'] = round((k['leeway_deg'] + 3) % 9, 3)
    elif what == 'profile':
        k['wind_profile'] = rng.choice([p for p in ('exponential', 'flat', 'logarithmic') if p != k['wind_profile']])
    elif what == 'exp':
        k['wind_exp_coeff'] = round(k['wind_exp_coeff'] + 0.05, 4)
    elif what in ('chord', 'twist', 'camber'):
        f = {'chord': 'chords', 'twist': 'centerline_twist_deg', 'camber': 'camber'}[what]
        for s in ('main', 'jib'):
            c[s][f] = [round(x * 1.1 + (0.01 if what == 'camber' else 0), 4) for x in c[s][f]]
    elif what == 'luff':
        c['rig']['main_sail_luff'] = round(c['rig']['main_sail_luff'] - 0.7, 3)
        c['rig']['jib_luff'] = round(c['rig']['jib_luff'] - 0.7, 3)
    elif what == 'rake':
        c['rig']['rake_deg'] = round(c['rig']['rake_deg'] - 2, 3)
    elif what == 'csys':
        c['csys'] = [c['csys'][0] + 0.5, 0, c['csys'][2] + 1.0]
    elif what == 'keel':
        c['keel'] = [c['keel'][0], 0.1, c['keel'][2] - 0.4]
    elif what == 'interp':
        if len(c['main']['girths']) > 3 and len(c['jib']['girths']) > 3:
            c['solver']['interpolation_type'] = 'linear' if c['solver']['interpolation_type'] == 'spline' else 'spline'
        else:
            k['tws_ref'] = round(k['tws_ref'] * 1.2, 3)
    return c


def omit(rng, c):
    """the same case with some of its values left to their documented defaults"""
    c = copy.deepcopy(c)
    can = [('conditions', k) for k in c['conditions']] + [('rig', k) for k in ('mast_LOA', 'rake_deg', 'sheer_above_waterline', 'boom_above_sheer')]
    can += [('main', 'centerline_twist_deg'), ('jib', 'centerline_twist_deg')]
    if c['solver']['interpolation_type'] == 'spline':
        can += [('solver', 'interpolation_type'), ('main', None), ('jib', None)]
    for part, k in rng.sample(can, rng.choice([1, 1, 2, 4, len(can)])):
        if k is None:
            c[part] = {}
        else:
            c[part].pop(k, None)
    for k in ('csys', 'keel'):
        if rng.random() < 0.3:
            c[k] = None
    return c


def invalid(rng, c):
    """a case the program has to refuse"""
    c = copy.deepcopy(c)
    s = {'jib': 'jib', 'main': 'main', 'jib_and_main': rng.choice(['jib', 'main'])}[c['rig']['sails_def']]
    kind = rng.choice(['shapes', 'missing', 'nan', 'interp', 'zero_chord', 'nan_wind'])
    if kind == 'shapes':
        c[s]['camber'] = c[s]['camber'][:-1]
    elif kind == 'missing':
        c[s]['girths'] = None
    elif kind == 'nan':
        c[s]['chords'] = [float('nan')] * len(c[s]['chords'])
    elif kind == 'interp':
        c['solver']['interpolation_type'] = 'cubic-ish'
    elif kind == 'zero_chord':
        c[s]['chords'] = [0.0] * len(c[s]['chords'])
    elif kind == 'nan_wind':
        c['conditions']['tws_ref'] = float('nan')
    c['invalid'] = kind
    return c


def free_wing(rng):
    return {'chord_length': r(rng, 0.5, 2), 'half_wing_span': r(rng, 2, 8), 'AoA_deg': r(rng, 1, 12),
            'n_spanwise': rng.randint(2, 5), 'n_chordwise': rng.randint(1, 3), 'V': [r(rng, 1, 20), 0.0, 0.0],
            'rho': rng.choice([1.225, 1.1])}


def simpler(c):
    """smaller versions of a case, for minimisation"""
    if c['solver']['n_spanwise'] > 1:
        d = copy.deepcopy(c)
        d['solver']['n_spanwise'] = 1
        yield d
    if c['solver']['n_chordwise'] > 1:
        d = copy.deepcopy(c)
        d['solver']['n_chordwise'] = 1
        yield d
    if c['rig']['sails_def'] == 'jib_and_main':
        for s in ('main', 'jib'):
            d = copy.deepcopy(c)
            d['rig']['sails_def'] = s
            yield d
    if c['conditions']['wind_profile'] != 'flat':
        d = copy.deepcopy(c)
        d['conditions']['wind_profile'] = 'flat'
        yield d


VARIABLES = '''\
import os
import numpy as np
import time
{extra}
output_args = {{
    'case_name': {case_name},
    'case_dir': {case_dir},
    'name': {name},
    'file_name': {file_name!r},
}}
solver_args = {solver!r}
conditions_args = {conditions!r}
rig_args = {rig!r}
main_sail_args = {{k: np.array(v) for k, v in {main!r}.items()}}
jib_sail_args = {{k: np.array(v) for k, v in {jib!r}.items()}}
csys_args = {{'reference_level_for_moments': np.array({csys!r})}}
keel_args = {{'center_of_lateral_resistance_upright': np.array({keel!r})}}
'''


def variables_py(c, name, file_name='res', case_name="os.path.basename(__file__)", case_dir="os.path.abspath('')", extra=''):
    s = VARIABLES
    for k in ('csys', 'keel'):
        if c[k] is None:
            s = ''.join(f'{k}_args = {{{{}}}}\n' if x.startswith(k + '_args') else x for x in s.splitlines(True))
    return s.format(name=name, file_name=file_name, case_name=case_name, case_dir=case_dir, extra=extra,
                            solver=c['solver'], conditions=c['conditions'], rig=c['rig'], main=c['main'], jib=c['jib'],
                            csys=c['csys'], keel=c['keel'])
