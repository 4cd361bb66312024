"""The code under test, driven through its public API, and digests of what it returned."""
import copy
import os

import numpy as np
import pandas as pd

from pySailingVLM.inlet.winds import ExpWindProfile  # noqa: F401  (import order as in the CLI)
from pySailingVLM.results.inviscid_flow import InviscidFlowResults
from pySailingVLM.results.save_utils import save_results_to_file
from pySailingVLM.rotations.csys_transformations import CSYS_transformations
from pySailingVLM.runner.aircraft import Aircraft
from pySailingVLM.runner.container import Conditions, Csys, JibSail, Keel, MainSail, Rig, Solver
from pySailingVLM.runner.sail import Sail, Wind
from pySailingVLM.solver.coefs import get_data_for_coeff_plot
from pySailingVLM.solver.vlm import Vlm
from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry

VLM_FIELDS = ['gamma_magnitude', 'force', 'pressure', 'p_coeffs', 'lift', 'drag', 'V_app_fs_at_cp', 'V_induced_at_cp',
              'V_app_fs_at_ctrl_p', 'cp', 'ctr_p', 'normals', 'areas', 'span_vectors', 'rings', 'RHS', 'coeff',
              'leading_mid_points', 'trailing_mid_points']
IFR_FIELDS = ['F_xyz_total', 'M_total_above_water_in_xyz_csys', 'F_centerline_total', 'M_total_above_water_in_centerline_csys',
              'above_water_centre_of_effort_estimate_xyz', 'M_xyz', 'F_centerline', 'M_centerline_csys',
              'M_xyz_underwater_estimate_total', 'M_centerline_csys_underwater_estimate_total']


def arr(x):
    return None if x is None else np.array(x)


class Inputs:
    """the objects a user makes for one case"""

    def __init__(self, c):
        self.case = c
        self.solver = Solver(**c['solver'])
        self.conditions = Conditions(**c['conditions'])
        self.rig = Rig(**c['rig'])
        self.main = MainSail(**{k: arr(v) for k, v in c['main'].items()})
        self.jib = JibSail(**{k: arr(v) for k, v in c['jib'].items()})
        self.csys = Csys() if c['csys'] is None else Csys(np.array(c['csys']))
        self.keel = Keel() if c['keel'] is None else Keel(np.array(c['keel']))

    def effective(self):
        """the case with every value, also those left to their defaults"""
        return {**{k: dict(vars(getattr(self, k))) for k in ('solver', 'conditions', 'rig', 'main', 'jib')},
                'csys': np.array(self.csys.reference_level_for_moments).tolist(), 'keel': np.array(self.keel.center_of_lateral_resistance_upright).tolist()}

    def objects(self):
        return {'solver': self.solver, 'conditions': self.conditions, 'rig': self.rig, 'main': self.main, 'jib': self.jib,
                'csys': self.csys, 'keel': self.keel}


def snapshot(inp):
    return {k: {f: copy.deepcopy(v) for f, v in vars(o).items()} for k, o in inp.objects().items()}


def same_snapshot(a, b):
    for k in a:
        if a[k].keys() != b[k].keys():
            return f'{k}: fields {sorted(set(a[k]) ^ set(b[k]))}'
        for f in a[k]:
            x, y = a[k][f], b[k][f]
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype == y.dtype and x.shape == y.shape
                        and np.array_equal(x, y, equal_nan=True)):
                    return f'{k}.{f}'
            elif not (x == y or (x != x and y != y)):
                return f'{k}.{f}'
    return None


class Analysis:
    """everything one analysis returned"""


def arrays(o, path='', depth=0, seen=None, out=None):
    """path -> array, for every array reachable from an object of the code under test"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'fiub':
            out[path] = o
        return out
    if depth > 6 or id(o) in seen:
        return out
    seen.add(id(o))
    if isinstance(o, dict):
        items = [(str(k), v) for k, v in o.items()]
    elif isinstance(o, (list, tuple)):
        items = [(str(k), v) for k, v in enumerate(o)] if len(o) < 200 else []
    elif type(o).__module__.startswith('pySailingVLM') and hasattr(o, '__dict__'):
        items = list(vars(o).items())
    else:
        return out
    for k, v in items:
        arrays(v, f'{path}.{k}' if path else k, depth + 1, seen, out)
    return out


class Watch:
    """what a stage of an analysis is given, before and after"""

    def __init__(self):
        self.changed = []

    def __call__(self, stage, fn, *given):
        before = {k: v.copy() for k, v in arrays(list(given)).items()}
        r = fn(*given)
        after = arrays(list(given))
        for k, v in before.items():
            w = after.get(k)
            if w is not None and not (w.shape == v.shape and np.array_equal(w, v, equal_nan=v.dtype.kind == 'f')):
                self.changed.append(f'{stage} changed its argument {k}')
        return r


def analyse(inp, parts=None, watch=None):
    a = Analysis()
    p = parts or {}
    w = watch or (lambda stage, fn, *given: fn(*given))
    a.inp = inp
    a.csys = p.get('csys') or w('CSYS_transformations', lambda h, l, v: CSYS_transformations(h, l, v_from_original_xyz_2_reference_csys_xyz=v),
                                inp.conditions.heel_deg, inp.conditions.leeway_deg, inp.csys.reference_level_for_moments)
    a.wind = p.get('wind') or w('Wind', Wind, inp.conditions)
    a.sail = p.get('sail') or w('Sail', Sail, inp.solver, inp.rig, inp.main, inp.jib, a.csys)
    a.sail_set = p.get('sail_set') or w('sail_set', lambda s, *_: s.sail_set, a.sail, inp.main, inp.jib, a.csys)
    a.hull = w('HullGeometry', HullGeometry, inp.rig.sheer_above_waterline, inp.rig.foretriangle_base, a.csys,
               inp.keel.center_of_lateral_resistance_upright)
    a.vlm = p.get('vlm') or w('Vlm', Vlm, a.sail_set.panels, inp.solver.n_chordwise, inp.solver.n_spanwise, inp.conditions.rho, a.wind.profile,
                              a.sail_set.trailing_edge_info, a.sail_set.leading_edge_info)
    a.ifr = w('InviscidFlowResults', InviscidFlowResults, a.sail_set, a.csys, a.vlm)
    w('estimate_heeling_moment_from_keel', lambda c, r: r.estimate_heeling_moment_from_keel(c), a.hull.center_of_lateral_resistance, a.ifr)
    a.coeffs = w('get_data_for_coeff_plot', get_data_for_coeff_plot, a.vlm, inp.solver)
    return a


def frames(df):
    out = {}
    for c in df.columns:
        v = df[c].to_numpy()
        out[str(c)] = v.astype(float) if v.dtype.kind in 'fiub' else np.array([str(x) for x in v])
    return out


def digest(a):
    """name -> array, everything numeric the analysis handed back"""
    d = {}
    for f in VLM_FIELDS:
        v = getattr(a.vlm, f, None)
        if v is not None:
            d['vlm.' + f] = np.array(v)
    ic = a.vlm.inlet_conditions
    for f in ('V_app_infs', 'tws_at_cp', 'AWA_infs_deg', 'V_app_infs_length'):
        v = getattr(ic, f, None)
        if v is not None:
            d['inlet.' + f] = np.array(v)
    for f in IFR_FIELDS:
        v = getattr(a.ifr, f, None)
        if v is not None:
            d['ifr.' + f] = np.array(v)
    for k, v in frames(a.ifr.to_df_full()).items():
        d['full.' + k] = v
    q = a.ifr.to_df_integral()
    for k, v in zip(q['Quantity'], q['Value']):
        d['int.' + k] = np.array(float(v))
    for k, v in frames(ic.to_df_full(a.csys)).items():
        d['icfull.' + k] = v
    q = ic.winds.to_df_integral(a.csys)
    for k, v in zip(q['Quantity'], q['Value']):
        d['icint.' + str(k)] = np.array(float(v))
    d['set.panels'] = np.array(a.sail_set.panels)
    d['set.te'] = np.array(a.sail_set.trailing_edge_info)
    d['set.le'] = np.array(a.sail_set.leading_edge_info)
    d['set.zero_mesh'] = np.array(a.sail_set.zero_mesh)
    d['set.names'] = np.array([s.name for s in a.sail_set.sails])
    d['hull.clr'] = np.array(a.hull.center_of_lateral_resistance)
    for f in ('deck_centerline', 'deck_port_line', 'deck_starboard_line'):
        v = getattr(a.hull, f, None)
        if v is not None:
            d['hull.' + f] = np.array(v)
    for n, v in zip(('mean_z', 'cl', 'cd'), a.coeffs):
        d['coeff.' + n] = np.array([np.array(x, dtype=float) for x in v])
    return d


def fly(p):
    kw = dict(p)
    kw['V'] = np.array(p['V'])
    return Aircraft(**kw)


def digest_wing(w):
    return {'wing.' + f: np.array(getattr(w, f)) for f in ('CL', 'CD', 'Cxyz', 'AR', 'CL_theoretical', 'CD_theoretical', 'Cp',
                                                           'force', 'pressure')}


def save(a, out_dir, name):
    return save_results_to_file(a.vlm, a.csys, a.ifr, a.sail_set, out_dir, name)


def differ(x, y, rtol=1e-9, atol=1e-13):
    """first difference between two digests, or None"""
    for k in sorted(set(x) | set(y)):
        if k not in x or k not in y:
            return f'{k} missing'
        a, b = x[k], y[k]
        if a.shape != b.shape:
            return f'{k}: shape {a.shape} / {b.shape}'
        if a.dtype.kind in 'USO' or b.dtype.kind in 'USO':
            if not np.array_equal(a, b):
                return f'{k}: {a.tolist()} / {b.tolist()}'
            continue
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return f'{k}: NaN pattern'
        ok = ~na
        if not ok.any():
            continue
        scale = max(np.max(np.abs(a[ok])), np.max(np.abs(b[ok])))
        if not np.isfinite(scale):
            if not np.array_equal(a[ok], b[ok]):
                return f'{k}: {a.ravel()[:4]} / {b.ravel()[:4]}'
            continue
        e = np.max(np.abs(a[ok] - b[ok]))
        if e > rtol * scale + atol:
            i = int(np.argmax(np.where(ok, np.abs(a - b), 0)))
            return f'{k}[{i}]: {a.ravel()[i]!r} / {b.ravel()[i]!r}'
    return None


def process_state():
    """what an analysis has no business changing"""
    import random
    import locale
    import warnings
    return {
        'cwd': os.getcwd(), 'environ': dict(os.environ), 'np.err': np.geterr(),
        'np.random': repr(np.random.get_state()), 'random': repr(random.getstate()),
        'umask': _umask(), 'locale': locale.setlocale(locale.LC_ALL), 'printoptions': repr(sorted(np.get_printoptions().items(), key=str)),
        'recursion': __import__('sys').getrecursionlimit(), 'pd.options': _pd_options(),
        'sys.path': list(__import__('sys').path),
    }


def _pd_options():
    return {k: repr(pd.get_option(k)) for k in ('display.max_rows', 'display.precision', 'mode.copy_on_write', 'display.float_format',
                                                'io.excel.xlsx.writer')}


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m
