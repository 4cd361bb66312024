"""Reading a results workbook without the code under test or its libraries, and what it should hold."""
import io
import re
import xml.etree.ElementTree as ET
import zipfile

import numpy as np

M = '{http://schemas.openxmlformats.org/spreadsheetml/2006/main}'
R = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'


class Broken(Exception):
    pass


def parse(data):
    """bytes -> {sheet name: list of rows}; Broken if it is not a complete workbook"""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        bad = z.testzip()
        if bad:
            raise Broken(f'damaged member {bad}')
        names = set(z.namelist())
        if '[Content_Types].xml' not in names:
            raise Broken('no [Content_Types].xml')
        ct = ET.fromstring(z.read('[Content_Types].xml'))
        for o in ct:
            if o.tag.endswith('Override') and o.get('PartName').lstrip('/') not in names:
                raise Broken('missing part ' + o.get('PartName'))
        for n in names:
            if n.endswith('.xml') or n.endswith('.rels'):
                ET.fromstring(z.read(n))
        rels = {r.get('Id'): r.get('Target') for r in ET.fromstring(z.read('xl/_rels/workbook.xml.rels'))}
        shared = []
        if 'xl/sharedStrings.xml' in names:
            for si in ET.fromstring(z.read('xl/sharedStrings.xml')):
                shared.append(''.join(t.text or '' for t in si.iter(M + 't')))
        out = {}
        for s in ET.fromstring(z.read('xl/workbook.xml')).find(M + 'sheets'):
            t = rels[s.get(R + 'id')]
            x = ET.fromstring(z.read('xl/' + t.lstrip('/') if not t.startswith('/') else t[1:]))
            rows = []
            for row in x.find(M + 'sheetData'):
                cells = {}
                for c in row:
                    col = 0
                    for ch in re.match('[A-Z]+', c.get('r')).group():
                        col = col * 26 + ord(ch) - 64
                    v = c.find(M + 'v')
                    typ = c.get('t')
                    if typ == 's':
                        val = shared[int(v.text)]
                    elif typ == 'inlineStr':
                        val = ''.join(t.text or '' for t in c.iter(M + 't'))
                    elif v is None:
                        val = None
                    elif typ in ('str', 'e'):
                        val = v.text
                    else:
                        val = float(v.text)
                    cells[col - 1] = val
                r = int(row.get('r'))
                while len(rows) < r - 1:
                    rows.append([])
                rows.append([cells.get(i) for i in range(max(cells, default=-1) + 1)])
            out[s.get('name')] = rows
        return out
    except Broken:
        raise
    except Exception as e:
        raise Broken(f'{type(e).__name__}: {e}'[:200])


def rot(axis, deg):
    a = np.deg2rad(deg)
    c, s = np.cos(a), np.sin(a)
    return np.array({'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def sail_names(c):
    return {'jib': ['jib'], 'main': ['main_sail'], 'jib_and_main': ['jib', 'main_sail']}[c['rig']['sails_def']]


def expected(c, a):
    """what the workbook of this analysis has to hold: (components, integrals, inlet) as dicts"""
    k, v = c['conditions'], a.vlm
    heel, lee = k['heel_deg'], k['leeway_deg']
    K = len(v.gamma_magnitude)
    half = K // 2
    names = sail_names(c)
    n = half // len(names)
    g = {}

    def vec(key, x):
        for i, ax in enumerate('xyz'):
            g[f'{key}.{ax}'] = np.asarray(x)[:half, i]
    cp = np.asarray(v.cp)
    W = np.asarray(v.inlet_conditions.V_app_infs)
    V = np.asarray(v.V_app_fs_at_cp)
    F = np.asarray(v.force)
    ref = np.array(c['csys'], dtype=float)
    r = cp[:half] - ref
    Mo = np.cross(r, F[:half])
    Rz = rot('z', lee)
    g['Circulation_magnitude'] = np.asarray(v.gamma_magnitude)[:half]
    vec('V_induced_COG', v.V_induced_at_cp)
    g['V_induced_length'] = np.linalg.norm(v.V_induced_at_cp, axis=1)[:half]
    vec('V_app_fs_COG', V)
    g['V_app_fs_length'] = np.linalg.norm(V, axis=1)[:half]
    awa = np.rad2deg(np.arctan(V[:half, 1] / V[:half, 0]))
    g['AWA_fs_COG_deg'] = awa
    g['AWA_fs_COW_deg'] = awa - lee
    g['Pressure'] = np.asarray(v.pressure)[:half]
    vec('F_sails_COG', F)
    vec('M_sails_COG', Mo)
    vec('F_sails_COW', F[:half] @ Rz.T)
    vec('cp_points_COG', cp)
    T = np.asarray(v.inlet_conditions.tws_at_cp)
    vec('TWS_COG', T)
    g['TWS_length'] = np.linalg.norm(T, axis=1)[:half]
    vec('V_app_infs_COG', W)
    g['V_app_infs_length'] = np.linalg.norm(W, axis=1)[:half]
    g['AWA_infs_COG_deg'] = np.rad2deg(np.arctan2(W[:half, 1], W[:half, 0]))
    g['AWA_infs_COW_deg'] = g['AWA_infs_COG_deg'] - lee
    z, girth = [], []
    sheer, boom, rake = c['rig']['sheer_above_waterline'], c['rig']['boom_above_sheer'], np.deg2rad(c['rig']['rake_deg'])
    for i, nm in enumerate(names):
        up = (cp[i * n:(i + 1) * n] @ rot('z', -lee).T @ rot('x', heel).T)[:, 2]
        tack = (sheer + (boom if nm == 'main_sail' else 0)) * np.sin(rake)
        z.append(up)
        girth.append((up - tack) / (up.max() - tack))
    g['cp_points_upright.z'] = np.concatenate(z)
    g['girths'] = np.concatenate(girth)
    g['sail_name'] = [nm for nm in names for _ in range(n)]

    t = {}

    def tot(key, x, labels=('x', 'y', 'z')):
        for i, ax in enumerate(labels):
            t[f'{key}.{ax}'] = float(x[i])
    cow = ('x (heel)', 'y (pitch)', 'z (yaw)')
    Ft, Mt = F[:half].sum(0), Mo.sum(0)
    tot('F_sails_total_COG', Ft)
    tot('F_sails_total_COW', Rz @ Ft)
    tot('M_sails_total_COG', Mt)
    tot('M_sails_total_COW', Rz @ Mt, cow)
    t['M_sails_total_COW.z (yaw - JG sign)'] = -float((Rz @ Mt)[2])
    clr = Rz @ rot('x', -heel) @ np.array(c['keel'], dtype=float)
    Mk = np.cross(clr, -Ft)
    tot('M_keel_total_COG', Mk)
    tot('M_keel_total_COW', Rz @ Mk, cow)
    t['M_keel_total_COW.z (yaw - JG sign)'] = -float((Rz @ Mk)[2])
    tot('M_total_COG', Mt + Mk)
    tot('M_total_COW', Rz @ (Mt + Mk), cow)
    t['M_total_COW.z (yaw - JG sign)'] = -float((Rz @ (Mt + Mk))[2])
    for i, nm in enumerate(names):
        tot(f'F_{nm}_total_COG', F[i * n:(i + 1) * n].sum(0))
        tot(f'M_{nm}_total_COG', Mo[i * n:(i + 1) * n].sum(0))

    ic = {}
    if k['wind_profile'] == 'exponential':
        h = k['wind_reference_measurment_height']
        s = k['tws_ref'] * ((h - k['reference_water_level_for_wind_profile']) / h) ** k['wind_exp_coeff']
        al = np.deg2rad(k['alpha_true_wind_deg'])
        tw = np.array([s * np.cos(al), s * np.sin(al), 0])
        ap = tw + [k['SOG_yacht'], 0, 0]
        ic['Reference_measurement_height'] = h
        ic['Reference_water_level_for_wind_profile'] = k['reference_water_level_for_wind_profile']
        for i, ax in enumerate('xyz'):
            ic[f'TWS_at_reference_height_COG.{ax}'] = tw[i]
            ic[f'V_app_infs_at_reference_height_COG.{ax}'] = ap[i]
        ic['TWS_length_at_reference_height'] = np.linalg.norm(tw)
        ic['V_app_infs_length_at_reference_height_COG'] = np.linalg.norm(ap)
        ic['AWA_infs_at_reference_height_COG_deg'] = np.rad2deg(np.arctan2(ap[1], ap[0]))
        ic['AWA_infs_at_reference_height_COW_deg'] = ic['AWA_infs_at_reference_height_COG_deg'] - lee
    return {'components': {q: (x if q == 'sail_name' else np.asarray(x, dtype=float).tolist()) for q, x in g.items()},
            'integrals': t, 'inlet': {q: float(x) for q, x in ic.items()}, 'rows': half}


def compare(sheets, exp):
    """first difference between a parsed workbook and the expectation, or None"""
    for s in ('Components', 'Integrals', 'IC_at_reference_height'):
        if s not in sheets:
            return f'sheet {s} missing'
    rows = sheets['Components']
    head = rows[0] if rows else []
    if len(rows) - 1 != exp['rows']:
        return f'Components has {len(rows) - 1} rows for {exp["rows"]} panels above the water'
    for col, want in exp['components'].items():
        if head.count(col) != 1:
            return f'column {col} present {head.count(col)} times'
        j = head.index(col)
        got = [r[j] if j < len(r) else None for r in rows[1:]]
        scale = max([abs(x) for x in want], default=0) if col != 'sail_name' else 0
        for i, (x, y) in enumerate(zip(got, want)):
            if col == 'sail_name':
                if x != y:
                    return f'{col} of row {i}: {x!r}, is {y!r}'
            elif not isinstance(x, float) or not abs(x - y) <= 2e-8 + 1e-9 * scale:
                return f'{col} of row {i}: {x!r}, is {y!r}'
    for sheet, part in (('Integrals', 'integrals'), ('IC_at_reference_height', 'inlet')):
        got = {}
        for r in sheets[sheet][1:]:
            if len(r) < 2:
                return f'{sheet}: row {r}'
            if r[0] in got:
                return f'{sheet}: {r[0]} twice'
            got[r[0]] = r[1]
        for q, y in exp[part].items():
            x = got.get(q)
            if not isinstance(x, float) or not abs(x - y) <= 0.0051 + 1e-9 * abs(y):
                return f'{sheet}: {q} is {x!r}, should be {y!r}'
        if part == 'integrals':
            extra = [q for q in got if re.match(r'[FM]_(jib|main_sail)_total', str(q)) and q not in exp[part]]
            if extra:
                return f'{sheet}: unexpected {extra[0]}'
    return None


def check_bytes(data, exp):
    try:
        s = parse(data)
    except Broken as e:
        return f'not a complete workbook: {e}'
    return compare(s, exp)


def check_file(path, exp):
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except FileNotFoundError:
        return 'absent'
    return check_bytes(data, exp)
