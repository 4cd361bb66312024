"""A small vortex lattice model of its own, used as the reference: given the panels, the circulation
and the sailing conditions it rebuilds the air velocities and the loads (Katz & Plotkin, ch. 12).
Panels are [te_low, le_low, le_high, te_high]; per grid row-major from luff to leech."""
import numpy as np

CORE = 1e-8


def _line(p, a, b):
    """velocity at points p[m] of the vortex segments a->b [n], unit strength: [m, n, 3]"""
    r0 = (b - a)[None]
    r1 = p[:, None] - a[None]
    r2 = p[:, None] - b[None]
    c = np.cross(r1, r2)
    n1, n2 = np.linalg.norm(r1, axis=2), np.linalg.norm(r2, axis=2)
    c2 = np.sum(c * c, axis=2)
    core = (n1 < CORE) | (n2 < CORE) | (c2 < CORE)
    with np.errstate(all='ignore'):
        k = np.sum(r0 * (r1 / n1[..., None] - r2 / n2[..., None]), axis=2) / (4 * np.pi * c2)
    return np.where(core[..., None], 0.0, c * np.where(core, 0.0, k)[..., None])


def _half_line(p, a, d):
    """vortex half lines from a[n] in direction d[n]"""
    u = d / np.linalg.norm(d, axis=1)[:, None]
    ap = p[:, None] - a[None]
    n = np.linalg.norm(ap, axis=2)
    with np.errstate(all='ignore'):
        return np.cross(np.broadcast_to(u[None], ap.shape), ap) / (4 * np.pi * n * (n - np.sum(u[None] * ap, axis=2)))[..., None]


class Lattice:
    def __init__(self, panels, n_chord, n_span, wind, orientation=-1.0, closed_at_te=False):
        panels = np.asarray(panels, dtype=float)
        K = len(panels)
        self.K, self.n_span = K, n_span
        row = (np.arange(K) % (n_chord * n_span)) // n_span
        self.first, self.last = row == 0, row == n_chord - 1
        p1, p2, p3, p4 = (panels[:, i] for i in range(4))
        B = p2 + (p1 - p2) / 4
        C = p3 + (p4 - p3) / 4
        A = p1 + (p1 - p2) / 4
        D = p4 + (p4 - p3) / 4
        nxt = np.minimum(np.arange(K) + n_span, K - 1)
        self.A = np.where(self.last[:, None], A, B[nxt])
        self.D = np.where(self.last[:, None], D, C[nxt])
        self.B, self.C = B, C
        le, te = (p2 + p3) / 2, (p1 + p4) / 2
        self.ctr = le + 0.75 * (te - le)
        self.cp = le + 0.25 * (te - le)
        n = np.cross(p3 - p1, p4 - p2)
        self.area_vec = n
        self.normal = n / np.linalg.norm(n, axis=1)[:, None]
        self.span = (C - B) * orientation
        self.g = orientation
        self.wind = np.asarray(wind(self.cp) if callable(wind) else wind, dtype=float)

    def influence(self, points):
        v = _line(points, self.A, self.B) + _line(points, self.B, self.C) + _line(points, self.C, self.D)
        back = _line(points, self.D, self.A)
        wake = _half_line(points, self.D, self.wind) - _half_line(points, self.A, self.wind)
        return self.g * (v + np.where(self.last[None, :, None], wake, back))

    def induced(self, points, gamma):
        return np.einsum('ijk,j->ik', self.influence(points), gamma)

    def solve(self):
        q = self.influence(self.ctr)
        a = np.einsum('ijk,ik->ij', q, self.normal)
        return REAL_SOLVE(a, -np.sum(self.wind * self.normal, axis=1))

    def leak(self, gamma):
        """normal velocity through each panel at its control point"""
        return np.sum((self.wind + self.induced(self.ctr, gamma)) * self.normal, axis=1)

    def loads(self, gamma, rho):
        prev = np.concatenate([np.zeros(self.n_span), gamma])[:self.K]
        dg = np.where(self.first, gamma, gamma - prev)
        vi = self.induced(self.cp, gamma)
        v = self.wind + vi
        s = self.span * dg[:, None]
        return {'V_induced_at_cp': vi, 'V_app_fs_at_cp': v, 'force': rho * np.cross(v, s),
                'lift': rho * np.cross(self.wind, s), 'drag': rho * np.cross(vi, s)}


REAL_SOLVE = np.linalg.solve


def wind_of(c):
    """apparent wind at points, from the conditions of a case"""
    k = c['conditions']

    def f(p):
        z = np.abs(p[:, 2])
        if k['wind_profile'] == 'exponential':
            s = k['tws_ref'] * ((z - k['reference_water_level_for_wind_profile']) / k['wind_reference_measurment_height']) ** k['wind_exp_coeff']
        elif k['wind_profile'] == 'flat':
            s = np.full(len(p), float(k['tws_ref']))
        else:
            s = k['tws_ref'] * np.log(z / k['roughness']) / np.log(k['wind_reference_measurment_height'] / k['roughness'])
        a = np.deg2rad(k['alpha_true_wind_deg'])
        return np.stack([s * np.cos(a) + k['SOG_yacht'], s * np.sin(a), np.zeros(len(p))], axis=1)
    return f


def wing_panels(w):
    """the rectangular wing of the free wing example"""
    a = np.deg2rad(-w['AoA_deg'])
    R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    x = np.linspace(0, w['chord_length'], w['n_chordwise'] + 1)
    z = np.linspace(-w['half_wing_span'], w['half_wing_span'], w['n_spanwise'] + 1)
    pts = np.array([[R @ np.array([xi, 0, zi]) for zi in z] for xi in x])
    out = []
    for i in range(w['n_chordwise']):
        for j in range(w['n_spanwise']):
            out.append([pts[i + 1, j], pts[i, j], pts[i, j + 1], pts[i + 1, j + 1]])
    return np.array(out)


def relative(a, b):
    """largest difference, relative to the largest magnitude of b"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return float('inf')
    s = np.max(np.abs(b)) if b.size else 1.0
    e = np.max(np.abs(a - b)) if a.size else 0.0
    return float('inf') if not np.isfinite(e) else e / (s or 1.0)
