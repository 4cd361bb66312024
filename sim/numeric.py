"""The numerical library behind a seam: dense solvers of numpy and scipy, as the code under test
gets them, can be told to fail or to hand back something wrong.  Installed before that code is
imported; passes everything through unless a fault is armed."""
import numpy as np
import scipy.linalg

armed = None        # {'mode':.., 'at': call number, ...}
calls = 0
fired = []
last = {}           # shape -> the previous answer of that shape
_depth = 0


def arm(fault):
    global armed, calls
    armed = fault
    calls = 0
    fired.clear()


def _corrupt(name, f, a, x):
    """x: the right answer"""
    mode = f['mode']
    y = np.array(x, dtype=float)
    if y.size == 0 or y.ndim == 0:
        return x
    n = y.shape[0]
    i = int(f.get('panel', 0) * n) % n
    scale = np.max(np.abs(y)) or 1.0
    eps = f.get('eps', 1.0)
    if mode == 'nan_one':
        y[i] = np.nan
    elif mode == 'nan_all':
        y[:] = np.nan
    elif mode == 'inf_one':
        y[i] = np.inf * np.sign(eps)
    elif mode == 'scaled':
        y *= 1 + eps
    elif mode == 'zero':
        y[:] = 0
    elif mode == 'negated':
        y = -y
    elif mode == 'offset_one':
        y[i] += eps * scale
    elif mode == 'offset_all':
        y += eps * scale
    elif mode == 'lower_half':
        y[n // 2:] *= 1 + eps
    elif mode == 'upper_half':
        y[:n // 2] *= 1 + eps
    elif mode == 'single_precision':
        y = y.astype(np.float32).astype(float)
    elif mode == 'swapped':
        j = (i + 1) % n
        y[[i, j]] = y[[j, i]]
    elif mode == 'stale':
        old = last.get(y.shape)
        if old is None:
            return x
        y = old.copy()
    elif mode in ('leak_one', 'leak_pair'):
        # wrong such that exactly one panel leaks, or two leak in opposite directions
        if y.ndim != 1 or np.ndim(a) != 2:
            y[i] += eps * scale
        else:
            e = np.zeros(n)
            e[i] = eps
            if mode == 'leak_pair':
                e[(i + n // 2) % n] = -eps
            y = y + _real['np.solve'](np.asarray(a), e)
    elif mode == 'noise':
        y = y * (1 + eps * np.random.RandomState(f.get('seed', 0)).standard_normal(y.shape))
    return y


_real = {}


def _wrap(mod, attr, label):
    real = getattr(mod, attr)
    _real[label] = real

    def wrapped(*a, **k):
        global calls, _depth
        if _depth:
            return real(*a, **k)
        n = calls
        calls += 1
        _depth += 1
        try:
            f = armed
            if f is None or not (f['at'] == 'all' or f['at'] == n):
                r = real(*a, **k)
                if isinstance(r, np.ndarray):
                    last[r.shape] = r.copy()
                return r
            fired.append(label + ':' + f['mode'])
            if f['mode'] == 'raise':
                raise np.linalg.LinAlgError('Singular matrix')
            if f['mode'] == 'memory':
                raise MemoryError
            r = real(*a, **k)
            if isinstance(r, tuple):
                return (_corrupt(label, f, a[0], r[0]),) + tuple(r[1:])
            return _corrupt(label, f, a[0] if a else None, r)
        finally:
            _depth -= 1
    wrapped.__name__ = attr
    wrapped.__wrapped__ = real
    setattr(mod, attr, wrapped)


def install():
    for attr in ('solve', 'inv', 'lstsq', 'pinv'):
        _wrap(np.linalg, attr, 'np.' + attr)
    for attr in ('solve', 'inv', 'lstsq', 'pinv', 'lu_solve', 'cho_solve', 'solve_triangular'):
        _wrap(scipy.linalg, attr, 'scipy.' + attr)
