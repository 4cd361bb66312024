"""execution-side helpers shared by the properties (imported in a lane)"""
import hashlib
import json
import os
import re

import numpy as np

from .. import world


RUN = re.compile(r'/tmp/vsim\.\w+/run-\d+-\d+')


def h(*a):
    """fingerprint, independent of where the run took place"""
    return hashlib.sha256(RUN.sub('<run>', json.dumps(a, default=str)).encode()).hexdigest()[:16]


def round_digest(d):
    """a stable fingerprint of a digest (9 significant digits of each column's scale)"""
    out = []
    for k in sorted(d):
        v = d[k]
        if v.dtype.kind in 'USO':
            out.append((k, v.tolist()))
        else:
            v = np.asarray(v, dtype=float)
            fin = v[np.isfinite(v)]
            s = np.max(np.abs(fin)) if fin.size else 1.0
            out.append((k, v.shape, ('%.5g' % s), np.round(v / (s or 1.0), 5).tolist() if v.size < 2000 else None))
    return h(out)


def solo(fn, ctx, name, **kw):
    d = os.path.join(ctx.dir, name)
    os.makedirs(d, exist_ok=True)
    kw.setdefault('cwd', d)
    kw.setdefault('roots', [ctx.dir])
    return world.run(fn, **kw)


def viol(cls, msg, key=None, **more):
    return {'class': cls, 'msg': RUN.sub('<run>', str(msg))[:600], 'key': key or cls, **more}


def add(stats, key, n=1):
    stats[key] = stats.get(key, 0) + n


def fault_stats(stats, *outcomes):
    for o in outcomes:
        for k, v in (o.get('fired') or {}).items():
            add(stats, 'fault:' + k, v)
        if o.get('status') == 'crash':
            add(stats, 'crashes')


def harness(o, what):
    """an outcome that is not an answer of the code under test"""
    if o['status'] in ('harness', 'timeout'):
        raise RuntimeError(f'{what}: {o}')
    return o
