"""Fault plans for the simulated disk: drawn without knowing the operations, bound to a baseline run."""
from . import world

# what may go wrong once and for all, from some moment on
LASTING = [('ENOSPC', ['write', 'create', 'mkdir', 'copy']), ('EROFS', ['create', 'mkdir']), ('EACCES', ['create', 'mkdir', 'rename']),
           ('EIO', ['write', 'read', 'copy']), ('EIO', ['rename']), ('EIO', ['close']), ('EDQUOT', ['write']), ('EMFILE', ['open', 'create']),
           ('ENOSPC', ['close']), ('EBUSY', ['unlink', 'rmdir']), ('EINTR', ['read', 'write']), ('short', ['read', 'write'])]


def draw(rng, crash=False, frac=None):
    """a fault plan"""
    x = rng.random()
    f = {'frac': round(rng.random(), 5) if frac is None else round(frac, 5), 'pick': round(rng.random(), 4)}
    if crash:
        f['do'] = rng.choice(['crash', 'crash', 'crash_after', 'torn'])
    elif x < 0.7:
        f['do'] = 'one'
    elif x < 0.85:
        f['do'] = 'lasting'
        f['which'] = rng.randrange(len(LASTING))
    else:
        f['do'] = 'full'
    return f


def bind(f, ops, where=''):
    """ops: operations of the same step in a run without faults -> policy faults, relative to the step's first operation.
    where: restrict to operations on paths containing this"""
    if not f or not ops:
        return []
    idx = [i for i, o in enumerate(ops) if where in o[1]] or list(range(len(ops)))
    k = idx[min(int(f['frac'] * len(idx)), len(idx) - 1)]
    kind = ops[k][0]
    if f['do'] in ('crash', 'crash_after', 'torn'):
        return [{'at': k, 'do': f['do']}]
    if f['do'] == 'one':
        can = world.LEGAL[kind]
        return [{'at': k, 'do': can[int(f['pick'] * len(can))]}]
    if f['do'] == 'lasting':
        do, kinds = LASTING[f['which']]
        return [{'from': k, 'kinds': kinds, 'do': do, **({'until': k + 40} if do == 'EINTR' else {})}]
    total = sum(o[2] for o in ops if o[0] in ('write', 'copy') and where in o[1])
    r = {'budget': int(f['frac'] * total)}
    if where:
        r['path'] = where
    return [r]


def shift(faults, base, written=0):
    out = []
    for f in faults:
        f = dict(f)
        for k in ('at', 'from', 'until'):
            if k in f:
                f[k] += base
        if 'budget' in f:
            f['budget'] += written
        out.append(f)
    return out


def describe(faults, ops):
    out = []
    for f in faults:
        k = f.get('at', f.get('from'))
        out.append(f'{f.get("do", "full disk")} at operation {k} ({" ".join(map(str, ops[k][:2])) if k is not None and k < len(ops) else ""})'
                   if k is not None else f'disk full after {f["budget"]} bytes')
    return ', '.join(out)
