import hashlib
import os

from .. import faults, ops, workbook as W, world
from .common import add, fault_stats, h, harness, solo, viol


class Watch:
    """the workbooks as a reader finds them"""

    def __init__(self, d, names):
        self.d, self.names = d, names
        self.seen = {}              # name -> (stat key, sha)

    def look(self, n):
        """sha of the published bytes, or None"""
        f = os.path.join(self.d, n + '.xlsx')
        try:
            st = os.stat(f)
        except (FileNotFoundError, NotADirectoryError):
            self.seen[n] = (None, None)
            return None
        key = (st.st_ino, st.st_mtime_ns, st.st_size, st.st_ctime_ns)
        if self.seen.get(n, (0,))[0] != key:
            with open(f, 'rb') as g:
                data = g.read()
            self.seen[n] = (key, hashlib.sha256(data).hexdigest()[:16])
            self.data = data
        return self.seen[n][1]


def session(steps, d, pol, bound, names, before, exps):
    """one process: its saves, watched.  pol.notes: ['step', i, outcome, sha after, bytes of ops] and ['torn', ...]"""
    import tempfile
    tempfile.tempdir = None
    w = Watch(d, names)
    cur = dict(before)
    st = {'i': None}

    def observe(kind, path):
        i = st['i']
        if i is None:
            return
        for n in names:
            sha = w.look(n)
            if sha == cur[n]:
                continue
            if any(x[0] == 'torn' for x in pol.notes):
                return
            e = None
            if n != steps[i]['name']:
                e = f'{n}.xlsx changed while {steps[i]["name"]}.xlsx was saved'
            elif sha is None:
                e = f'{n}.xlsx vanished'
            elif st['new'] is not None:
                e = f'{n}.xlsx changed again'
            else:
                b = W.check_bytes(w.data, st['exp'])
                if b:
                    e = f'{n}.xlsx: {b}'
                st['new'] = sha
            if e:
                pol.notes.append(['torn', i, f'{e} (before operation {len(pol.ops)}: {kind} {path})', cur[n] is not None])
            cur[n] = sha

    def before_op(kind, path):
        with world.off_seam():
            observe(kind, path)
    for i, s in enumerate(steps):
        a = ops.analyse(ops.Inputs(s['case']))
        exp = W.expected(s['case'], a)
        if exps is not None:
            exps.append(exp)
        st.update(i=i, exp=exp, new=None)
        base = len(pol.ops)
        pol.notes.append(['start', i, base, exp])
        pol.faults = faults.shift(bound.get(i, []), base, pol.written)
        pol.before = before_op
        try:
            ops.save(a, d, s['name'])
            r = 'returned'
        except (Exception, SystemExit) as e:
            r = 'raised'
        pol.faults = []
        pol.before = None
        with world.off_seam():
            observe('end', '')
            pol.notes.append(['end', i, r, st['new'], len(pol.ops)])
            if r == 'returned' and W.check_file(os.path.join(d, s['name'] + '.xlsx'), exp):
                pol.notes.append(['lost', i, W.check_file(os.path.join(d, s['name'] + '.xlsx'), exp)])
    return True


def go(plan, ctx, name, bound, stats=None):
    """the whole history; returns ([outcome...], violation)"""
    root = ctx.sub(name)
    for x in ('cwd', 'tmp'):
        os.makedirs(os.path.join(root, x))
    d = {'flat': 'out', 'nested': 'out/a/b', 'there': 'out'}[plan['dir']]
    d = os.path.join(root, d)
    if plan['dir'] == 'there':
        os.makedirs(d)
    names = sorted({s['name'] for p in plan['procs'] for s in p})
    w = Watch(d, names)
    outs, v, states = [], None, []
    for k, steps in enumerate(plan['procs']):
        before = {n: w.look(n) for n in names}
        pol = world.Policy(seed=plan['seed'] + k)
        if plan['xdev']:
            pol.mounts = [os.path.join(root, 'tmp')]
        o = harness(solo(lambda: session(steps, d, pol, bound.get(k, {}), names, before, None), ctx, name, cwd=os.path.join(root, 'cwd'), roots=[root],
                         policy=pol, env={'TMPDIR': os.path.join(root, 'tmp')}, seed=plan['seed'] + k, clock={'ns': 1700000000_000000000 + k * 7_000000000}), name)
        outs.append(o)
        if o['status'] not in ('ok', 'crash'):
            return outs, viol('process ended', [o['status'], o.get('exc')]), states
        start = [x for x in o['notes'] if x[0] == 'start']
        ends = {x[1]: x for x in o['notes'] if x[0] == 'end'}
        torn = [x for x in o['notes'] if x[0] == 'torn']
        lost = [x for x in o['notes'] if x[0] == 'lost']
        what = [faults.describe(b, o['ops'][start[i][2]:] if i < len(start) else []) for i, b in bound.get(k, {}).items()]
        where = f'process {k}, {"; ".join(what) or "no fault"}'
        if torn:
            return outs, viol('a reader finds a damaged workbook', f'{where}: {torn[0][2]}'), states
        if lost:
            return outs, viol('save returned but the workbook is not there', f'{where}: {lost[0][2]}'), states
        after = {n: w.look(n) for n in names}
        # what the processes left, against what each step may leave
        for n in names:
            may = [before[n]]
            exp = []
            for x in start:
                if steps[x[1]]['name'] != n:
                    continue
                e = ends.get(x[1])
                if e is None:
                    exp.append(x[3])
                elif e[3] is not None:      # else: nothing happened, or the very same bytes
                    may = [e[3]]
            if after[n] in may:
                continue
            if after[n] is None:
                return outs, viol('earlier results are destroyed', f'{where}: {n}.xlsx is gone'), states
            if not exp:
                return outs, viol('earlier results are destroyed', f'{where}: {n}.xlsx changed without a save under that name'), states
            e = W.check_file(os.path.join(d, n + '.xlsx'), exp[-1])
            if e:
                return outs, viol('a reader finds a damaged workbook', f'{where}, after the process ended: {n}.xlsx: {e}'), states
        hit = [q for q in o['ops'] if len(q) > 3]
        if hit:
            states.append(h(hit[0][0], os.path.basename(os.path.dirname(hit[0][1]))[:3], hit[0][3], [x is None for x in before.values()],
                            [before[n] == after[n] for n in names]))
        if stats is not None:
            for e in ends.values():
                add(stats, 'save ' + e[2])
            add(stats, 'observations', len(o['ops']))
    return outs, v, states


def execute(plan, ctx):
    stats = {}
    outs, v, _ = go(plan, ctx, 'clean', {}, stats)
    out = {'stats': stats, 'violation': v, 'trace': h([o['ops'] for o in outs], v), 'sim_ns': sum(o['sim_ns'] for o in outs)}
    bad = [x for o in outs for x in o['notes'] if x[0] == 'end' and x[2] != 'returned']
    if not v and bad:
        out['violation'] = viol('save failed without a fault', bad[0])
    if out['violation']:
        return out
    bound = {}
    for k, steps in enumerate(plan['procs']):
        st = {x[1]: x[2] for x in outs[k]['notes'] if x[0] == 'start'}
        en = {x[1]: x[4] for x in outs[k]['notes'] if x[0] == 'end'}
        for i, s in enumerate(steps):
            if s['fault']:
                bound.setdefault(k, {})[i] = faults.bind(s['fault'], outs[k]['ops'][st[i]:en[i]], s.get('where', ''))
    if not bound:
        return out
    outs, v, states = go(plan, ctx, 'faulty', bound, stats)
    fault_stats(stats, *outs)
    out.update(violation=v, states=states, trace=h([o['ops'] for o in outs], v), nontrivial=h(plan['procs'], bound),
               sim_ns=out['sim_ns'] + sum(o['sim_ns'] for o in outs),
               sample={'procs': [[[s['name'], s['fault']] for s in p] for p in plan['procs']], 'bound': bound, 'ends': [o['status'] for o in outs]})
    return out
