"""Histories of runs, edits and decoys; every run has to analyse and archive what its settings file held when it read it"""
import os
import pickle
import shutil

from .. import numeric
numeric.install()
from .. import artefacts as A, program, workbook as W, world       # noqa: E402
from . import clirun                        # noqa: E402
from .c09_plan import source                # noqa: E402
from .common import add, fault_stats, h, harness, solo, viol       # noqa: E402

T0 = clirun.START


def warm():
    program.warm()


def expected(case, ctx):
    d = os.path.join(ctx.base, 'baseline')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'exp' + h(case) + '.pickle')
    if os.path.exists(f):
        with open(f, 'rb') as g:
            return pickle.load(g)
    e = harness(solo(lambda: clirun.expectation(case), ctx, 'exp' + h(case), roots=[ctx.dir]), 'expectation')
    r = e['value'] if e['status'] == 'ok' else None
    t = f'{f}.{os.getpid()}'
    with open(t, 'wb') as g:
        pickle.dump(r, g)
    os.replace(t, f)
    return r


class History:
    def __init__(self, plan, root, pol):
        self.plan, self.root, self.pol = plan, root, pol
        self.tmp = os.path.join(root, 'tmp')
        self.cwd = os.path.join(root, 'cwd')
        self.dirs = [os.path.join(root, n) for n in ('setA', 'set B', 'deep/er/setC')]
        for d in (self.tmp, self.cwd, *self.dirs):
            os.makedirs(d, exist_ok=True)
        os.symlink(self.dirs[0], os.path.join(root, 'link'))
        self.now = {}       # directory -> version there
        self.runs = 0

    def outname(self, k):
        return {'own': os.path.join(self.root, 'out', f'v{k}'), 'shared': os.path.join(self.root, 'out', 'all'), 'rel': f'out/v{k}'}[self.plan['out']]

    def source(self, k):
        return source(self.plan['versions'][k], repr(self.outname(k)))

    def put(self, d, k, mtime='now'):
        f = os.path.join(self.dirs[d], 'variables.py')
        self.now[d] = k
        with world.off_seam():
            if k is None:
                if os.path.exists(f):
                    os.remove(f)
                return
            old = os.stat(f) if os.path.exists(f) else None
            t = os.path.join(self.dirs[d], '.new')
            with open(t, 'wb') as g:
                g.write(self.source(k))
            if mtime == 'same' and old:
                os.utime(t, ns=(old.st_atime_ns, old.st_mtime_ns))
            elif mtime == 'second' and old:
                os.utime(t, ns=(old.st_atime_ns, old.st_mtime_ns // 10**9 * 10**9 + 7))
            elif mtime == 'older':
                os.utime(t, ns=(10**18, 10**18))
            os.replace(t, f)

    def decoy(self, s):
        import sys
        k, d = s['version'], s['dir']
        src = self.source(k)
        what = s['what']
        with world.off_seam():
            if what == 'cwd':
                with open(os.path.join(self.cwd, 'variables.py'), 'wb') as g:
                    g.write(src)
            elif what == 'package':
                for b in ((self.dirs[d],) if s['pick'] else (self.cwd,)):
                    if os.path.isfile(os.path.join(b, 'variables')):
                        continue
                    os.makedirs(os.path.join(b, 'variables'), exist_ok=True)
                    with open(os.path.join(b, 'variables', '__init__.py'), 'wb') as g:
                        g.write(src)
            elif what == 'pyc':
                # compiled from something else, and as far as a header can tell up to date
                import importlib.util
                import importlib._bootstrap_external as be
                f = os.path.join(self.dirs[d], 'variables.py')
                if not os.path.exists(f):
                    return
                st = os.stat(f)
                code = compile(src, f, 'exec')
                data = be._code_to_hash_pyc(code, b'\0' * 8, False) if s['pick'] else be._code_to_timestamp_pyc(code, int(st.st_mtime), st.st_size & 0xFFFFFFFF)
                for p in (importlib.util.cache_from_source(f), f + 'c'):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as g:
                        g.write(data)
            elif what == 'path':
                e = os.path.join(self.root, 'elsewhere')
                os.makedirs(e, exist_ok=True)
                with open(os.path.join(e, 'variables.py'), 'wb') as g:
                    g.write(src)
                sys.path.insert(0, e)
            elif what == 'loaded':
                import types
                m = types.ModuleType('variables')
                m.__file__ = os.path.join(self.cwd, 'variables.py')
                exec(compile(src, m.__file__, 'exec'), m.__dict__)
                sys.modules['variables'] = m
            elif what == 'sibling':
                for n in ('Variables.py', 'variables.py.bak', 'variables', 'variables.py~', '.variables.py', 'variables.txt'):
                    p = os.path.join(self.dirs[d], n)
                    if not os.path.exists(p):
                        with open(p, 'wb') as g:
                            g.write(src)

    def run(self, s, again):
        d = s['dir']
        style = s['style']
        cwd = self.dirs[d] if style in ('cwd', 'dot') else self.cwd
        here = self.dirs[d] if style != 'link' or d else os.path.join(self.root, 'link')
        with world.off_seam():
            os.chdir(cwd)
            for k in range(len(self.plan['versions'])):
                shutil.rmtree(os.path.join(cwd, self.outname(k)), ignore_errors=True)
        argv = {'abs': ['-dv', here], 'link': ['-dv', here], 'long': ['--dvars', here + '/'], 'rel': ['-dv', os.path.relpath(here, cwd)],
                'eq': [f'--dvars={here}'], 'dots': ['-dv', os.path.join(self.cwd, '..', os.path.relpath(here, self.root))], 'cwd': [], 'dot': ['-dv', '.']}[style]
        start = len(self.pol.ops)
        real = os.path.relpath(os.path.join(self.dirs[d], 'variables.py'), self.root)
        at = {}       # operation on the settings file -> version there
        first = self.now.get(d)
        edit = s.get('edit')

        def before(kind, path):
            if len(self.pol.ops) in busy:
                return
            i = len(self.pol.ops) - start
            if edit and not edit.get('done') and (i == edit['at'] if edit['at'] is not None else (path.endswith('variables.py') and 'out' in path and kind in ('create', 'open', 'rename'))):
                edit['done'] = True
                edited.append(i)
                self.put(d, edit['version'], edit['mtime'])
            if path in (real, real.replace('setA', 'link')):
                at[i] = self.now.get(d)
        busy = set()
        edited = []
        self.pol.before = before
        if self.plan.get('undrawn'):
            program.undrawn()
        code, err = program.status(argv, again)
        self.pol.before = None
        last = self.now.get(d)
        allowed = sorted(set(at.values()), key=str) if at else sorted({first, last}, key=str)
        with world.off_seam():
            os.chdir(cwd)
            res = []
            for k in range(len(self.plan['versions'])):
                o = os.path.join(cwd, self.outname(k))
                if os.path.isdir(o) and o not in [x[0] for x in res]:
                    p = A.paths(o, 'res')
                    res.append([o, {n: clirun.read(p[n]) if os.path.isfile(p[n]) else None for n in ('workbook', 'settings')}])
        self.pol.notes.append(['run', self.runs, code, err, allowed, [[os.path.relpath(os.path.realpath(o), os.path.realpath(self.root)), r] for o, r in res],
                               edited, first, len(self.pol.ops) - start])
        self.runs += 1

    def outdir(self, k, s):
        cwd = self.dirs[s['dir']] if s['style'] in ('cwd', 'dot') else self.cwd
        return os.path.relpath(os.path.realpath(os.path.join(cwd, self.outname(k))), os.path.realpath(self.root))


def execute(plan, ctx):
    stats = {}
    pol0 = world.Policy(seed=plan['seed'])
    hist = History(plan, ctx.sub('world'), pol0)
    # processes: the steps between two 'process' marks
    procs = [[]]
    for s in plan['steps']:
        if s['op'] == 'process':
            procs.append([])
        else:
            procs[-1].append(s)
    v, traces, states, ns = None, [], [], 0
    nrun = 0
    runs = [s for s in plan['steps'] if s['op'] == 'run']
    good = {k: expected(x['case'], ctx) for k, x in enumerate(plan['versions']) if x['kind'] == 'good'}
    if any(x is None for x in good.values()):
        return {'stats': stats, 'violation': viol('valid analysis failed', 'a case of the pool'), 'trace': ''}
    for i, steps in enumerate(procs):
        pol = world.Policy(seed=plan['seed'] + i)
        hist.pol = pol

        def go():
            again = False
            for s in steps:
                if s['op'] == 'edit':
                    hist.put(s['dir'], s['version'], s['mtime'])
                elif s['op'] == 'decoy':
                    hist.decoy(s)
                else:
                    hist.run(s, again)
                    again = True
            pol.notes.append(['now', dict(hist.now)])
        o = harness(solo(go, ctx, 'h', cwd=hist.cwd, roots=[hist.root], policy=pol, env={'TMPDIR': hist.tmp}, clock={'ns': T0 + i * 10**9}, seed=plan['seed'] + i,
                         capture=os.path.join(ctx.dir, 'console')), 'history')
        ns += o['sim_ns']
        fault_stats(stats, o)
        if o['status'] != 'ok':
            return {'stats': stats, 'violation': viol('the program hangs or dies', f'{o["status"]} {o.get("exc")} {(o.get("tb") or "")[-300:]}'), 'trace': ''}
        hist.now = o['notes'][-1][1]
        for n in o['notes']:
            if n[0] != 'run':
                continue
            _, _, code, err, allowed, res, edited, first, nops = n
            s = runs[nrun]
            nrun += 1
            where = f'run {nrun} of {len(runs)} (process {i + 1}, {s["style"]}, {"edited before operation %s of %s" % (edited[0], nops) if edited else "not edited"})'
            if edited:
                add(stats, 'fault:edit during the run')
            kinds = [plan['versions'][k]['kind'] if k is not None else 'absent' for k in allowed]
            add(stats, f'run of {"/".join(sorted(set(kinds)))} settings')
            used = None
            if code == 0:
                for k in allowed:
                    if k is None or k not in good:
                        continue
                    r = dict(res).get(hist.outdir(k, s))
                    if r and r['settings'] == hist.source(k) and r['workbook'] and W.check_bytes(r['workbook'], good[k]) is None:
                        used = k
                        break
                if used is None:
                    why = []
                    for oo, r in res:
                        a = [k for k in range(len(plan['versions'])) if r['settings'] == hist.source(k)]
                        b = [k for k in good if r['workbook'] and W.check_bytes(r['workbook'], good[k]) is None]
                        why.append(f'{oo}: settings of version {a or "none"}, numbers of version {b or "none"}')
                    cls = 'run of settings that cannot be used' if not [k for k in allowed if k in good] else 'run of other settings than those asked for'
                    v = v or viol(cls, f'{where}: directory held version {allowed}; left {why}')
            elif any(k in good for k in allowed) and not all(k in good for k in allowed):
                pass
            elif all(k in good for k in allowed):
                v = v or viol('a run of valid settings failed', f'{where}: status {code}, {err}')
            traces.append([code, allowed, used, edited, nops])
            states.append(h(s['style'], kinds, i, nrun, edited and min(edited[0], 8), [x['what'] for x in steps if x['op'] == 'decoy'], code))
    for s in plan['steps']:
        if s['op'] == 'decoy':
            add(stats, 'fault:decoy ' + s['what'])
        elif s['op'] == 'edit' and s['mtime'] in ('same', 'second', 'older'):
            add(stats, 'fault:edit keeping the time stamp' if s['mtime'] != 'older' else 'fault:clock of the file jumps back')
    return {'stats': stats, 'violation': v, 'trace': h(traces), 'states': states, 'sim_ns': ns, 'nontrivial': h(plan),
            'sample': {'steps': [' '.join(str(x) for x in s.values() if not isinstance(x, dict)) for s in plan['steps']], 'runs': traces}}
