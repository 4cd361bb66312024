"""Runs of the command line program for the properties that watch it"""
import os
import pickle

import numpy as np

from .. import artefacts as A, cases, faults, numeric, ops, program, workbook as W, world
from .common import h, harness, solo

START = 1700000000_000000000


class Setup:
    """a settings directory, a working directory and where the results go"""

    def __init__(self, root, spec):
        self.root, self.spec = root, spec
        self.tmp = os.path.join(root, 'tmp')
        dv = spec.get('dv', 'abs')
        self.cwd = os.path.join(root, 'cwd')
        self.set = self.cwd if dv == 'cwd' else os.path.join(root, 'my set' if dv == 'spaces' else 'set')
        for d in {self.tmp, self.cwd, self.set}:
            os.makedirs(d, exist_ok=True)
        self.argv = {'abs': ['-dv', self.set], 'rel': ['-dv', os.path.relpath(self.set, self.cwd)], 'cwd': [], 'slash': ['-dv', self.set + '/'],
                     'spaces': ['--dvars', self.set]}[dv]
        out = spec.get('out', 'abs')
        self.name = {'abs': os.path.join(root, 'out'), 'rel': 'out', 'nested': os.path.join(root, 'out', 'a', 'b'), 'relnested': 'results/2024',
                     'exists': os.path.join(root, 'out'), 'updir': '../out', 'spaces': 'my results', 'inset': os.path.join(self.set, 'out')}[out]
        self.out = os.path.normpath(os.path.join(self.cwd, self.name))
        if out == 'exists':
            os.makedirs(self.out, exist_ok=True)
        self.file_name = spec.get('file_name', 'res')
        self.source = cases.variables_py(spec['case'], repr(self.name), file_name=self.file_name, extra=spec.get('extra', '')).encode()
        self.write()

    def write(self, source=None):
        with open(os.path.join(self.set, 'variables.py'), 'wb') as f:
            f.write(self.source if source is None else source)

    def run(self, ctx, policy=None, numfault=None, clock=None, seed=1, fn=None, **kw):
        env = {'TMPDIR': self.tmp, **kw.pop('env', {})}
        policy = policy or world.Policy()

        def go():
            if numfault:
                numeric.arm(numfault)
            try:
                return (fn or program.main)(self.argv)
            finally:
                if numfault:
                    policy.notes.append(['num', list(numeric.fired)])
        return harness(solo(go, ctx, 'h', cwd=self.cwd, roots=[self.root], policy=policy, env=env, clock=clock or {'ns': START}, seed=seed, as_main=True,
                            capture=os.path.join(ctx.dir, 'console'), **kw), 'run')

    def missing(self, base=None):
        return A.missing(self.out, exp=base and base['exp'], source=self.source, pixels=base and base['pixels'], file_name=self.file_name)


def console(ctx, n=400):
    try:
        with open(os.path.join(ctx.dir, 'console'), errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''


def expectation(case):
    inp = ops.Inputs(case)
    a = ops.analyse(inp)
    return W.expected(inp.effective(), a)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def baseline(spec, ctx):
    """what an undisturbed run of these settings does and leaves: {'exp', 'ops', 'pixels', 'polygons', 'sheets'}, or {'error'}; shared between
    the runs of a check"""
    d = os.path.join(ctx.base, 'baseline')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, h(spec) + '.pickle')
    if os.path.exists(f):
        with open(f, 'rb') as g:
            return pickle.load(g)
    s = Setup(os.path.join(ctx.dir, 'base' + h(spec)[:8]), spec)
    e = harness(solo(lambda: expectation(spec['case']), ctx, 'exp' + h(spec)[:8], roots=[ctx.dir]), 'expectation')
    b = {}
    if e['status'] != 'ok':
        b['error'] = ['valid analysis failed', [e['status'], e.get('exc')]]
    else:
        b['exp'] = e['value']
        o = s.run(ctx)
        if o['code'] != 0:
            b['error'] = ['a run without a fault failed', [o['status'], o['code'], o.get('exc'), (o.get('tb') or '')[-300:], console(ctx)]]
        else:
            m = A.missing(s.out, exp=b['exp'], source=s.source, file_name=s.file_name)
            if m:
                b['error'] = ['exit status 0 without complete artefacts', m]
            else:
                p = A.paths(s.out, s.file_name)
                b.update(ops=o['ops'], sim_ns=o['sim_ns'], pixels={k: A.read_png(read(p[k])) for k in ('lift', 'drag')},
                         polygons=A.polygons(read(p['pressure'])), sheets=W.parse(read(p['workbook'])), tree=A.tree(s.root), escapes=o['escapes'])
    t = f'{f}.{os.getpid()}'
    with open(t, 'wb') as g:
        pickle.dump(b, g)
    os.replace(t, f)
    return b


def same_content(s, b):
    """the artefacts of a run against those of the undisturbed run: first difference, or None"""
    m = s.missing(b)
    if m:
        return m
    p = A.paths(s.out, s.file_name)
    if W.parse(read(p['workbook'])) != b['sheets']:
        return 'workbook cells differ from those of an undisturbed run'
    xy, v = A.polygons(read(p['pressure']))
    bxy, bv = b['polygons']
    if len(xy) != len(bxy) or not np.array_equal(v, bv) or not all(np.array_equal(q, r) for a, c in zip(xy, bxy) for q, r in zip(a, c)):
        return 'pressure plot differs from that of an undisturbed run'
    return None
