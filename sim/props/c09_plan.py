import copy

from .. import cases

LEVEL = 'exploration'
TECHNIQUE = ('seeded histories of command line runs in one or several simulated processes with edits landing between disk operations, decoy '
             'modules and stale compiled files; workbook and archived settings of every run against the version the directory held')
NOTE = 'edits are atomic replacements of the file; which version a run may have used follows from its own operations on the file'
RULE = 'a run = one history of 1-4 invocations; distinct by settings, steps and moments of the edits'
STATES = 'tuples (way the directory was named, kind of settings, process, position, moment of the edit, decoys, exit status)'
REAL = ['__main__.py, runner/cli.py, the whole package, pandas, xlsxwriter, matplotlib, holoviews, bokeh', 'import system', 'kernel file system']
STUBS = ['the drawing itself (not its preparation) in most histories', 'LaTeX: labels are set by matplotlib itself', 'interpreter start: a fork of a warm interpreter with the package imported again']
ASSUMES = ['an edit replaces the file (as editors do); a file rewritten in place while it is read has no content to be faithful to']
LANES = {'std': {}}
STYLES = ['abs', 'abs', 'link', 'long', 'rel', 'eq', 'dots', 'cwd', 'dot']
DECOYS = ['cwd', 'package', 'pyc', 'pyc', 'path', 'loaded', 'sibling']
FORMS = ['plain', 'plain', 'plain', 'crlf', 'bom', 'latin', 'noeol', 'comment', 'empty lines', 'setdefault', 'main', 'formfeed']


def source(v, name):
    """bytes of a settings file"""
    c, form = v['case'], v.get('form', 'plain')
    s = cases.variables_py(c, name)
    if v['kind'] == 'partial':
        s = ''.join(x for x in s.splitlines(True) if not x.startswith(v['without'] + ' = ')) if v['without'] != 'output_args' else \
            s[:s.index('output_args')] + s[s.index('solver_args'):]
    elif v['kind'] == 'syntax':
        s += 'rig_args = {\n'
    elif v['kind'] == 'raises':
        s += 'raise RuntimeError("settings")\n'
    if form == 'setdefault':        # gives what it finds missing in its own module
        s = s.replace('rig_args = ', "rig_args = globals().get('rig_args') or ").replace('conditions_args = ', "conditions_args = globals().get('conditions_args') or ")
    if form == 'main':
        s += "if __name__ == '__main__':\n    conditions_args['tws_ref'] = 1e9\n"
    if form == 'comment':
        s += f'# {"Übung, Wind ≈ 4 Bft"}\n'
    if form == 'empty lines':
        s = '\n\n\n' + s + '\n\n\n   \n'
    if form == 'formfeed':
        s = s.replace('solver_args', '\x0csolver_args', 1) + '# \x1a\n'
    b = s.encode()
    if form == 'crlf':
        b = b.replace(b'\n', b'\r\n')
    if form == 'bom':
        b = b'\xef\xbb\xbf' + b
    if form == 'latin':
        b = b'# -*- coding: latin-1 -*-\n# \xdcbung\n' + b
    if form == 'noeol':
        b = b.rstrip(b'\n')
    return b


def related(rng, c):
    """another case, its settings file of the same length"""
    d = copy.deepcopy(c)
    k = d['conditions']
    for what in rng.sample(['tws_ref', 'alpha_true_wind_deg', 'heel_deg', 'rho', 'chords'], rng.choice([1, 2])):
        if what == 'chords':
            for s in ('main', 'jib'):
                d[s]['chords'] = [digit(rng, x, -1) for x in d[s]['chords']]
        else:
            k[what] = digit(rng, k[what])
    return d if d != c else related(rng, c)


def digit(rng, x, at=None):
    """the same number with another digit"""
    s = repr(x)
    ok = [i for i, q in enumerate(s) if q.isdigit() and q != '0' and i > s.index('.')] or [i for i, q in enumerate(s) if q.isdigit() and q != '0']
    if not ok:
        return x
    i = ok[0] if at is None else ok[at]
    n = rng.choice([q for q in '123456789' if q != s[i]])
    return float(s[:i] + n + s[i + 1:])


def plan(rng, pool):
    base = rng.choice(pool)
    vs = [{'kind': 'good', 'case': base[0], 'form': rng.choice(FORMS)}]
    for c in rng.sample(base[1:4], 2) if rng.random() < 0.5 else [rng.choice(base[1:4]), rng.choice(base[4:])]:
        vs.append({'kind': 'good', 'case': c, 'form': vs[0]['form'] if rng.random() < 0.5 else rng.choice(FORMS)})
    if rng.random() < 0.5:
        kind = rng.choice(['partial', 'partial', 'syntax', 'raises'])
        if kind == 'partial' and rng.random() < 0.5:
            vs[0]['form'] = 'setdefault'
        vs.append({'kind': kind, 'case': rng.choice(base), 'without': rng.choice(['rig_args', 'solver_args', 'conditions_args', 'csys_args', 'keel_args',
                                                                                 'jib_sail_args', 'main_sail_args', 'output_args'])})
    n = len(vs)
    steps = []
    here = {}

    def edit(d, k, mtime=None):
        steps.append({'op': 'edit', 'dir': d, 'version': k, 'mtime': mtime or rng.choice(['now', 'same', 'second', 'older'])})
        here[d] = k
    dirs = rng.sample(range(3), rng.choice([1, 2, 2]))
    for i, d in enumerate(dirs):
        edit(d, i if i < 2 else rng.randrange(n), 'now')
    runs = rng.choice([1, 2, 3, 3, 4])
    for i in range(runs):
        if i and rng.random() < 0.3:
            steps.append({'op': 'process'})
        if rng.random() < 0.5:
            d = rng.choice(dirs)
            steps.append({'op': 'decoy', 'what': rng.choice(DECOYS), 'dir': d, 'version': rng.choice([k for k in range(3) if k != here.get(d)]), 'pick': rng.random() < 0.5})
        d = rng.choice(dirs)
        if i and rng.random() < 0.6:
            d2 = rng.choice(dirs)
            edit(d2, rng.randrange(n) if rng.random() < 0.92 else None)
        s = {'op': 'run', 'dir': d, 'style': rng.choice(STYLES)}
        if rng.random() < 0.45:
            at = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 20, rng.randrange(210), rng.randrange(185, 210), None])
            s['edit'] = {'at': at, 'version': rng.choice([k for k in range(n) if k != here.get(d)]), 'mtime': rng.choice(['now', 'same', 'second'])}
            here[d] = s['edit']['version']
        steps.append(s)
    return {'versions': vs, 'steps': steps, 'out': rng.choice(['own', 'shared', 'shared', 'rel']), 'seed': rng.getrandbits(30), 'lane': 'std',
            'undrawn': rng.random() < 0.8}


def plans(rng, tier):
    pool = []
    for s in ('jib_and_main', 'jib', 'main'):
        c = cases.case(rng, sails=s, ns=rng.choice([1, 2]), nc=1)
        pool.append([c, *(related(rng, c) for _ in range(3)), *(cases.omit(rng, rng.choice([c, related(rng, c)])) for _ in range(3))])
    return [plan(rng, pool) for _ in range(200 if tier == 'quick' else 8000)]


def shrink(p):
    for i in range(len(p['steps']) - 1, -1, -1):
        q = copy.deepcopy(p)
        del q['steps'][i]
        if any(s['op'] == 'run' for s in q['steps']):
            yield q
    for i, s in enumerate(p['steps']):
        if s.get('edit'):
            q = copy.deepcopy(p)
            del q['steps'][i]['edit']
            yield q
        if s['op'] == 'run' and s['style'] != 'abs':
            q = copy.deepcopy(p)
            q['steps'][i]['style'] = 'abs'
            yield q
    if not p['undrawn']:
        yield {**copy.deepcopy(p), 'undrawn': True}
    for i, v in enumerate(p['versions']):
        if v.get('form', 'plain') != 'plain':
            q = copy.deepcopy(p)
            q['versions'][i]['form'] = 'plain'
            yield q
