"""The command line program, run inside a simulated process.

Stub: text that asks for LaTeX is typeset by matplotlib itself (there is no LaTeX here)."""
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VSIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def warm():
    """the libraries' own lazy start, so that it is not repeated in every simulated process; nothing of the code under test runs"""
    import io
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.text
    import numpy as np
    matplotlib.text.Text.get_usetex = lambda self: False
    import pySailingVLM.runner.cli      # noqa: F401
    import pySailingVLM.runner.aircraft      # noqa: F401
    from PIL import Image      # noqa: F401
    with matplotlib.rc_context():
        plt.style.use(['science', 'grid'])
        fig = plt.figure()
        ax = fig.add_subplot(111)
        ax.scatter([0.1, 0.2], [1, 5], label='jib')
        plt.xlabel('Section $c_l$')
        plt.legend()
        plt.savefig(io.BytesIO(), dpi=300, format='png')
        plt.close('all')
    fig = plt.figure()
    ax = plt.axes(projection='3d')
    ax.plot([0, 1], [0, 1], [0, 1])
    plt.close('all')
    import holoviews as hv
    import spatialpandas as sp
    hv.renderer('bokeh')
    b = sp.geometry.PolygonArray([[np.array([0., 0, 1, 0, 1, 1, 0, 1, 0, 0])]])
    p = hv.Polygons(sp.GeoDataFrame({'boundary': b, 'p_coeffs': [1.0]}), vdims=['p_coeffs']).opts(
        tools=['hover'], height=380, width=330, colorbar=True, colorbar_position='right', color='p_coeffs')
    hv.save(p, os.path.join(os.environ['VSIM_SCRATCH'], 'tmp', f'warm{os.getpid()}.html'), backend='bokeh')
    import pandas as pd
    df = pd.DataFrame({'a': [1.0]})
    with pd.ExcelWriter(os.path.join(os.environ['VSIM_SCRATCH'], 'tmp', f'warm{os.getpid()}.xlsx')) as w:
        df.to_excel(w)
    import tempfile
    tempfile.tempdir = None


def fresh():
    """forget the imported modules of the code under test, so that they are imported in the simulated process; those that hold compiled
    kernels stay (their import takes seconds)"""
    for n in [n for n in sys.modules if n.split('.')[0] == 'pySailingVLM']:
        m = sys.modules[n]
        if any(type(v).__name__ in ('CPUDispatcher', 'DUFunc') and getattr(v, '__module__', '') == n for v in vars(m).values()):
            continue
        del sys.modules[n]
    for n in [n for n in sys.modules if n.split('.')[0] == 'pySailingVLM' and '.' in n]:      # parents of those that stay
        parts = n.split('.')
        for i in range(1, len(parts)):
            __import__('.'.join(parts[:i]))


def _no_bytecode_in_repo():
    """compiled files are written as in an ordinary interpreter, but not next to the code under test"""
    from importlib.machinery import SourceFileLoader
    real = SourceFileLoader._cache_bytecode

    def cache(self, source_path, bytecode_path, data):
        if not os.path.realpath(source_path).startswith(REPO + '/'):
            return real(self, source_path, bytecode_path, data)
    SourceFileLoader._cache_bytecode = cache
    sys.dont_write_bytecode = False


def start():
    """once per simulated process: the interpreter as `python -m pySailingVLM` finds it"""
    import tempfile
    tempfile.tempdir = None
    sys.path[:] = [os.getcwd(), REPO] + [p for p in sys.path if p not in ('', os.getcwd(), REPO, VERIF)]
    fresh()
    _no_bytecode_in_repo()


def undrawn():
    """stub: the plots are prepared but not drawn"""
    import holoviews as hv
    import matplotlib.figure
    matplotlib.figure.Figure.savefig = lambda self, *a, **k: None
    hv.save = lambda *a, **k: None


def main(argv, again=False):
    """one run; SystemExit and errors propagate.  again: a later run in the same process"""
    sys.argv = ['pySailingVLM', *argv]
    if again:
        from pySailingVLM.runner.cli import main as m
        raise SystemExit(m())
    start()
    spec = importlib.util.find_spec('pySailingVLM.__main__')
    with open(spec.origin) as f:
        code = compile(f.read(), spec.origin, 'exec')
    mod = types.ModuleType('__main__')
    mod.__file__, mod.__package__, mod.__spec__ = spec.origin, 'pySailingVLM', spec
    sys.modules['__main__'] = mod
    sys.argv[0] = spec.origin
    exec(code, mod.__dict__)


def status(argv, again=False):
    """exit status of a run, for processes that make several; the error, if it ended with one"""
    from .world import classify_exit
    try:
        main(argv, again)
        return 0, None
    except SystemExit as e:
        return classify_exit(e), (None if e.code in (None, 0, 1) else str(e.code)[:200])
    except Exception as e:
        return 1, f'{type(e).__name__}: {e}'[:300]
