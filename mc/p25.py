"""P25: with any subset of the optional libraries missing or broken, the rest works as before and what needs them says so."""
import importlib
import itertools
import os
import subprocess
import sys
import tempfile

import numpy as np

from . import gen
from .core import REPO, ROOT, Skip
from .obs import observe, same, snapshot
from .p24 import flat

LIBS = dict(networkx=['networkx'], graph_tool=['graph_tool'], matplotlib=['matplotlib', 'mpl_toolkits'], pyqtgraph=['pyqtgraph'],
            pyunlocbox=['pyunlocbox'], pyflann=['pyflann'], sklearn=['sklearn'], skimage=['skimage'])
BOUNDS = dict(
    quick='all 256 subsets of the 8 optional libraries absent, every library broken in 5 ways (not found, unloadable, incompatible, other errors) and every pair unloadable: 30 calls in each; '
          'all sequences of 2 changes of availability; imports of the package in fresh processes with none and with each single library',
    thorough='all subsets broken in 5 ways, sequences of 3 changes, imports with every pair')
CHUNK = 4
ASSUMPTIONS = ['the libraries installed in this environment (the others are always absent)', 'with FLANN or scikit-learn the neighbors of well separated points are the same']


class Odd(Exception):
    """An error of the library itself."""


FAULTS = dict(absent=lambda n: ModuleNotFoundError(f'No module named {n!r}', name=n), unloadable=lambda n: OSError(f'{n}.so: cannot open shared object file'),
              incompatible=lambda n: AttributeError(f'module {n!r} has no attribute int'),
              failing=lambda n: RuntimeError(f'{n} was compiled against another version'), odd=lambda n: Odd(f'{n} does not support this platform'))


class Block:
    """Makes libraries impossible to import, in one of the ways seen in practice."""

    def __init__(self, libs, fault):
        self.tops = [m for l in libs for m in LIBS[l]]
        self.fault = fault

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.tops:
            raise FAULTS[self.fault](name)
        return None

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.split('.')[0] in self.tops}
        for k in self.saved:
            del sys.modules[k]
        sys.meta_path.insert(0, self)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self)
        for k in [k for k in sys.modules if k.split('.')[0] in self.tops]:
            del sys.modules[k]
        sys.modules.update(self.saved)


def installed():
    have = []
    os.environ.setdefault('MPLBACKEND', 'agg')
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    for l, mods in LIBS.items():
        try:
            for m in mods:
                importlib.import_module(m)
            have.append(l)
        except Exception:
            pass
    # parts that are imported on demand, so that restoring is complete
    for m in ('matplotlib.pyplot', 'mpl_toolkits.mplot3d', 'sklearn.neighbors', 'skimage.util', 'graph_tool.spectral', 'pyunlocbox.functions', 'pyunlocbox.solvers'):
        if m.split('.')[0] in [x for l in have for x in LIBS[l]]:
            try:
                importlib.import_module(m)
            except Exception:
                pass
    return have


def graph():
    from pygsp import graphs
    G = graphs.Graph(gen.weighted(gen.grid(2, 3)), coords=np.array([[i // 3, i % 3] for i in range(6)]) * 1.)
    G.set_signal(np.arange(6) * .5, 's')
    return G


PTS = np.array([[np.cos(2.3 * i) * (1 + .13 * i), np.sin(1.1 * i * i) + .07 * i] for i in range(14)])


FLANN = {'nn flann': [dict(k=3), dict(k=2, rescale=False)], 'nn flann manhattan': [dict(k=3, dist_type='manhattan')],
         'nn flann minkowski': [dict(k=3, dist_type='minkowski', order=o) for o in (1, 2, 3)], 'nn flann max': [dict(k=3, dist_type='max_dist')]}


def calls():
    """name -> (alternatives: sets of libraries of which one must be complete, call)"""
    from pygsp import features, filters, graphs, learning, reduction, utils, plotting

    def plot(**kw):
        def f(G):
            fig, ax = G.plot(**kw)
            n = [np.asarray(c.get_offsets()) for c in ax.collections if hasattr(c, 'get_offsets')]
            plotting.close(fig)
            return n
        return f

    def fplot(G):
        fig, ax = filters.Heat(G, 2).plot()
        n = [np.asarray(l.get_xydata()) for l in ax.lines]
        plotting.close(fig)
        return n

    def io(fmt, backend, save_backend=None):
        def f(G):
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'g.' + fmt)
                G.save(p, backend=save_backend if save_backend is not None else backend)
                H = graphs.Graph.load(p, backend=backend)
                return [H.W, H.signals['s']]
        return f
    A = ()
    any2 = (('networkx',), ('graph_tool',))
    return {
        'core': ((A,), lambda G: [G.W, G.L, G.e, G.lmax, G.grad(np.arange(6.)), G.d, G.dw]),
        'filter': ((A,), lambda G: [filters.Heat(G, [1, 2]).filter(np.arange(6.)), filters.Meyer(G).filter(np.arange(6.), method='exact')]),
        'reduce': ((A,), lambda G: [reduction.kron_reduction(G, [0, 2, 5]), utils.resistance_distance(G), reduction.graph_sparsify(G, .9, seed=3)]),
        'learn': ((A,), lambda G: [learning.regression_tikhonov(G, np.arange(6.), np.arange(6) % 2 == 0, tau=1.), learning.classification_tikhonov(G, np.arange(6) % 2, np.arange(6) < 4)]),
        'features': ((A,), lambda G: [features.compute_norm_tig(filters.Heat(G, 1))]),
        'families': ((A,), lambda G: [graphs.Ring(5), graphs.Sensor(12, seed=1), graphs.ErdosRenyi(8, .5, seed=1), graphs.Community(12, seed=1), graphs.LineGraph(G), graphs.SwissRoll(12, seed=1)]),
        'layouts': ((A,), lambda G: [lay(graphs, G, k) for k in ('ring2D', 'random3D', 'spring', 'laplacian_eigenmap2D')]),
        'nn': ((A,), lambda G: [graphs.NNGraph(PTS, k=3), graphs.NNGraph(PTS, NNtype='radius', epsilon=.5, rescale=False)]),
        **{name: ((A,), lambda G, kws=kws: [graphs.NNGraph(PTS, use_flann=True, **kw) for kw in kws]) for name, kws in FLANN.items()},
        'patches': ((('skimage',),), lambda G: graphs.ImgPatches(np.abs(np.sin(np.arange(12.) * 2)).reshape(3, 4), k=2)),
        'to_networkx': ((('networkx',),), lambda G: G.to_networkx()),
        'networkx both ways': ((('networkx',),), lambda G: graphs.Graph.from_networkx(G.to_networkx())),
        'to_graphtool': ((('graph_tool',),), lambda G: [np.array(list(map(int, e)), dtype=float) for e in G.to_graphtool().edges()]),
        'graphtool both ways': ((('graph_tool',),), lambda G: graphs.Graph.from_graphtool(G.to_graphtool())),
        'save+load': (any2, io('graphml', None)), 'save+load gml': (any2, io('gml', None)),
        'save+load gexf': ((('networkx',),), io('gexf', None)),
        'networkx file': ((('networkx',),), io('graphml', 'networkx')), 'networkx gexf': ((('networkx',),), io('gexf', 'networkx')),
        'graph-tool file': ((('graph_tool',),), io('graphml', 'graph-tool')), 'graph-tool gml': ((('graph_tool',),), io('gml', 'graph-tool')),
        'plot': ((('matplotlib',),), plot()), 'plot signal': ((('matplotlib',),), plot(vertex_color=np.arange(6.), backend='matplotlib', highlight=[1])), 'plot filter': ((('matplotlib',),), fplot),
        'plot qt': ((('pyqtgraph',),), None), 'spectrogram': ((('pyqtgraph',),), None),
        'simplex': ((('pyunlocbox',),), lambda G: learning.classification_tikhonov_simplex(G, np.arange(6) % 2, np.arange(6) < 4, tau=.5, verbosity='NONE', rtol=1e-6, maxit=200)),
    }


def missing(name, G):
    """Calls that open windows are only made without their library."""
    if name == 'plot qt':
        return G.plot(backend='pyqtgraph')
    return G.plot_spectrogram()


def lay(graphs, G, kind):
    H = graphs.Graph(G.W)
    H.set_coordinates(kind, seed=2)
    return H if not kind.startswith('lap') else np.abs(H.coords)


_EXACT = {}


def exact_nn(name):
    """What the FLANN calls give without FLANN."""
    if name not in _EXACT:
        from pygsp import graphs
        _EXACT[name] = flat([graphs.NNGraph(PTS, **dict(k, use_flann=False)) for k in FLANN[name]])
    return _EXACT[name]


def cases(tier):
    t = tier == 'thorough'
    subsets = [s for k in range(len(LIBS) + 1) for s in itertools.combinations(LIBS, k)]
    todo = [(s, 'absent') for s in subsets]
    todo += [(s, f) for s in subsets for f in FAULTS if f != 'absent' and s and (t or len(s) <= (2 if f == 'unloadable' else 1))]
    for i in range(0, len(todo), 8):
        yield dict(kind='subsets', todo=todo[i:i + 8], id=f'subsets-{i // 8}')
    for a in LIBS:
        yield dict(kind='changes', first=a, depth=3 if t else 2, id='changes-' + a)
    for s in [tuple(LIBS)] + [(l,) for l in LIBS] + [tuple(m for m in LIBS if m != l) for l in LIBS] + (list(itertools.combinations(LIBS, 2)) if t else []):
        yield dict(kind='fresh', libs=s, id='fresh-' + '-'.join(s))


_BASE = {}


def base(ctx, have):
    """Results with everything installed."""
    if not _BASE:
        for name, (alts, f) in calls().items():
            if f is not None and any(all(l in have for l in alt) for alt in alts):
                _BASE[name] = flat(f(graph()))
    return _BASE


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def check_all(have, blocked, ctx, what, want, names=None):
    c = calls()
    for name in names or c:
        alts, f = c[name]
        ok = any(all(l in have and l not in blocked for l in alt) for alt in alts)
        G = graph()
        before = snapshot(G)
        ctx.op()
        key = name.replace(' ', '-')
        if ok:
            if f is None:
                continue
            try:
                r = flat(f(G))
            except Exception as e:
                ctx.check(False, f'{what}: {name} raised {type(e).__name__}: {e}', key='works-' + key)
                continue
            w = want[name]
            if name.startswith('nn flann'):
                # FLANN is approximate: its results are compared with those of the exact search only where it is missing.
                w = want[name] if 'pyflann' not in blocked else exact_nn(name)
                if 'pyflann' in have and 'pyflann' not in blocked:
                    ctx.check(len(r) == len(w), f'{what}: {name} gives {len(r)} results instead of {len(w)}', key='result-' + key)
                    continue
            if ctx.check(len(r) == len(w), f'{what}: {name} gives {len(r)} results instead of {len(w)}', key='result-' + key):
                for x, y in zip(r, w):
                    # graph-tool writes six digits in GML
                    ctx.close(x, y, f'{what}: {name} gives another result', tol=1e-4 if 'gml' in name else 1e-6, key='result-' + key)
        else:
            try:
                r = f(G) if f is not None else missing(name, G)
            except ImportError as e:
                need = {l for a in alts for l in a}
                txt = str(e).lower().replace('_', '-')
                ctx.check(any(l.replace('_', '-') in txt for l in need), f'{what}: {name} does not say what is missing: {e}', key='message-' + key)
            except Exception as e:
                if name == 'save+load gexf' and 'graph_tool' in have and 'graph_tool' not in blocked:
                    continue  # GEXF is left to graph-tool, which rejects it itself
                ctx.check(False, f'{what}: {name} raised {type(e).__name__} instead of ImportError: {e}', key='raises-' + key)
            else:
                ctx.check(False, f'{what}: {name} succeeded without its library', key='succeeds-' + key)
        if name not in ('core', 'filter', 'learn', 'simplex', 'features', 'reduce', 'plot filter', 'spectrogram', 'layouts'):
            same(before, snapshot(G), ctx, f'{what}: {name}')
    ctx.trace()


def run_subsets(case, ctx):
    have = installed()
    want = base(ctx, have)
    for libs, fault in case['todo']:
        what = f'{"+".join(libs) or "nothing"} {fault}'
        with Block(libs, fault):
            check_all(have, libs, ctx, what, want)
        ctx.state(libs, fault)


def run_changes(case, ctx):
    """Libraries appear and disappear during the life of the process (installed in a notebook, for instance)."""
    have = installed()
    want = base(ctx, have)
    fast = ['core', 'nn flann', 'patches', 'to_networkx', 'save+load', 'graph-tool gml', 'networkx file', 'plot filter', 'plot qt', 'simplex', 'families']
    for seq in itertools.product(LIBS, repeat=case['depth'] - 1):
        seq = (case['first'],) + seq
        for i, l in enumerate(seq):
            with Block([l], 'absent' if i % 2 == 0 else 'unloadable'):
                check_all(have, [l], ctx, f'without {" then ".join(seq[:i + 1])}', want, fast)
        check_all(have, [], ctx, f'with everything again after {" then ".join(seq)}', want, fast)
        ctx.state(seq)


def run_fresh(case, ctx):
    """The package itself is imported without the libraries."""
    code = f'''
import sys; sys.path.insert(0, {ROOT!r}); sys.path.insert(0, {REPO!r})
from mc import core
from mc.p25 import Block, graph, calls
b = Block({case['libs']!r}, 'absent'); b.__enter__()
import logging; logging.disable(logging.CRITICAL)
import pygsp
bad = [m for m in sys.modules if m.split('.')[0] in b.tops]
assert not bad, bad
G = graph()
c = calls()
for n in ('core', 'filter', 'reduce', 'learn', 'features', 'families', 'layouts', 'nn', 'nn flann'):
    c[n][1](G)
repr(G); pygsp.filters.Filter.plot.__doc__
print('RESULT ok')
'''
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([sys.executable, '-c', code], cwd=ROOT, env=env, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Skip('the child process takes too long')
    ctx.op(10)
    ctx.trace()
    ctx.state(case['libs'])
    ctx.check('RESULT ok' in p.stdout, lambda: f'importing and using the package without {"+".join(case["libs"])}: {p.stderr[-400:]}', key='fresh')
