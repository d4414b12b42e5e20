"""P28: vertex features are what their definitions say."""
import itertools
import os
import subprocess
import sys

import numpy as np

from . import gen, ref
from .core import REPO, ROOT, Skip
from .obs import same, snapshot

BOUNDS = dict(
    quick='average adjacency degree on all undirected graphs with <=5 vertices (all labellings, two weights) and large ones; localized kernels, their norms and spectrograms on all connected graphs '
          'with <=4 vertices and medium graphs x both Laplacians x 8 filter banks x exact and polynomial filtering x states of the graph; atoms and numbers of samples; spectrogram plots',
    thorough='all graphs with 6 vertices for degrees, 5 vertices for the others')
CHUNK = 4
ASSUMPTIONS = ['undirected graphs with an edge; no self-loops for average degrees', 'polynomial filters for approximate filtering']
B = 60


def cases(tier):
    t = tier == 'thorough'
    g = []
    for n in (1, 2, 3, 4, 5):
        g += list(gen.undirected(n, (0, 1)))
    g += list(gen.undirected(4, (0, .3, 2.5))) + (gen.iso_classes(6, (0, 1)) if t else [])
    for k in range(0, len(g), B * 5):
        yield dict(kind='degree', graphs=g[k:k + B * 5])
    yield dict(kind='degree', graphs=[W for _, W in gen.medium()], id='degree-medium')
    for name in gen.LARGE_U + gen.HUGE[:1]:
        if not name.startswith('loops'):
            yield dict(kind='degree', graphs=[], name=name, id='degree-' + name)
    h = []
    for n in (2, 3, 4) + ((5,) if t else ()):
        h += [W for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W)] + ([gen.weighted(gen.full(n))] if n > 2 else [])
    h += [[[.5, 1, 0], [1, 0, 2], [0, 2, 0]]]
    for k, W in enumerate(h):
        yield dict(kind='tig', W=W, id=f'tig-{k}')
        yield dict(kind='spectrogram', W=W, id=f'spectrogram-{k}')
        if k % 4 == 0:
            yield dict(kind='history', W=W, depth=4 if t else 3, id=f'history-{k}')
    for name, W in gen.medium():
        yield dict(kind='tig', W=W, id='tig-' + name)
        yield dict(kind='spectrogram', W=W, id='spectrogram-' + name)
    yield dict(kind='plot', id='plot')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_degree(case, ctx):
    from pygsp import features, graphs
    for g in case['graphs'] or [gen.large(case['name'])]:
        W = ref.arr(g)
        n = len(W)
        A = W > 0
        d = A.sum(1)
        want = [np.mean([d[j] for j in range(n) if A[i, j] or i == j]) for i in range(n)]
        for state in (0, 1):
            G = graphs.Graph(W.copy())
            if state:
                G.d, G.L
            ctx.op()
            got = np.asarray(features.compute_avg_adj_deg(G), dtype=float)
            ctx.prefix = f'W={g if n < 6 else n} '
            ctx.check(got.size == n, f'shape {got.shape}', key='degree-shape')
            ctx.close(got.ravel(), np.array(want), 'average adjacency degree', tol=1e-12, scale=n, key='degree')
            ctx.close(G.W, W, 'weights', tol=0, key='changed')
        ctx.state(W, got)
        ctx.trace()


def banks(G):
    """name -> filter bank, kernels, polynomial degree (None: any function)"""
    from pygsp import filters
    hi = G.lmax

    def poly(*c):
        return lambda x, c=c: sum(v * (x / hi) ** k for k, v in enumerate(c))
    one, two, three = poly(1, -2, 3), poly(0, 1), poly(-1, 0, 0, 2)
    yield 'one', [one], 3
    yield 'two', [one, two], 3
    yield 'three', [two, three, one], 3
    yield 'repeated', [three, three], 3
    yield 'bandpass', [lambda x: 1. * (np.abs(x - hi / 2) < hi / 3.03)], None
    yield 'heat', [lambda x: np.exp(-3 * x / hi)], None
    yield 'heats', [lambda x: np.exp(-3 * x / hi), lambda x: np.exp(-9 * x / hi)], None
    yield 'zero', [lambda x: 0 * x, one], 3


def run_tig(case, ctx):
    from pygsp import features, filters, graphs
    W = ref.arr(case['W'])
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        for state in ('estimated', 'full', 'fresh'):
            G = graphs.Graph(W.copy(), lap_type=lt)
            if state == 'estimated':
                G.estimate_lmax()
            elif state == 'full':
                G.compute_fourier_basis()
            before = snapshot(G)
            for name, kernels, deg in banks(G):
                f = filters.Filter(G, kernels)
                mats = [ref.fun(L, k) for k in kernels]
                for kw in (dict(method='exact'), dict(method='chebyshev', order=12), dict(), dict(order=5), dict(method='chebyshev', order=1)):
                    exact = kw.get('method') == 'exact'
                    approx = not exact and deg is None
                    low = kw.get('order') == 1      # too low for the polynomials: the features of the approximation
                    ctx.prefix = f'W={case["W"] if n < 5 else n} {lt} {state} {name} {kw} '
                    ctx.op(2)
                    T = features.compute_tig(f, **kw)
                    N = features.compute_norm_tig(f, **kw)
                    if len(kernels) == 1:
                        T, N = [T], [N]
                    if not ctx.check(isinstance(T, list) and len(T) == len(kernels) and isinstance(N, list) and len(N) == len(kernels), f'{len(T)} and {len(N)} results for {len(kernels)} kernels', key='number'):
                        continue
                    for i, M in enumerate(mats):
                        A, b = np.asarray(T[i], dtype=float), np.asarray(N[i], dtype=float)
                        if not ctx.check(A.shape == (n, n) and b.shape == (n,), f'kernel {i}: shapes {A.shape} {b.shape}', key='shape'):
                            continue
                        if approx or low:
                            M = filters.Filter(G, kernels[i]).filter(np.identity(n), **kw)
                            M = np.asarray(M).reshape(n, n)
                        ctx.close(A, M, f'kernel {i}: g(L)', tol=1e-8, scale=max(1, np.abs(M).max()), key='tig')
                        ctx.close(b, np.sqrt((M ** 2).sum(1)), f'kernel {i}: norms', tol=1e-8, scale=max(1, np.abs(M).max()), key='norm')
                        # one kernel of the bank at a time
                        if len(kernels) > 1:
                            ctx.op(2)
                            ctx.close(features.compute_tig(f, i=i, **kw), M, f'kernel {i} alone', tol=1e-8, scale=max(1, np.abs(M).max()), key='tig-one')
                            ctx.close(features.compute_norm_tig(f, i=i, **kw), np.sqrt((M ** 2).sum(1)), f'norm of kernel {i} alone', tol=1e-8, scale=max(1, np.abs(M).max()), key='norm-one')
                    ctx.state(lt, name, kw, b)
            if state != 'fresh':
                after = snapshot(G)
                for k in ('W', 'L'):
                    ctx.close(after[k], before[k], k, tol=1e-12, key='changed')
        ctx.trace()


def run_spectrogram(case, ctx):
    from pygsp import features, graphs
    W = ref.arr(case['W'])
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        e, U = np.linalg.eigh(L)
        e = np.clip(e, 0, None)
        for state in ('estimated', 'full'):
            G = graphs.Graph(W.copy(), lap_type=lt)
            G.estimate_lmax() if state == 'estimated' else G.compute_fourier_basis()
            hi = G.lmax
            for M in (1, 2, 5, 13):
                for name, atom in (('default', None), ('gauss', lambda x: np.exp(-4 * (x / hi) ** 2)), ('skew', lambda x: 1 + x / hi - (x / hi) ** 2), ('box', lambda x: 1. * (np.abs(x) < hi / 3.07))):
                    ctx.prefix = f'W={case["W"] if n < 5 else n} {lt} {state} M={M} atom {name} '
                    f = atom or (lambda x: np.exp(-M * (x / hi) ** 2))
                    want = np.zeros((n, M))
                    for j, s in enumerate(np.linspace(0, hi, M)):
                        want[:, j] = (((U * f(e - s)) @ U.T) ** 2).sum(1)
                    ctx.op()
                    kw = dict(M=M, method='exact')
                    if atom is not None:
                        kw['atom'] = atom
                    if state == 'estimated':    # exact filtering would replace the estimate
                        if name in ('skew', 'gauss', 'default') and M <= 5:
                            kw.update(method='chebyshev', order=40)
                            got = np.asarray(features.compute_spectrogram(G, **kw), dtype=float)
                            if ctx.check(got.shape == (n, M), f'shape {got.shape}', key='shape'):
                                ctx.close(got, want, 'spectrogram', tol=1e-5, scale=max(1, np.abs(want).max()), key='chebyshev')
                                ctx.close(G.spectr, got, 'G.spectr', tol=0, key='stored')
                        continue
                    got = np.asarray(features.compute_spectrogram(G, **kw), dtype=float)
                    if not ctx.check(got.shape == (n, M), f'shape {got.shape}', key='shape'):
                        continue
                    ctx.close(got, want, 'spectrogram', tol=1e-8, scale=max(1, np.abs(want).max()), key='spectrogram')
                    ctx.close(G.spectr, want, 'G.spectr', tol=1e-8, scale=max(1, np.abs(want).max()), key='stored')
                    if name in ('skew', 'gauss', 'default') and M <= 5:
                        for kk in (dict(order=40), dict(method='chebyshev', order=40)):
                            ctx.op()
                            ctx.close(features.compute_spectrogram(G, **dict(kw, **kk, **({} if 'method' in kk else dict(method='chebyshev')))), want, f'spectrogram {kk}', tol=1e-5, scale=max(1, np.abs(want).max()), key='chebyshev')
                    ctx.state(lt, state, M, name, got)
            ctx.close(G.W, W, 'weights', tol=0, key='changed')
            ctx.close(G.L, L, 'Laplacian', tol=1e-12, scale=max(1, np.abs(L).max()), key='changed')
        ctx.trace()
    G = graphs.Graph(W.copy())
    G.estimate_lmax()
    S = np.asarray(features.compute_spectrogram(G))
    ctx.check(S.shape == (n, 100), f'default spectrogram of shape {S.shape}', key='shape')


def history_ops(hi):
    return dict(
        s4=dict(M=4), s7=dict(M=7), e4=dict(M=4, method='exact'), skew=dict(M=4, atom=lambda x: 1 + x / 3 - x ** 2 / 50), low=dict(M=4, order=3), first=dict(M=1),
        normalized='normalized', combinatorial='combinatorial', fourier=None, bounds='bounds', lanczos='lanczos')


def run_history(case, ctx):
    """Whatever was computed before, a spectrogram is the one of a fresh graph with this Laplacian, basis and largest eigenvalue."""
    from pygsp import features, graphs
    W = ref.arr(case['W'])
    ops = history_ops(1)
    spectrograms = [o for o in ops if isinstance(ops[o], dict)]

    def fresh(lt, full, method):
        G = graphs.Graph(W.copy(), lap_type=lt)
        if full:
            G.compute_fourier_basis()
        if method is not None and method != 'fourier':
            G.estimate_lmax(method)
        return G

    for seq in itertools.product(ops, repeat=case['depth'] - 1):
        for last in spectrograms:
            G = graphs.Graph(W.copy())
            lt, full, method = 'combinatorial', False, None
            ctx.trace()
            for o in seq + (last,):
                ctx.op()
                a = ops[o]
                if isinstance(a, dict):
                    want = None
                    if o == last:
                        H = fresh(lt, full, method)
                        want = features.compute_spectrogram(H, **a)
                    got = features.compute_spectrogram(G, **a)
                    if method is None:
                        method = 'lanczos'
                    if a.get('method') == 'exact' and not full:
                        full, method = True, 'fourier'
                    if want is not None:
                        ctx.prefix = f'W={case["W"]} {"+".join(seq)}+{last}: '
                        ctx.close(got, want, 'spectrogram', tol=1e-9, scale=max(1, np.abs(want).max()), key='history')
                        ctx.close(G.spectr, want, 'G.spectr', tol=1e-9, scale=max(1, np.abs(want).max()), key='history-stored')
                elif a in ('normalized', 'combinatorial'):
                    G.compute_laplacian(a)
                    if a != lt:
                        lt, full, method = a, False, None
                elif a is None:
                    G.compute_fourier_basis()
                    if not full:
                        full, method = True, 'fourier'
                else:
                    G.estimate_lmax(a)
                    method = a
            ctx.state(lt, full, method, last)


QT = '''
import sys, os
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
sys.path.insert(0, {root!r}); sys.path.insert(0, {repo!r})
import itertools
import numpy as np
from mc import gen, ref
import logging; logging.disable(logging.CRITICAL)
try:
    import pyqtgraph as qtg
    app = qtg.mkQApp()
except Exception as e:
    print('UNAVAILABLE', e); raise SystemExit
from pygsp import graphs, plotting, features
count = 0
bad = []
def check(c, what):
    global count
    count += 1
    if not c: bad.append(what)
cm = qtg.ColorMap(np.array([0, .25, .5, .75, 1]), np.array([[20, 133, 212, 255], [53, 42, 135, 255], [48, 174, 170, 255], [210, 184, 87, 255], [249, 251, 14, 255]], dtype=np.ubyte))
for W in [gen.weighted(gen.path(3)), gen.star(4), gen.weighted(gen.grid(2, 2))]:
    n = len(W)
    for M in (None, 1, 4):
        for order in [None] + list(itertools.permutations(range(n))):
            G = graphs.Graph(ref.arr(W))
            G.compute_fourier_basis()
            if M is not None:
                features.compute_spectrogram(G, M=M, method='exact')
            G.plot_spectrogram(None if order is None else list(order))
            S = np.asarray(G.spectr)
            m = S.shape[1]
            w = plotting._qtg_widgets[-1]
            sc = [i for i in w.scene().items() if isinstance(i, qtg.ScatterPlotItem)]
            what = (n, M, order)
            check(len(sc) == 1 and len(sc[0].data) == n * m, what + ('points',))
            d = sc[0].data
            x, y = np.asarray(d['x'], dtype=float), np.asarray(d['y'], dtype=float)
            check(sorted(zip(x, y)) == [(i, j) for i in range(n) for j in range(m)], what + ('grid',))
            want = (S - S.min()) / (S.max() - S.min()) if S.max() > S.min() else S * 0
            o = np.array(order if order is not None else range(n))
            col = np.asarray(cm.map(want[o[x.astype(int)], y.astype(int)], 'byte'), dtype=float)
            have = np.array([b.color().getRgb() for b in d['brush']], dtype=float)
            if S.max() - S.min() > 1e-9:
                check(np.abs(col - have).max() <= 2, what + ('colors',))
            plotting.close_all()
print('CHECKS', count)
for b in bad[:40]: print('BAD', b)
print('END')
sys.stdout.flush()
os._exit(0)
'''


def run_plot(case, ctx):
    code = QT.format(root=ROOT, repo=REPO)
    env = dict(os.environ, QT_QPA_PLATFORM='offscreen', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([sys.executable, '-c', code], cwd=ROOT, env=env, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Skip('the child process takes too long')
    if 'UNAVAILABLE' in p.stdout or p.returncode < 0:
        raise Skip('no Qt here')
    ctx.trace()
    ctx.state('plot')
    if not ctx.check('END' in p.stdout, lambda: f'spectrogram plots failed: {p.stderr[-400:]}', key='qt-failed'):
        return
    for l in p.stdout.splitlines():
        if l.startswith('CHECKS'):
            ctx.op(int(l.split()[1]))
        if l.startswith('BAD'):
            ctx.check(False, f'spectrogram: {l[4:300]}', key='qt-spectrogram')
