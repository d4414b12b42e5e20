"""P13: simplex-constrained classification returns the constrained optimum."""
import itertools

import numpy as np

from . import gen, ref
from .p12 import masks

BOUNDS = dict(
    quick='0/1 classes N<=4 with an edge, weighted N=3, medium graphs; both Laplacians; every non-empty mask; every labelling with <=3 '
          'classes (N<=3) or 2 classes (N=4); tau in {0.1, 2}; tau in {20, 100, 1000} on 4 graphs; large named graphs (see DESIGN.md)',
    thorough='quick plus 0/1 classes N=5, directed N=3, tau in {0.02, 0.1, 2, 10}')
CHUNK = 1
B = 1
ASSUMPTIONS = ['the solver is asked for a relative tolerance of 1e-12; optimality is judged by the projected-gradient certificate up to 2e-3',
               'graphs with at least one edge']


def cases(tier):
    g = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W)]
    g += [W for W in gen.iso_classes(3, (0, 1, 2.5)) if gen.has_edge(W)][::3]
    taus = [0.1, 2]
    if tier == 'thorough':
        g += [W for W in gen.iso_classes(5, (0, 1)) + gen.iso_classes(3, (0, 1), None, 'directed') if gen.has_edge(W)]
        taus = [0.02, 0.1, 2, 10]
    for W in g:
        for tau in taus:
            yield dict(W=W, tau=tau)
    for name, W in gen.medium():
        yield dict(W=W, tau=0.1, id=name)
    for W in [gen.path(3), gen.weighted(gen.full(4)), gen.star(4), gen.ring(5)] + ([gen.weighted(gen.grid(2, 3)), gen.ring(8)] if tier == 'thorough' else []):
        for tau in (20, 100, 1000):
            yield dict(kind='heavy', W=W, tau=tau, id=f'heavy-{len(W)}-{tau}')
    for name, ks in (('quasi90', (2, 20)), ('grid11x13', (7,)), ('full40', (20, 150))):
        for k in ks:
            yield dict(name=name, k=k, tau=0.1, id=f'large-{name}-{k}')


def proj_row(v):
    """Projection on the simplex by trying every support size."""
    u = np.sort(v)[::-1]
    best = None
    for k in range(1, len(v) + 1):
        t = (u[:k].sum() - 1) / k
        if u[k - 1] - t > 0:
            best = t
    return np.maximum(v - best, 0)


def run_heavy(case, ctx):
    """A strong regularization: certified by the duality (Frank-Wolfe) gap, which does not shrink with the step."""
    from pygsp import graphs, learning
    W, tau = ref.arr(case['W']), case['tau']
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        G = graphs.Graph(W.copy(), lap_type=lt)
        G.compute_fourier_basis()
        for M in masks(n, W):
            y = np.arange(n) % 3
            if not M.any() or not y[M].any() or (M.sum() > 2 and M.sum() < n - 1 and n > 4):
                continue
            ctx.trace()
            ctx.prefix = f'W={case["W"]} {lt} tau={tau} M={M.astype(int).tolist()} '
            k = y[M].max() + 1
            Y = np.zeros((n, k))
            Y[M, y[M]] = 1
            X = learning.classification_tikhonov_simplex(G, y, M, tau, verbosity='NONE', rtol=1e-12, maxit=5000)
            ctx.op()
            ctx.check((X >= 0).all() and np.abs(X.sum(1) - 1).max() < 1e-9, f'infeasible logits {X}')
            grad = 2 * (np.where(M[:, None], X - Y, 0) + tau * L @ X)
            gap = (grad * X).sum() - grad.min(1).sum()
            ctx.check(gap <= .1, f'not optimal: the objective may be lowered by up to {gap:.1e}: {X}')
            ctx.state(X, tau)


def run(case, ctx):
    from pygsp import graphs, learning
    if case.get('kind') == 'heavy':
        return run_heavy(case, ctx)
    W = gen.large(case['name']) if 'name' in case else ref.arr(case['W'])
    n, tau = len(W), case['tau']
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        t = np.linalg.eigvalsh(L)[-1]
        if t < 1e-9:
            continue
        G = graphs.Graph(W.copy(), lap_type=lt)
        labels = list(itertools.product((0, 1, 2), repeat=n)) if n <= 3 else \
            list(itertools.product((0, 1), repeat=n)) if n == 4 else [[(i * 7 // 3 + (i % 3 == 0) * (case.get('k', 3) - 3)) % case.get('k', 3) for i in range(n)]] \
            if case.get('k', 3) > n else [[(i * 7 // 3) % case.get('k', 3) for i in range(n)]]
        ms = [m for m in masks(n, W) if m.any()]
        if n > 5:
            ms = ms[:3]
        if n > 30:
            ms = [np.arange(n) % 3 != 1, np.arange(n) >= n // 3]
        step = 0.5 / (1 + tau * t)
        seen = set()
        for M in ms:
            for lab in labels:
                y = np.array(lab)
                key = (tuple(M), tuple(np.where(M, y, 0)))
                if key in seen:
                    continue
                seen.add(key)
                ctx.trace()
                k = y[M].max() + 1
                Y = np.zeros((n, k))
                Y[M, y[M]] = 1
                ctx.prefix = f'W={case["W"]} {lt} tau={tau} M={M.astype(int).tolist()} y={lab} ' if n < 7 else f'{case["id"]} {lt} tau={tau} '
                y0 = y.copy()
                X = learning.classification_tikhonov_simplex(G, y, M, tau, verbosity='NONE', rtol=1e-12, maxit=400)
                ctx.op()
                ctx.check((y == y0).all(), 'labels modified')
                if not ctx.check(np.shape(X) == (n, k), f'shape {np.shape(X)}'):
                    continue
                ctx.check((X >= 0).all(), f'negative logits {X.min()}')
                ctx.close(X.sum(1), np.ones(n), 'logits do not sum to one', tol=1e-9)
                grad = 2 * (np.where(M[:, None], X - Y, 0) + tau * L @ X)
                P = np.stack([proj_row(r) for r in X - step * grad])
                d = np.abs(P - X).max()
                ctx.check(d <= 2e-3, f'not optimal: the projected gradient step moves by {d:.1e}: {X}')
                ctx.state(X, tau)
        y = np.array([i % 2 for i in range(n)])
        M = np.arange(n) % 3 != 1
        X = learning.classification_tikhonov_simplex(G, y, M, tau, verbosity='NONE')
        ctx.op()
        ctx.check((X >= 0).all() and np.abs(X.sum(1) - 1).max() < 1e-9, 'default settings: infeasible logits')
        for bad in (0, -1):
            ctx.raises(lambda: learning.classification_tikhonov_simplex(G, y, M, bad), f'tau={bad} accepted', ValueError)
