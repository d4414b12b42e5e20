"""Observation of a live Graph object against the reference model of its weights."""
import copy

import numpy as np

from . import ref

OTHER = dict(combinatorial='normalized', normalized='combinatorial')


def observe(G, W, lt, ctx, signals=None, deep=True):
    """Read everything a user can read and compare with the model.  Works on a copy:
    reading fills caches, which is itself a transition."""
    G = copy.deepcopy(G)
    n = len(W)
    L = ref.laplacian(W, lt)
    sc = max(1.0, np.abs(L).max())
    ctx.op(12)
    ctx.close(G.W, W, 'W', tol=0)
    ctx.check(G.lap_type == lt, f'lap_type {G.lap_type}')
    ctx.check(G.N == n and G.n_edges == len(ref.edges(W)), 'vertex/edge counts')
    ctx.close(G.L, L, 'L', tol=1e-10, scale=sc)
    ctx.close(np.ravel(G.dw), ref.dw(W), 'dw')
    ctx.close(np.ravel(G.d), ref.deg(W), 'd')
    ctx.close(G.A.toarray() != 0, W > 0, 'A')
    ctx.check(bool(G.is_connected()) == ref.strongly_connected(W), 'is_connected')
    ctx.check(bool(G.is_directed()) == ref.is_directed(W), 'is_directed')
    t = float(np.linalg.eigvalsh(L)[-1])
    lm = G.lmax
    if ctx.check(lm is not None and np.isfinite(lm), f'lmax is {lm!r}'):
        ctx.check(t * (1 - 1e-9) <= lm, f'lmax {lm} below the spectrum {t}')
        up = 2 if lt == 'normalized' else 2 * ref.dw(W).max()
        ctx.check(lm <= max(up, 1.0101 * t) * (1 + 1e-9), f'lmax {lm} above every bound (true {t})')
    D = G.D.toarray()
    ctx.close(D @ D.T, L, 'D D^T', tol=1e-9, scale=sc)
    x = np.cos(np.arange(1, n + 1) * 1.7)
    g = G.grad(x)
    ctx.close(G.dirichlet_energy(x), x @ L @ x, 'energy', tol=1e-9, scale=sc)
    ctx.close((g ** 2).sum(), x @ L @ x, 'gradient energy', tol=1e-9, scale=sc)
    ctx.close(G.div(g), L @ x, 'div grad', tol=1e-9, scale=sc)
    U, e = G.U, G.e
    m = len(e)
    ctx.check(U.shape == (n, m), f'U {U.shape} and e {e.shape} disagree')
    ctx.close(L @ U, U * e, 'L U = U e', tol=1e-7, scale=sc)
    ctx.close(U.T @ U, np.eye(m), 'U orthonormal', tol=1e-7)
    ctx.close(e, np.clip(np.linalg.eigvalsh(L)[:m], 0, None), 'spectrum', tol=1e-7, scale=sc)
    ctx.close(G.gft(x), U.T @ x, 'gft', tol=1e-9)
    if signals is not None:
        ctx.check(sorted(G.signals) == sorted(signals), f'signals {sorted(G.signals)}')
        for k in signals:
            if k in G.signals:
                ctx.close(G.signals[k], signals[k], f'signal {k}', tol=0)
    if deep:
        from pygsp import filters
        f = filters.Filter(G, [lambda v: 1 / (1 + v), lambda v: v * v - 3 * v])
        G.compute_fourier_basis()
        ctx.op(4)
        e2, U2 = G.e, G.U
        ctx.close((U2 * e2) @ U2.T, L, 'full basis', tol=1e-9, scale=sc)
        want = np.stack([ref.fun(L, lambda v: 1 / (1 + v)) @ x, L @ L @ x - 3 * L @ x], 1)
        ctx.close(f.filter(x, method='exact'), want, 'exact filtering', tol=1e-8, scale=sc * sc)
        ctx.close(f.filter(x, method='chebyshev', order=30)[:, 1], want[:, 1], 'chebyshev filtering', tol=1e-8,
                  scale=sc * sc * 10)
        ctx.check(G.coherence is not None and abs(G.coherence - np.abs(U2).max()) < 1e-9, f'coherence {G.coherence}')
        ctx.check(t * (1 - 1e-9) <= G.lmax, f'lmax {G.lmax} below the spectrum {t} after the full basis')


def snapshot(G):
    """Publicly visible values that a failed call must not change (read on a copy)."""
    G = copy.deepcopy(G)
    out = dict(lap_type=G.lap_type, W=G.W.toarray(), L=G.L.toarray(), signals={k: np.array(v) for k, v in G.signals.items()},
               coords=np.array(G.coords) if hasattr(G, 'coords') else None,
               plotting=repr(sorted(G.plotting.items(), key=str)), N=G.N, Ne=G.Ne)
    for a in ('lmax', 'D', 'e', 'U', 'coherence', 'd', 'dw'):
        v = getattr(G, a)
        out[a] = v.toarray() if hasattr(v, 'toarray') else np.array(v)
    return out


def same(a, b, ctx, what):
    ctx.op()
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            ctx.check(sorted(x) == sorted(y) and all(np.array_equal(x[s], y[s]) for s in x), f'{what} changed {k}')
        elif isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype != object:
            ctx.close(y, x, f'{what} changed {k}', tol=1e-12)
        else:
            ctx.check((x is None) == (y is None) and str(x) == str(y), lambda: f'{what} changed {k}: {x!r} -> {y!r}')
