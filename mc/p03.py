"""P03: gradient, divergence and Dirichlet energy agree with the edges and the Laplacian."""
import itertools

import numpy as np

from . import gen, ref
from .p02 import families

BOUNDS = dict(
    quick='same graph families as P02 (batched); all signals in {-1,0,1}^N for N<=3, all 0/1 signals N<=5, '
          'all unit edge signals; both Laplacians; shapes (N,), (N,1), (N,2), list, int; large named graphs (see DESIGN.md)',
    thorough='P02 thorough families; all {-1,0,1}^N signals for N<=5')
CHUNK = 20
B = 24
ASSUMPTIONS = ['non-negative weights']


def cases(tier):
    g = []
    for kind, n, w, loops in families(tier):
        g += list((gen.undirected if kind == 'u' else gen.directed)(n, w, loops))
    for k in range(0, len(g), B):
        yield dict(graphs=g[k:k + B], tier=tier)
    for name, W in gen.medium():
        yield dict(graphs=[W], id=name, tier=tier)
        yield dict(graphs=[[[v * (1 + (j > i)) for j, v in enumerate(r)] for i, r in enumerate(W)]],
                   id='dir-' + name, tier=tier)
    for name in gen.LARGE + gen.HUGE:
        yield dict(name=name, id='large-' + name, tier=tier)


def signals(n, tier):
    if n <= (3 if tier == 'quick' else 5):
        X = list(itertools.product((0, 1, -1), repeat=n))
    elif n <= 5:
        X = list(itertools.product((0, 1), repeat=n))
    else:
        X = list(np.eye(n)) + [np.arange(n)] if n < 30 else [np.arange(n), np.ones(n), np.eye(n)[n - 1], np.eye(n)[n // 2]] + [np.cos(np.arange(n) * k) for k in range(1, 36)]
    return np.array(X, dtype=float).T


def run(case, ctx):
    from pygsp import graphs
    for g in [gen.large(case['name'])] if 'name' in case else case['graphs']:
        W = ref.arr(g)
        n = len(W)
        S = (W + W.T) / 2
        directed = ref.is_directed(W)
        G = graphs.Graph(W.copy())
        X = signals(n, case['tier'])
        for lt in ('combinatorial', 'normalized'):
            ctx.prefix = f'W={g} {lt} ' if n < 6 else lt + ' '
            ctx.trace()
            G.compute_laplacian(lt)
            G.compute_differential_operator()
            ctx.op(2)
            D = G.D.toarray()
            ne = len(ref.edges(W))
            sc = max(1.0, np.abs(W).max()) if lt == 'combinatorial' else 1.0
            if not ctx.check(D.shape == (n, ne), f'D has shape {D.shape}'):
                continue
            L = ref.laplacian(W, lt)
            ctx.close(D @ D.T, L, 'D D^T == L', tol=1e-10, scale=sc)
            # edge-by-edge definition, in the order of the edge list
            s, t, v = G.get_edge_list()
            norm = np.ones(n) if lt == 'combinatorial' else \
                np.array([1 / np.sqrt(d) if d > 0 else 0 for d in S.sum(1)])
            f = np.sqrt(np.array([W[a, b] for a, b in zip(s, t)]) / (2 if directed else 1))
            Xn = X * norm[:, None]
            want = (Xn[t] - Xn[s]) * f[:, None] if ne else np.zeros((0, X.shape[1]))
            got = G.grad(X)
            ctx.op()
            if not ctx.close(got, want, 'gradient per edge', tol=1e-10, scale=np.sqrt(sc) * max(1, np.abs(X).max())):
                continue
            # divergence is the adjoint of the gradient, on every unit edge signal
            Y = np.eye(ne) if ne < 2000 else np.eye(ne)[:, ::ne // 500]
            Z = G.div(Y) if ne else np.zeros((n, 0))
            ctx.op()
            inc = np.zeros((n, ne))
            for k, (a, b) in enumerate(zip(s, t)):
                inc[b, k] += f[k] * norm[b]
                inc[a, k] -= f[k] * norm[a]
            ctx.close(Z, inc @ Y, 'divergence of unit edge signals', tol=1e-10, scale=np.sqrt(sc))
            ctx.close(Y.T @ got, Z.T @ X, 'adjointness', tol=1e-10, scale=np.sqrt(sc) * max(1, np.abs(X).max()))
            ctx.close(G.div(got), L @ X, 'div(grad(x)) == L x', tol=1e-10, scale=sc * max(1, np.abs(X).max()))
            # energy, three ways, one signal at a time and with several call shapes
            for k in range(X.shape[1]):
                x = X[:, k]
                en = G.dirichlet_energy(x)
                ctx.op()
                xn = Xn[:, k]
                want_e = .5 * (S * (xn[None, :] - xn[:, None]) ** 2).sum()
                ctx.check(np.ndim(en) == 0, 'energy is not a scalar')
                ctx.close(en, want_e, f'energy of {x.tolist()}' if n < 30 else 'energy', tol=1e-10, scale=max(sc, want_e))
                ctx.close((got[:, k] ** 2).sum(), want_e, 'squared gradient norm', tol=1e-10, scale=max(sc, want_e))
            x = np.arange(1, n + 1)
            ctx.op(5)
            ctx.close(G.grad(x.tolist()), G.grad(x.astype(float)), 'grad of a list')
            ctx.close(G.grad(x[:, None]), np.asarray(G.grad(x))[:, None], 'grad of a column')
            ctx.close(G.dirichlet_energy(x.tolist()), G.dirichlet_energy(x.astype(float)), 'energy of a list')
            z = X[:, -1] * (1 - 2j) + x * 1j
            gz, sz = G.grad(z), np.sqrt(sc) * 3 * (n + 1)
            ctx.op(2)
            ctx.close(gz, ((z * norm)[t] - (z * norm)[s]) * f if ne else np.zeros(0), 'gradient of a complex signal', tol=1e-10, scale=sz)
            ctx.close(G.div(gz), L @ z, 'div(grad(z)) == L z of a complex signal', tol=1e-10, scale=sz * np.sqrt(sc))
            for dt in ('int8', 'uint8', 'bool', 'int64', 'float32', 'float16'):
                xs, ys = (np.arange(n) % 3).astype(dt), (np.arange(ne) % 3).astype(dt)
                ctx.op(3)
                tol, big = (1e-6 if dt.startswith('float') else 1e-10), 3 * np.sqrt(sc)
                ctx.close(G.grad(xs), (xs.astype(float) * norm)[t] * f - (xs.astype(float) * norm)[s] * f if ne else np.zeros(0), f'gradient of a signal of {dt}', tol=tol, scale=big)
                ctx.close(G.div(ys), inc @ ys.astype(float), f'divergence of a flow of {dt}', tol=tol, scale=big * n)
                ctx.close(G.dirichlet_energy(xs), xs.astype(float) @ L @ xs.astype(float), f'energy of a signal of {dt}', tol=tol, scale=9 * sc * n)
            # as many signals as vertices, as edges, one more, one less: the axes must not be confused
            for k in sorted({1, 2, n - 1, n, n + 1, ne, ne + 1} - {0}) if max(n, ne) < 60 else (n,):
                xs, ys = np.sin(np.arange(n * k) * 1.3).reshape(n, k), np.cos(np.arange(ne * k) * 1.7).reshape(ne, k)
                ctx.op(2)
                ctx.close(G.grad(xs), (xs * norm[:, None])[t] * f[:, None] - (xs * norm[:, None])[s] * f[:, None] if ne else np.zeros((0, k)),
                          f'gradient of {k} signals', tol=1e-10, scale=3 * np.sqrt(sc))
                if ne:
                    ctx.close(G.div(ys), inc @ ys, f'divergence of {k} flows', tol=1e-10, scale=3 * np.sqrt(sc) * n)
                ctx.op()
                ctx.close(G.dirichlet_energy(xs), xs.T @ L @ xs, f'x^T L x of {k} signals', tol=1e-10, scale=max(1, n * sc))
            y = list(range(1, ne + 1))
            ctx.close(G.div(y), inc @ np.array(y, dtype=float) if ne else np.zeros(n), 'div of a list',
                      scale=np.sqrt(sc) * max(1, ne) ** 2)
            ctx.state(G.D, lt)
        for bad in (n - 1, n + 1):
            ctx.raises(lambda: G.grad(np.zeros(bad)), 'grad of wrong length accepted', ValueError)
            ctx.raises(lambda: G.dirichlet_energy(np.zeros(bad)), 'energy of wrong length accepted', ValueError)
        for bad in (ne + 1,) + ((ne - 1,) if ne else ()):
            ctx.raises(lambda: G.div(np.zeros(bad)), 'div of wrong length accepted', ValueError)
