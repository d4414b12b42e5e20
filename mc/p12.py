"""P12: Tikhonov regression and classification solve the stated problem."""
import itertools

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='0/1 and weighted classes N<=4, 0/1 classes N=5, directed classes N=3, medium graphs; both Laplacians; every mask; a basis '
          'of measurements plus integer / column / multi-signal / NaN-where-unobserved ones; tau in {0, 0.05, 1, 20}; '
          'every labelling with <=3 classes for N<=4; large named graphs (see DESIGN.md)',
    thorough='quick plus all labelled N=4 {0,1,2.5}, classes N=5 {0,1,2}, 0/1 classes N=6, tau in {0,1e-3,0.05,1,20,1e3}')
CHUNK = 2
B = 3
ASSUMPTIONS = ['tau > 0 is solved iteratively: optimality is required up to a relative residual of 1e-4',
               'tau = 0: every connected component holds an observation (the minimizer is otherwise not unique)']


def cases(tier):
    g = [W for n in (1, 2, 3, 4) for W in gen.iso_classes(n, (0, 1))] + gen.iso_classes(3, (0, 1, 2.5))
    g += gen.iso_classes(3, (0, 1), None, 'directed') + gen.iso_classes(5, (0, 1)) + gen.iso_classes(2, (0, 1), (0, 1.5))
    taus = [0, 0.05, 1, 20]
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + gen.iso_classes(5, (0, 1, 2)) + gen.iso_classes(6, (0, 1))
        taus += [1e-3, 1e3]
    for k in range(0, len(g), B):
        yield dict(kind='reg', graphs=g[k:k + B], taus=taus)
        if len(g[k]) <= 4:
            yield dict(kind='cls', graphs=g[k:k + B], taus=[t for t in taus if t in (0, 0.05, 1)])
    for name, W in gen.medium():
        yield dict(kind='reg', graphs=[W], taus=taus, id='reg-' + name)
        yield dict(kind='cls', graphs=[W], taus=[0, 0.05], id='cls-' + name)
    for name in ('quasi90', 'path130', 'many', 'dirloops110', 'distinct520') + (('quasi260', 'grid11x13') if tier == 'thorough' else ()):
        yield dict(kind='large', name=name, id='large-' + name)


def masks(n, W):
    if n <= 5:
        return [np.array(m, dtype=bool) for m in itertools.product((0, 1), repeat=n)]
    c = ref.components(W)
    out = [np.ones(n, bool), np.arange(n) % 2 == 0, np.arange(n) % 3 != 0]
    for k in range(n):
        out.append(np.arange(n) == k)
    m = np.zeros(n, bool)
    for comp in c:
        m[comp[0]] = True
    out.append(m)
    out.append(~m | (np.arange(n) == 0))
    return out


def judge(x, y, M, L, tau, ctx, what, comps):
    """x is a solution for measurements y (2-D, observed rows meaningful)."""
    n = len(L)
    if not ctx.check(x is not None and np.shape(x) == np.shape(y), lambda: f'{what}: shape {np.shape(x)}, want {np.shape(y)}'):
        return
    x = np.asarray(x, dtype=float).reshape(n, -1)
    y = np.where(M[:, None], np.asarray(y, dtype=float).reshape(n, -1), 0)
    for c in range(y.shape[1]):
        if tau > 0:
            r = np.where(M, x[:, c], 0) + tau * L @ x[:, c] - y[:, c]
            ctx.check(np.linalg.norm(r) <= 1e-4 * np.linalg.norm(y[:, c]) + 1e-12,
                      lambda: f'{what}: not optimal, gradient {np.linalg.norm(r):.2e} for measurements of norm {np.linalg.norm(y[:, c]):.2e}, '
                              f'x={x[:, c]}, y={y[:, c]}, M={M.astype(int)}')
        else:
            s = max(1, np.abs(y[:, c]).max())
            ctx.close(x[M, c], y[M, c], f'{what}: measurements not kept', tol=1e-12, scale=s)
            g = (L @ x[:, c])[~M]
            ctx.close(g, 0 * g, f'{what}: energy not minimal', tol=1e-8, scale=s * max(1, np.abs(L).max()))


def covered(comps, M):
    return all(M[c].any() for c in comps)


def run_reg(W, lt, taus, ctx):
    from pygsp import graphs, learning
    n = len(W)
    L = ref.laplacian(W, lt)
    comps = ref.components(W)
    G = graphs.Graph(W.copy(), lap_type=lt)
    ys = [np.eye(n)[i] for i in range(n)] if n <= 4 else [np.eye(n)[0]]
    ys += [np.arange(1, n + 1), np.cos(np.arange(n)) * 100, np.arange(2 * n).reshape(n, 2) - 3.5, np.arange(n)[:, None] * 2 + 1,
           np.arange(n)[:, None] * 2. - 1, (np.arange(3 * n) % 4).reshape(n, 3), np.sin(np.arange(n * n) * 1.3).reshape(n, n)]
    pre = ctx.prefix
    for M in masks(n, W):
        for tau in taus:
            if tau == 0 and not covered(comps, M):
                continue
            ctx.trace()
            ctx.prefix = f'{pre}M={M.astype(int).tolist()} tau={tau} '
            for y in ys:
                y0, M0 = y.copy(), M.copy()
                x = ctx.safe(lambda: learning.regression_tikhonov(G, y, M, tau), f'y {y.dtype} {y.shape}')
                ctx.op()
                judge(x, y, M, L, tau, ctx, f'y {y.dtype} {y.shape}', comps)
                ctx.check((y == y0).all() and (M == M0).all(), 'arguments modified')
                if x is not None:
                    ctx.state(x, M, tau)
            y = np.cos(np.arange(n))
            z = np.where(M, y, np.nan)
            ctx.op(2)
            x = ctx.safe(lambda: learning.regression_tikhonov(G, z, M, tau), 'NaN where unobserved')
            judge(x, y, M, L, tau, ctx, 'NaN where unobserved', comps)
            x = ctx.safe(lambda: learning.regression_tikhonov(G, y, M.astype(int), tau), '0/1 mask')
            judge(x, y, M, L, tau, ctx, '0/1 mask', comps)
    ctx.prefix = pre
    if n > 1:
        ctx.raises(lambda: learning.regression_tikhonov(G, np.ones(n), np.ones(n - 1, bool), 0), 'mask of wrong length accepted')


def run_cls(W, lt, taus, ctx):
    from pygsp import graphs, learning
    n = len(W)
    L = ref.laplacian(W, lt)
    comps = ref.components(W)
    G = graphs.Graph(W.copy(), lap_type=lt)
    labels = list(itertools.product((0, 1, 2), repeat=n)) if n <= 3 else \
        list(itertools.product((0, 1), repeat=n)) if n == 4 else [[i % 3 for i in range(n)], [i // 4 for i in range(n)]]
    pre = ctx.prefix
    for M in masks(n, W):
        if not M.any():
            continue
        for tau in taus:
            if tau == 0 and not covered(comps, M):
                continue
            ctx.trace()
            ctx.prefix = f'{pre}M={M.astype(int).tolist()} tau={tau} '
            for lab in labels:
                y = np.array(lab)
                k = y[M].max() + 1
                Y = np.zeros((n, k))
                for i in range(n):
                    if M[i]:
                        Y[i, y[i]] = 1
                for yy in (y, np.where(M, y, 1).astype(float) if n > 3 else np.where(M, y, np.nan)):
                    y0 = yy.copy()
                    X = ctx.safe(lambda: learning.classification_tikhonov(G, yy, M, tau), f'labels {yy.dtype}')
                    ctx.op()
                    if X is None:
                        continue
                    judge(X, Y, M, L, tau, ctx, 'logits', comps)
                    ctx.check(np.array_equal(yy, y0, equal_nan=True), 'labels modified')
                    if tau == 0:
                        ctx.check((X.argmax(1)[M] == y[M]).all(), 'observed labels not recovered')
                ctx.state(Y, tau)


def run_large(name, ctx):
    from pygsp import graphs, learning
    W = gen.large(name)
    n = len(W)
    comps = ref.components(W)
    first = np.zeros(n, bool)
    first[[c[0] for c in comps]] = True
    first[[c[-1] for c in comps]] = True
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        G = graphs.Graph(W.copy(), lap_type=lt)
        for mi, M in enumerate((np.ones(n, bool), first | (np.arange(n) % 3 == 0), first | (np.arange(n) > n // 2), first, ~first | (np.arange(n) == 0))):
            for tau in (0, 0.3):
                if tau == 0 and not covered(comps, M):
                    continue
                ctx.trace()
                ctx.prefix = f'{name} {lt} mask {mi} tau={tau} '
                for y in (np.cos(np.arange(n)) * 30, np.arange(n) - n // 2, np.cos(np.arange(n * 3).reshape(n, 3)), (np.arange(n * 33) % 7).reshape(n, 33), np.sin(np.arange(n * 130.)).reshape(n, 130), np.cos(np.arange(n * n) * 1.3).reshape(n, n)):
                    if tau and y.ndim == 2 and y.shape[1] > 33:
                        continue
                    x = ctx.safe(lambda: learning.regression_tikhonov(G, y, M, tau), f'y {y.dtype} {y.shape}')
                    ctx.op()
                    judge(x, y, M, L, tau, ctx, f'y {y.dtype} {y.shape}', comps)
                for k in (2, 12, 40, 300):
                    lab = (np.arange(n) * 7 // 3 if k < 100 else np.arange(n) * 37) % k
                    K = lab[M].max() + 1
                    Y = np.zeros((n, K))
                    Y[np.nonzero(M)[0], lab[M]] = 1
                    X = ctx.safe(lambda: learning.classification_tikhonov(G, lab, M, tau), f'{k} classes')
                    ctx.op()
                    judge(X, Y, M, L, tau, ctx, f'logits of {k} classes', comps)
                    if X is not None and tau == 0:
                        ctx.check((X.argmax(1)[M] == lab[M]).all(), f'observed labels not recovered among {k} classes')
                ctx.state(M, tau, lt)


def run(case, ctx):
    if case['kind'] == 'large':
        return run_large(case['name'], ctx)
    for g in case['graphs']:
        W = ref.arr(g)
        for lt in ('combinatorial', 'normalized'):
            ctx.prefix = f'W={g if len(W) < 7 else len(W)} {lt} '
            (run_reg if case['kind'] == 'reg' else run_cls)(W, lt, case['taus'], ctx)
