"""P08: filtering is g(L) applied to the signals (analysis, synthesis, frame, localization)."""
import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='all labelled symmetric W: N<=3 {0,1,2.5} x diagonal {0,1.5}, N=4 {0,1}; 0/1 classes N=5; directed N=3 {0,1}; '
          'medium graphs; both Laplacians; banks of 1,2,3,N filters; every admissible signal shape with a complete basis of signals; large named graphs (see DESIGN.md)',
    thorough='quick plus N=4 {0,1,2.5}, 0/1 classes N=6, directed N=4 {0,1} classes, classes N=5 {0,1,2}')
CHUNK = 4
B = 10
ASSUMPTIONS = ['the complete Fourier basis is used (a partial one makes exact filtering raise)',
               'a complete basis of signals decides every signal, linearity itself being checked on sums']

KERNELS = [
    lambda x: 1 / (1 + x),
    lambda x: np.exp(-0.5 * x),
    lambda x: x ** 2 - 3 * x + 1,
    lambda x: np.sqrt(0.25 + x),
    lambda x: np.cos(x),
    lambda x: 0 * x,
]


def bank(n):
    return [KERNELS[i % len(KERNELS)] for i in range(n)]


def cases(tier):
    g = []
    for n in (1, 2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5)))
    g += list(gen.undirected(4, (0, 1))) + gen.iso_classes(5, (0, 1)) + list(gen.directed(3, (0, 1)))
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + gen.iso_classes(6, (0, 1)) + gen.iso_classes(5, (0, 1, 2))
        g += gen.iso_classes(4, (0, 1), None, 'directed')
    for k in range(0, len(g), B):
        yield dict(graphs=g[k:k + B])
    for name, W in gen.medium():
        yield dict(graphs=[W], id=name)
    for name in ('path130', 'quasi90', 'dirloops110', 'many', 'full40', 'distinct520') + (('quasi260', 'dense120', 'grid11x13') if tier == 'thorough' else ()):
        yield dict(kind='large', name=name, id='large-' + name)


def run_large(name, ctx, method, tol):
    """Many vertices, many signals, many filters: shapes and values at the sizes where implementations may switch strategy."""
    from pygsp import filters, graphs
    W = gen.large(name)
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        G = graphs.Graph(W.copy(), lap_type=lt)
        G.compute_fourier_basis()
        hi = G.lmax
        ctx.op(2)
        ctx.trace()
        for nf in (1, 2, 9, 17, 40):
            ks = [lambda x, i=i: 1 + (i % 7 - 3) * (x / hi) + (i % 5 - 2) * (x / hi) ** 2 + (i % 3) * (x / hi) ** 3 for i in range(nf)]
            mats = np.stack([ref.fun(L, k) for k in ks])
            f = filters.Filter(G, ks if nf > 1 else ks[0])
            ctx.prefix = f'{name} {lt} {nf} filters {method} '
            for S in (1, 7, 33, 70, 130):
                X = np.cos(np.outer(np.arange(n) + 1, np.arange(S) + 1) * 0.37)
                got = f.filter(X[:, :, None], **method)
                want = np.stack([M @ X for M in mats], 2).squeeze()
                ctx.op()
                ctx.close(got, want, f'analysis of {S} signals', tol=tol, scale=10)
                if S != nf:
                    ctx.op()
                    ctx.close(f.filter(X, **method), want, f'analysis of {S} signals, 2-D', tol=tol, scale=10)
                if S <= 33:
                    Y = np.sin(np.arange(n * S * nf).reshape(n, S, nf) * 0.7)
                    ctx.op()
                    ctx.close(f.filter(Y, **method), (np.einsum('fij,jsf->is', mats, Y, optimize=True) if nf > 1 else mats[0] @ Y[:, :, 0]).squeeze(), f'synthesis of {S} signals', tol=tol, scale=10 * nf)
            if n * nf <= 2000:
                ctx.op()
                ctx.close(f.compute_frame(**method), np.vstack(mats), 'frame', tol=tol, scale=10)
            for i in (0, n // 2, n - 1):
                ctx.op()
                ctx.close(f.localize(i, **method), np.sqrt(n) * mats[:, :, i].T.squeeze(), f'localize at {i}', tol=tol, scale=10 * n)
            ctx.state(L, nf)


def expected(mats, x):
    """The documented rule: rank-3 tensor N x signals x features, singletons squeezed.
    Returns None when the shape is not admissible."""
    nf = len(mats)
    x = np.asarray(x)
    if x.ndim == 1:
        t = x[:, None, None]
    elif x.ndim == 2:
        t = x[:, None, :] if x.shape[1] in (1, nf) else x[:, :, None]
    elif x.ndim == 3 and x.shape[2] in (1, nf):
        t = x
    else:
        return None
    if t.shape[2] == 1:
        out = np.stack([np.einsum('ij,jsf->isf', M, t)[:, :, 0] for M in mats], 2)
    else:
        out = sum(np.einsum('ij,js->is', M, t[:, :, i]) for i, M in enumerate(mats))[:, :, None]
    return out.squeeze()


def signals(n, nf):
    """(shape label, signal): every admissible shape, each spanning all signals."""
    I = np.eye(n)
    A = np.arange(n * 2 * nf, dtype=float).reshape(n, 2, nf) % 7 - 3
    yield 'N', [I[:, i] for i in range(n)]
    yield 'N,1', [I[:, i:i + 1] for i in range(n)]
    yield 'N,N', [I]
    yield 'N,S,1', [I[:, :, None], A[:, :, :1]]
    yield 'N,N+1', [np.hstack([I, np.ones((n, 1))])]
    yield 'N,Nf', [np.kron(np.eye(nf)[f], I[:, i:i + 1]) for i in range(n) for f in range(nf)]
    yield 'N,S,Nf', [A, np.einsum('ij,f->ijf', I, np.arange(1., nf + 1))]
    # extents that coincide (as many signals or features as vertices): the axes must not be confused
    B = np.sin(np.arange(n * (n + nf) * max(n, nf)) * 1.3)
    for s in sorted({(n, n), (n, nf), (n, n, 1), (n, n, nf), (n, nf, nf), (n, nf, 1), (n, 1, nf), (n, n + 1, nf)}):
        yield f'generic {["N" if v == n else "Nf" if v == nf else v for v in s]}', [np.resize(B, s)]
    yield 'int', [np.arange(n) - 1, (np.arange(2 * n).reshape(n, 2) % 3)]
    yield 'list', [list(range(n)), [[1, 0, 2]] * n]
    yield 'float32', [np.arange(n, dtype=np.float32) / 2]


def bad_shapes(n, nf):
    yield np.zeros(n + 1)
    yield np.zeros((n + 1, 2))
    yield np.zeros((n, 2, nf + 1 if nf + 1 != 1 else 7))
    yield np.zeros((n, 1, 1, 1))


def check_bank(G, L, nf, ctx, method, kernels, tol, scale, full=True):
    from pygsp import filters
    n = len(L)
    mats = [ref.fun(L, k) for k in kernels]
    f = filters.Filter(G, list(kernels) if nf > 1 else kernels[0])
    ctx.op()
    ctx.check(f.Nf == nf and f.n_filters == nf and len(f) == nf, f'number of filters {f.Nf}')
    for label, xs in signals(n, nf):
        for x in xs:
            want = expected(mats, x)
            got = ctx.safe(lambda: f.filter(x, **method), f'Nf={nf} {method} shape {label}')
            ctx.op()
            if got is not None:
                ctx.close(got, want, f'filter Nf={nf} {method} shape {label}',
                          tol=max(tol, 1e-6) if label == 'float32' else tol, scale=scale)
    for x in bad_shapes(n, nf):
        ctx.raises(lambda: f.filter(x, **method), f'signal of shape {x.shape} accepted by {nf} filters on {n} vertices', ValueError)
    F = f.compute_frame(**method)
    ctx.op(2)
    ctx.close(F, np.vstack(mats), f'compute_frame Nf={nf} {method}', tol=tol, scale=scale)
    for i in range(n):
        got = f.localize(i, **method)
        ctx.op()
        want = np.sqrt(n) * expected(mats, np.eye(n)[:, i])
        ctx.close(got, want, f'localize Nf={nf} {method}', tol=tol, scale=scale * np.sqrt(n))
    x = np.cos(np.arange(n))
    y = np.sin(np.arange(n))
    a = f.analyze(x, **method)
    ctx.op(4)
    ctx.close(f.filter(3 * x - 2 * y, **method), 3 * a - 2 * f.analyze(y, **method), 'linearity', tol=tol, scale=scale * 10)
    if nf > 1 and n > 1:
        z = f.synthesize(a, **method)
        ctx.op()
        ctx.close(z, np.vstack(mats).T @ np.vstack(mats) @ x, 'synthesize(analyze(x)) = g^T g x', tol=tol, scale=scale * scale * nf)
        ctx.raises(lambda: f.synthesize(np.zeros((n, nf + 1)), **method), 'synthesize accepted wrong number of features', ValueError)
        ctx.raises(lambda: f.analyze(np.zeros((n, 2, nf)), **method), 'analyze accepted several features', ValueError)
    if not full:
        return
    ctx.raises(lambda: f.filter(x, method='nope'), 'unknown method accepted', ValueError)


def run(case, ctx):
    from pygsp import graphs
    if case.get('kind') == 'large':
        return run_large(case['name'], ctx, dict(method='exact'), 1e-9)
    for g in case['graphs']:
        W = ref.arr(g)
        n = len(W)
        for lt in ('combinatorial', 'normalized'):
            ctx.prefix = f'W={g if n < 7 else n} {lt} '
            ctx.trace()
            G = graphs.Graph(W.copy(), lap_type=lt)
            G.compute_fourier_basis()
            ctx.op(2)
            L = ref.laplacian(W, lt)
            sc = max(1.0, np.linalg.eigvalsh(L)[-1]) ** 2 * 3
            for nf in sorted({1, 2, 3, n}):
                check_bank(G, L, nf, ctx, dict(method='exact'), bank(nf), 1e-9, sc)
                ctx.state(L, nf)
            from pygsp import filters
            f = filters.Filter(G, KERNELS[:2])
            z = np.exp(1j * np.arange(n))
            ctx.op(2)
            mats = [ref.fun(L, k) for k in KERNELS[:2]]
            ctx.close(f.filter(z, method='exact'), expected(mats, z), 'complex signal', tol=1e-9)
            for S in (1, 2, 5, n + 3, 17):
                Z = np.exp(1j * np.arange(n * S * 2).reshape(n, S, 2) ** 1.5)
                ctx.op(2)
                ctx.close(f.filter(Z[:, :, :1], method='exact'), expected(mats, Z[:, :, :1]), f'analysis of {S} complex signals', tol=1e-9, scale=sc)
                ctx.close(f.filter(Z, method='exact'), expected(mats, Z), f'synthesis of {S} complex signals', tol=1e-9, scale=sc)
