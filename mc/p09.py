"""P09: polynomial (Chebyshev, Lanczos) filtering agrees with g(L)."""
import itertools

import numpy as np
from numpy.polynomial import chebyshev as C

from . import gen, ref
from .p08 import check_bank, run_large

BOUNDS = dict(
    quick='connected and disconnected graphs with an edge: all labelled N<=3 {0,1,2.5}, 0/1 classes N=4,5, directed N=3 {0,1}, '
          'medium graphs; both Laplacians; polynomial kernels of every degree d <= order <= 6 and order 30; 3 ways of estimating lmax; '
          'all coefficient vectors over {-1,0,2} up to length 4; all signals over {-1,0,1}^N for Lanczos (N<=4); large named graphs (see DESIGN.md)',
    thorough='quick plus all labelled N=4 {0,1,2.5}, 0/1 classes N=6, directed N=4 {0,1} classes, orders up to 12')
CHUNK = 3
B = 6
ASSUMPTIONS = ['graphs with at least one edge (the approximation interval is otherwise empty)', 'real signals']

MONO = [lambda x: 0 * x + 2., lambda x: x - 1, lambda x: x * x - 3 * x, lambda x: 0.2 * x ** 3 - x,
        lambda x: 0.1 * x ** 4 - x * x + 1, lambda x: 0.02 * x ** 5 - x, lambda x: 0.01 * x ** 6 - x ** 3]
SMOOTH = [lambda x: np.exp(-x), lambda x: 1 / (1 + x), lambda x: np.cos(x), lambda x: np.abs(x - 0.7), lambda x: 1. * (x < 1.3)]


def cases(tier):
    g = [W for n in (2, 3) for W in gen.undirected(n, (0, 1, 2.5))]
    g += gen.iso_classes(4, (0, 1)) + gen.iso_classes(5, (0, 1)) + list(gen.directed(3, (0, 1)))
    g += list(gen.undirected(2, (0, 1), (0, 1.5)))
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + gen.iso_classes(6, (0, 1))
        g += gen.iso_classes(4, (0, 1), None, 'directed')
    g = [W for W in g if gen.has_edge(W)]
    top = 12 if tier == 'thorough' else 6
    for k in range(0, len(g), B):
        yield dict(kind='poly', graphs=g[k:k + B], top=top)
    for name, W in gen.medium():
        yield dict(kind='poly', graphs=[W], id=name, top=6)
        yield dict(kind='ops', graphs=[W], id='ops-' + name)
    for name in ('path130', 'quasi90', 'dirloops110', 'many', 'full40', 'distinct520') + (('quasi260', 'dense120', 'grid11x13') if tier == 'thorough' else ()):
        for order in (None, 3, 64) if name == 'quasi90' else (None,):
            yield dict(kind='large', name=name, order=order, id=f'large-{name}-{order}')
    reps = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W)]
    reps += [W for W in gen.iso_classes(3, (0, 1, 2.5)) if gen.has_edge(W)]
    if tier == 'thorough':
        reps += [W for W in gen.iso_classes(5, (0, 1)) + gen.iso_classes(4, (0, 1, 2.5)) if gen.has_edge(W)]
    for k in range(0, len(reps), 3):
        yield dict(kind='ops', graphs=reps[k:k + 3])


def prepare(W, lt, how):
    from pygsp import graphs
    G = graphs.Graph(W.copy(), lap_type=lt)
    if how == 'fourier':
        G.compute_fourier_basis()
    elif how:
        G.estimate_lmax(how)
    return G


def run_poly(W, lt, top, ctx):
    from pygsp import filters
    n = len(W)
    L = ref.laplacian(W, lt)
    t = np.linalg.eigvalsh(L)[-1]
    sup = lambda ks, hi: max(np.abs(k(np.linspace(0, hi, 50))).max() for k in ks)
    orders = [m for m in range(1, top + 1)] + [30]
    x = np.cos(np.arange(1, n + 1) * 2.3)
    X = np.stack([x, np.arange(n) % 2 - 0.5], 1)
    for how in ('lanczos', 'bounds', 'fourier'):
        G = prepare(W, lt, how)
        hi = G.lmax
        if not ctx.check(hi is not None and np.isfinite(hi) and hi >= t * (1 - 1e-9), f'lmax {hi} unusable'):
            return
        for m in orders:
            ks = MONO[:min(m, 6) + 1]
            f = filters.Filter(G, ks)
            tol = 1e-9 * max(1, sup(ks, max(hi, 2)))
            want = np.stack([ref.fun(L, k) @ X for k in ks], 2)
            ctx.op(3)
            ctx.close(f.filter(X[:, :, None], method='chebyshev', order=m), want, f'order {m} is exact for degree <= {m} (lmax {how})', tol=tol)
            if m in (1, 3, 30):
                Y = np.arange(n * 2 * len(ks), dtype=float).reshape(n, 2, -1) % 5 - 2
                ctx.close(f.filter(Y, method='chebyshev', order=m),
                          sum(ref.fun(L, k) @ Y[:, :, i] for i, k in enumerate(ks)), f'synthesis order {m} (lmax {how})', tol=tol * 10)
            f1 = filters.Filter(G, ks[-1])
            ctx.close(f1.filter(x, method='chebyshev', order=m), ref.fun(L, ks[-1]) @ x, f'single filter order {m}', tol=tol)
            # any kernel: no further from g(L)x than polynomial interpolation of that degree allows
            for k in SMOOTH:
                p = C.Chebyshev.interpolate(k, m, [0, hi])
                grid = np.concatenate([np.linspace(0, hi, 400), np.clip(np.linalg.eigvalsh(L), 0, hi)])
                err = np.abs(p(grid) - k(grid)).max()
                got = filters.Filter(G, k).filter(x, method='chebyshev', order=m)
                ctx.op()
                e = np.linalg.norm(got - ref.fun(L, k) @ x)
                ctx.check(e <= 4 * err * np.linalg.norm(x) + 1e-8,
                          f'order {m} ({how}): error {e:.2e} exceeds the interpolation error {err:.2e}')
        ctx.state(L, how)
    G = prepare(W, lt, None)           # the default method is the polynomial one, order 30, lmax estimated on demand
    f = filters.Filter(G, MONO[:3])
    ctx.op(2)
    ctx.close(f.filter(X[:, :, None]), np.stack([ref.fun(L, k) @ X for k in MONO[:3]], 2), 'default filtering', tol=1e-8, scale=max(1, t * t))
    if n <= 4:
        check_bank(G, L, 2, ctx, dict(method='chebyshev', order=4), MONO[1:3], 1e-9, max(1, t * t) * 10, full=False)
        check_bank(G, L, n, ctx, dict(method='chebyshev'), MONO[:n], 1e-9, max(1, t ** 3) * 10, full=False)


def cheb_mat(L, hi, m):
    M = 2 * L / hi - np.eye(len(L))
    T = [np.eye(len(L)), M]
    for _ in range(2, m + 1):
        T.append(2 * M @ T[-1] - T[-2])
    return T


def run_ops(W, lt, ctx):
    """The documented building blocks: coefficients, cheby_op, cheby_rect, Jackson damping, Lanczos."""
    from pygsp import filters
    n = len(W)
    L = ref.laplacian(W, lt)
    ev = np.clip(np.linalg.eigvalsh(L), 0, None)
    G = prepare(W, lt, 'fourier')
    hi = G.lmax
    x = np.cos(np.arange(1, n + 1) * 2.3)
    X = np.stack([x, np.arange(n) % 2 - 0.5, 0 * x], 1)
    T = cheb_mat(L, hi, 31)
    # coefficients of polynomials
    for m in (1, 2, 3, 5, 8):
        for d in range(min(m, 6) + 1):
            c = filters.compute_cheby_coeff(filters.Filter(G, MONO[d]), m=m)
            want = C.Chebyshev.interpolate(MONO[d], max(d, 1), [0, hi]).coef
            want = np.concatenate([want, np.zeros(m + 1)])[:m + 1]
            want[0] *= 2
            ctx.op()
            ctx.close(c, want, f'Chebyshev coefficients m={m} degree {d}', tol=1e-9, scale=max(1, np.abs(want).max()))
            cn = filters.compute_cheby_coeff(filters.Filter(G, MONO[d]), m=m, N=m + 20)
            ctx.close(cn, want, f'Chebyshev coefficients m={m} N={m + 20} degree {d}', tol=1e-9, scale=max(1, np.abs(want).max()))
    cs = filters.compute_cheby_coeff(filters.Filter(G, MONO[:3]), m=4)
    ctx.check(len(cs) == 3, 'one coefficient vector per filter')
    for i in range(3):
        ctx.op(2)
        ctx.close(filters.compute_cheby_coeff(filters.Filter(G, MONO[:3]), m=4, i=i), cs[i], 'coefficients of one filter of a bank')
        ctx.close(filters.compute_cheby_coeff(filters.Filter(G, MONO[i]), m=4), cs[i], 'coefficients of a bank')
    # cheby_op: all small coefficient vectors, alone and stacked
    for length in (2, 3, 4):
        for c in itertools.product((-1, 0, 2), repeat=length):
            M = 0.5 * c[0] * T[0] + sum(c[k] * T[k] for k in range(1, length))
            ctx.op(2)
            ctx.close(filters.cheby_op(G, np.array(c, dtype=float), x), M @ x, 'cheby_op', tol=1e-9, scale=10)
            ctx.close(filters.cheby_op(G, [list(c), list(c[::-1])], X),
                      np.vstack([M @ X, (0.5 * c[-1] * T[0] + sum(c[::-1][k] * T[k] for k in range(1, length))) @ X]),
                      'cheby_op of two filters', tol=1e-9, scale=10)
    # cheby_rect: Chebyshev series of the indicator; full band is the identity; bands add up
    grid = [0, 0.2 * hi, 0.5 * hi, 0.9 * hi, hi]
    for order in (1, 2, 5, 30):
        R = {}
        for a, b in itertools.combinations(range(5), 2):
            t1, t2 = np.arccos(2 * grid[a] / hi - 1), np.arccos(2 * grid[b] / hi - 1)
            M = (t1 - t2) / np.pi * T[0] + sum(2 / (k * np.pi) * (np.sin(k * t1) - np.sin(k * t2)) * T[k] for k in range(1, order + 1))
            for sig in (x, X):
                R[a, b] = filters.cheby_rect(G, [grid[a], grid[b]], sig, order=order)
                ctx.op()
                ctx.close(R[a, b], M @ sig, f'cheby_rect band {a}-{b} order {order}', tol=1e-9, scale=5)
        ctx.close(R[0, 4], X, f'the full band is the identity, order {order}', tol=1e-9, scale=5)
        ctx.close(R[0, 2] + R[2, 3] + R[3, 4], X, f'adjacent bands add up, order {order}', tol=1e-9, scale=5)
    ctx.raises(lambda: filters.cheby_rect(G, [0, 1, 2], x), 'three bounds accepted', ValueError)
    # Jackson-Chebyshev coefficients of an ideal band
    for a, b in itertools.combinations(range(5), 2):
        for m in (1, 2, 7, 30):
            fb, dl = [grid[a], grid[b]], [0, hi]
            ch, jch = filters.compute_jackson_cheby_coeff(fb, dl, m)
            ctx.op()
            t1, t2 = np.arccos(np.clip(2 * grid[a] / hi - 1, -1, 1)), np.arccos(np.clip(2 * grid[b] / hi - 1, -1, 1))
            want = np.array([2 / np.pi * (t1 - t2)] + [2 / (np.pi * k) * (np.sin(k * t1) - np.sin(k * t2)) for k in range(1, m + 1)])
            k = np.arange(m + 1)
            al = np.pi / (m + 2)
            damp = ((m + 2 - k) * np.sin(al) * np.cos(k * al) + np.cos(al) * np.sin(k * al)) / ((m + 2) * np.sin(al))
            ctx.close(ch, want, 'Chebyshev coefficients of a band', tol=1e-9)
            ctx.close(jch, want * damp, 'Jackson damping', tol=1e-9)
            ctx.check(fb == [grid[a], grid[b]] and dl == [0, hi], f'bounds modified in place: {fb}')
            r = filters.cheby_op(G, jch, np.eye(n))
            ctx.op()
            w = np.linalg.eigvalsh(r)
            ctx.check(w.min() > -1e-9 and w.max() < 1 + 1e-9, f'Jackson-damped band leaves [0, 1]: {w.min()}, {w.max()}')
    ctx.raises(lambda: filters.compute_jackson_cheby_coeff([-1., hi], [0, hi], 3), 'band outside the spectrum accepted', ValueError)
    # Lanczos: exact as soon as the order reaches the number of distinct frequencies (or the degree + 1)
    kinds = len(np.unique(np.round(ev, 6)))
    f = filters.Filter(G, MONO[:3] + SMOOTH[:2])
    mats = np.vstack([ref.fun(L, k) for k in MONO[:3] + SMOOTH[:2]])
    sig = [np.array(v, dtype=float) for v in itertools.product((-1, 0, 1), repeat=n)] if n <= 4 else [x, np.eye(n)[0], np.ones(n)]
    sc = max(1, hi * hi)
    for v in sig:
        for order in sorted({kinds, n, n + 3}):
            ctx.op()
            got = ctx.safe(lambda: filters.lanczos_op(f, v, order=order), f'lanczos_op order {order - n:+d} of N')
            if got is not None:
                ctx.close(got, mats @ v, 'lanczos_op', tol=1e-7, scale=sc)
    ctx.op(2)
    ctx.close(filters.lanczos_op(f, X, order=n), mats @ X, 'lanczos_op of several signals', tol=1e-7, scale=sc)
    # kernels that are not defined below zero: the Krylov frequencies never leave the spectrum
    roots = [lambda x: np.sqrt(x) * x, lambda x: np.log(1e-3 + x / hi), lambda x: np.power(x, 1.5)]
    with np.errstate(invalid='ignore', divide='ignore'):
        for v in sig + [np.cos(np.arange(n) * k + .3 * k) + 1 for k in range(1, 9)]:
            ctx.op()
            got = ctx.safe(lambda: filters.lanczos_op(filters.Filter(G, roots), v, order=n), 'lanczos_op of kernels not defined below zero')
            if got is not None:
                ctx.close(got, np.vstack([ref.fun(L, lambda e, k=k: k(np.maximum(e, 0))) for k in roots]) @ v, 'lanczos_op of kernels not defined below zero', tol=1e-5, scale=sc, key='lanczos-roots')
    p = filters.Filter(G, MONO[:3])
    ctx.close(filters.lanczos_op(p, X, order=3), np.vstack([ref.fun(L, k) for k in MONO[:3]]) @ X,
              'lanczos_op of order 3 is exact for degree 2', tol=1e-7, scale=sc)
    ctx.state(L, 'ops')


def run_large_ops(name, ctx):
    from pygsp import filters
    W = gen.large(name)
    n = len(W)
    L = ref.laplacian(W)
    G = prepare(W, 'combinatorial', 'fourier')
    hi = G.lmax
    T = cheb_mat(L, hi, 70)
    ctx.trace()
    for S in (None, 1, 5, 33, 130):
        x = np.cos(np.outer(np.arange(n) + 1, np.arange(S or 1) + 1) * 0.37)
        x = x[:, 0] if S is None else x
        for m, nf in ((2, 1), (31, 3), (64, 12), (70, 1)):
            c = np.cos(np.arange(nf * (m + 1)).reshape(nf, m + 1) * 1.3) / (1 + np.arange(m + 1))
            M = np.vstack([0.5 * ci[0] * T[0] + sum(ci[k] * T[k] for k in range(1, m + 1)) for ci in c])
            ctx.op()
            ctx.close(filters.cheby_op(G, c if nf > 1 else c[0], x), M @ x, f'{name} cheby_op of {nf} filters of order {m} on {S} signals', tol=1e-9, scale=10)
    ks = [lambda x, i=i: 1 + (i - 2) * x / hi + (x / hi) ** 3 for i in range(5)]
    f = filters.Filter(G, ks)
    mats = np.vstack([ref.fun(L, k) for k in ks])
    for S in (None, 1, 5, 33):
        x = np.cos(np.outer(np.arange(n) + 1, np.arange(S or 1) + 1) * 0.37)
        x = x[:, 0] if S is None else x
        for order in (4, 20, 45):
            ctx.op()
            got = ctx.safe(lambda: filters.lanczos_op(f, x, order=order), f'{name} lanczos_op order {order}')
            if got is not None:
                ctx.close(got, mats @ x, f'{name} lanczos_op order {order} of {S} signals', tol=1e-7, scale=10)
    ctx.state(L, 'ops')


def run(case, ctx):
    if case['kind'] == 'large':
        run_large(case['name'], ctx, dict(method='chebyshev', **({'order': case['order']} if case['order'] else {})), 1e-9)
        return run_large_ops(case['name'], ctx)
    for g in case['graphs']:
        W = ref.arr(g)
        for lt in ('combinatorial', 'normalized'):
            if lt == 'normalized' and not (np.abs(ref.laplacian(W, lt)) > 0).any():
                continue
            ctx.prefix = f'W={g if len(W) < 7 else len(W)} {lt} '
            ctx.trace()
            if case['kind'] == 'poly':
                run_poly(W, lt, case['top'], ctx)
            else:
                run_ops(W, lt, ctx)
