"""P10: frames - bounds, tight designs, complements and inverses."""
import itertools

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='graphs with an edge: 0/1 and {1,2.5} classes N=2..4, 0/1 classes N=5, directed N=3, medium; both Laplacians; '
          'lmax estimated / bounded / from the spectrum, before or after the design; every tight design with 3-8 filters and its '
          'parameter grid; all banks of 1-3 kernels out of 6; banks times 1e-9..1e6; large named graphs (see DESIGN.md)',
    thorough='quick plus all labelled N=4 {0,1,2.5}, 0/1 classes N=6, classes N=5 {0,1,2}')
CHUNK = 1
B = 2
ASSUMPTIONS = ['graphs with at least one edge']

# kernels of normalized frequency u = x / lmax
KERN = dict(
    one=lambda u: 1 + 0 * u,
    heat=lambda u: np.exp(-3 * u),
    high=lambda u: 0.3 + u,
    sign=lambda u: np.cos(2 * u),
    band=lambda u: 1. * (u > 0.45),          # zero on part of the spectrum
    low=lambda u: 2. * (u < 0.45),
)


def designs(full):
    for nf in (2, 3, 4, 5, 6, 8) if full else (3, 6):
        yield 'Itersine', dict(Nf=nf), 1
        yield 'Meyer', dict(Nf=nf), 1
        yield 'SimpleTight', dict(Nf=nf), 1
        if nf > 2:
            yield 'HalfCosine', dict(Nf=nf), None
    yield 'Itersine', dict(Nf=7, overlap=4), 1
    for a in (0.3, 2 / 3, 0.9) if full else (2 / 3,):
        yield 'Held', dict(a=a), 1
        yield 'Papadakis', dict(a=a), 1
        yield 'Simoncelli', dict(a=a), 1
    for d in range(0, 7) if full else (0, 3):
        yield 'Regular', dict(degree=d), 1
    yield 'Itersine', {}, 1
    yield 'Meyer', {}, 1
    yield 'SimpleTight', {}, 1
    yield 'HalfCosine', {}, None
    yield 'Held', {}, 1
    yield 'Papadakis', {}, 1
    yield 'Simoncelli', {}, 1
    yield 'Regular', {}, 1


def cases(tier):
    g = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1))] + gen.iso_classes(5, (0, 1))
    g += gen.iso_classes(3, (0, 1, 2.5)) + gen.iso_classes(3, (0, 1), None, 'directed')
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + gen.iso_classes(6, (0, 1)) + gen.iso_classes(5, (0, 1, 2))
    g = [W for W in g if gen.has_edge(W)]
    for k in range(0, len(g), B):
        yield dict(graphs=g[k:k + B], full=len(g[k]) <= (4 if tier == 'thorough' else 3) and all(gen.is_sym(W) for W in g[k:k + B]))
    for name, W in gen.medium():
        yield dict(graphs=[W], id=name, full=True)
    for name in ('quasi90', 'dirloops110', 'many', 'distinct520'):
        yield dict(kind='large', name=name, id='large-' + name)


def build(W, lt, how):
    from pygsp import graphs
    G = graphs.Graph(W.copy(), lap_type=lt)
    if how == 'fourier':
        G.compute_fourier_basis()
    elif how in ('lanczos', 'bounds'):
        G.estimate_lmax(how)
    return G


def run_tight(W, lt, L, how, full, ctx):
    from pygsp import filters
    n = len(W)
    for name, kw, A in designs(full):
        ctx.trace()
        G = build(W, lt, how)
        g = getattr(filters, name)(G, **kw)
        ctx.op(2)
        what = f'{name} {kw} lmax={how}'
        pts = np.linspace(0, G.lmax, 200)
        s = (np.asarray(g.evaluate(pts)) ** 2).sum(0)
        if A is None:
            A = s.mean()
        ctx.close(s, np.full(200, A), f'{what}: not tight on [0, lmax]', tol=1e-9)
        a, b = g.estimate_frame_bounds()
        ctx.close([a, b], [A, A], f'{what}: estimated bounds', tol=1e-9)
        G.compute_fourier_basis()
        ctx.op(4)
        a, b = g.estimate_frame_bounds(G.e)
        ctx.close([a, b], [A, A], f'{what}: bounds on the spectrum', tol=1e-9)
        if not full and n > 4:
            ctx.state(name, L)
            continue
        F = g.compute_frame(method='exact')
        ctx.close(F.T @ F, A * np.eye(n), f'{what}: frame operator', tol=1e-8)
        x = np.cos(np.arange(n) * 1.7)
        y = g.filter(x, method='exact')
        ctx.close((y ** 2).sum(), A * (x ** 2).sum(), f'{what}: energy', tol=1e-8)
        ctx.close(g.filter(y, method='exact'), A * x, f'{what}: reconstruction', tol=1e-8)
        h = g.inverse()
        ctx.close(h.filter(y, method='exact'), x, f'{what}: inverse', tol=1e-8)
        ctx.state(name, s[0], L)


def run_bank(W, lt, L, how, names, ctx):
    from pygsp import filters
    n = len(W)
    G = build(W, lt, how)
    hi = G.lmax
    ks = [lambda x, k=KERN[m]: k(np.asarray(x) / hi) for m in names]
    g = filters.Filter(G, ks)
    e0 = np.clip(np.linalg.eigvalsh(L), 0, None)
    if np.abs(e0 / hi - 0.45).min() < 1e-6:
        return
    mats = np.vstack([ref.fun(L, k) for k in ks])
    G.compute_fourier_basis()
    ctx.op(3)
    s = sum(k(e0) ** 2 for k in ks)
    a, b = g.estimate_frame_bounds(G.e)
    ctx.close([a, b], [s.min(), s.max()], 'bounds on the spectrum', tol=1e-9)
    ctx.close([a, b], np.linalg.eigvalsh(mats.T @ mats)[[0, -1]], 'bounds are those of the frame operator', tol=1e-8)
    xs = [0, hi / 3, hi]
    ctx.close(g.estimate_frame_bounds(xs), [min(sum(k(np.array(v)) ** 2 for k in ks) for v in xs),
                                            max(sum(k(np.array(v)) ** 2 for k in ks) for v in xs)], 'bounds on a list', tol=1e-12)
    grid = np.linspace(0, G.lmax, 1000)
    sg = sum(k(grid) ** 2 for k in ks)
    ctx.close(g.estimate_frame_bounds(), [sg.min(), sg.max()], 'default bounds', tol=1e-9)
    ctx.op(4)
    # complement
    c = g.complement()
    ctx.check(c.n_filters == 1, 'the complement is one filter')
    ctx.close(c.evaluate(G.e)[0], np.sqrt(np.clip(s.max() - s, 0, None)), 'complement kernel', tol=1e-7)
    u = g + c
    ctx.check(u.n_filters == len(names) + 1, 'union with the complement')
    ctx.close((u.evaluate(G.e) ** 2).sum(0), np.full(n, s.max()), 'complement makes the bank tight', tol=1e-9)
    F = u.compute_frame(method='exact')
    ctx.close(F.T @ F, s.max() * np.eye(n), 'frame operator of the union', tol=1e-8)
    for extra in (0.5, 3):
        c = g.complement(frame_bound=sg.max() + extra)
        ctx.op(3)
        ctx.close(((g + c).evaluate(grid) ** 2).sum(0), np.full(1000, sg.max() + extra), 'complement with a chosen bound', tol=1e-9)
        F = (g + c).compute_frame(method='exact')
        ctx.close(F.T @ F, (sg.max() + extra) * np.eye(n), 'frame operator with a chosen bound', tol=1e-8)
    ctx.raises(lambda: g.complement(frame_bound=s.max() * 0.99).filter(np.ones(n), method='exact'), 'unfeasible bound accepted', ValueError)
    # inverse
    h = g.inverse()
    ctx.op(4)
    ctx.check(h.n_filters == len(names), 'the inverse has as many filters')
    want = np.stack([np.where(s > 0, k(e0) / np.where(s > 0, s, 1), 0) for k in ks])
    ctx.close(h.evaluate(G.e), want, 'canonical dual kernels', tol=1e-8)
    P = np.linalg.pinv(mats, rcond=1e-9)
    H = h.compute_frame(method='exact')
    Ht = np.hstack([H[i * n:(i + 1) * n].T for i in range(len(names))])
    ctx.close(Ht, P, 'inverse is the pseudo-inverse of the analysis operator', tol=1e-7)
    for x in (np.cos(np.arange(n) * 1.7), np.eye(n)[0]):
        y = g.filter(x, method='exact')
        got = h.filter(y, method='exact')
        ctx.op(2)
        ctx.close(got, P @ mats @ x, 'reconstruction', tol=1e-7)
        if s.min() > 1e-6:
            ctx.close(got, x, 'perfect reconstruction from a frame', tol=1e-7)
    if s.min() > 1e-6:
        a2, b2 = h.estimate_frame_bounds(G.e)
        ctx.close([a * b2, b * a2], [1, 1], 'bounds of the inverse', tol=1e-8)
        ctx.close(h.inverse().evaluate(G.e), g.evaluate(G.e), 'the inverse of the inverse', tol=1e-8)
        ctx.close(sum(g.evaluate(grid[::20]) * h.evaluate(grid[::20])), np.where(sg[::20] > 0, 1, 0), 'g h = 1 on [0, lmax]', tol=1e-8)
        ctx.op(3)
    ctx.state(names, L)


def run_scaled(W, lt, L, ctx):
    """Frame bounds, complements and inverses do not depend on the unit of the kernels."""
    from pygsp import filters
    n = len(W)
    e = np.clip(np.linalg.eigvalsh(L), 0, None)
    pre = ctx.prefix
    for f in (1e-9, 1e-6, 1e-3, 1e3, 1e6):
        for names in (('one',), ('heat', 'high'), ('one', 'heat', 'sign'), ('high',)):
            ctx.trace()
            ctx.prefix = f'{pre}{names} x {f:g} '
            G = build(W, lt, 'fourier')
            hi = G.lmax
            ks = [lambda x, k=KERN[m]: f * k(np.asarray(x) / hi) for m in names]
            g = filters.Filter(G, ks)
            s = sum(k(e) ** 2 for k in ks)
            ctx.op(6)
            ctx.close(np.array(g.estimate_frame_bounds(G.e)) / f ** 2, np.array([s.min(), s.max()]) / f ** 2, 'bounds', tol=1e-9)
            ctx.close((((g + g.complement()).evaluate(G.e) / f) ** 2).sum(0), np.full(n, s.max() / f ** 2), 'complement', tol=1e-9)
            h = g.inverse()
            ctx.close(f * h.evaluate(G.e), f * np.stack([k(e) / s for k in ks]), 'dual kernels', tol=1e-8)
            x = np.cos(np.arange(n) * 1.7)
            ctx.close(h.filter(g.filter(x, method='exact'), method='exact'), x, 'perfect reconstruction', tol=1e-7)
            a, b = h.estimate_frame_bounds(G.e)
            ctx.close([a * s.max(), b * s.min()], [1, 1], 'bounds of the inverse', tol=1e-8)
            ctx.close(h.inverse().evaluate(G.e) / f, g.evaluate(G.e) / f, 'the inverse of the inverse', tol=1e-8)
            ctx.state(names, f, L)


def run_large(name, ctx):
    from pygsp import filters
    W = gen.large(name)
    n = len(W)
    for lt, how in (('combinatorial', 'lanczos'), ('normalized', 'fourier')):
        L = ref.laplacian(W, lt)
        ctx.prefix = f'{name} {lt} {how} '
        for des in ('Itersine', 'Meyer', 'SimpleTight', 'HalfCosine'):
            for nf in (7, 11, 16, 33):
                G = build(W, lt, how)
                g = getattr(filters, des)(G, Nf=nf)
                ctx.trace()
                ctx.op(2)
                s = (np.asarray(g.evaluate(np.linspace(0, G.lmax, 500))) ** 2).sum(0)
                A = s.mean() if des == 'HalfCosine' else 1
                ctx.check(g.n_filters == nf, f'{des} has {g.n_filters} filters instead of {nf}')
                ctx.close(s, np.full(500, A), f'{des} Nf={nf} is not tight', tol=1e-9)
                ctx.close(g.estimate_frame_bounds(), [A, A], f'{des} Nf={nf}: bounds', tol=1e-9)
                if nf == 11:
                    G.compute_fourier_basis()
                    x = np.cos(np.arange(n * 5).reshape(n, 5) * 1.7)
                    ctx.op(3)
                    y = g.filter(x, method='exact')
                    ctx.close((y ** 2).sum(), A * (x ** 2).sum(), f'{des} Nf={nf}: energy', tol=1e-8, scale=A * n * 5)
                    ctx.close(g.inverse().filter(y, method='exact'), x, f'{des} Nf={nf}: reconstruction', tol=1e-8)
                ctx.state(des, nf, lt)
        for names in (('one',), ('heat', 'high'), ('one', 'heat', 'sign'), ('heat', 'high', 'sign'), tuple(KERN)):
            ctx.prefix = f'{name} {lt} {how} {names} '
            ctx.trace()
            run_bank(W, lt, L, how, names, ctx)


def run(case, ctx):
    if case.get('kind') == 'large':
        return run_large(case['name'], ctx)
    for g in case['graphs']:
        W = ref.arr(g)
        n = len(W)
        for lt in ('combinatorial', 'normalized'):
            L = ref.laplacian(W, lt)
            pre = f'W={g if n < 7 else n} {lt} '
            ctx.prefix = pre
            for how in ('lanczos', 'bounds', 'fourier') if case['full'] else ('lanczos', 'fourier'):
                run_tight(W, lt, L, how, case['full'], ctx)
            if n <= 3 or n > 7:
                run_scaled(W, lt, L, ctx)
            for r in (1, 2, 3) if n <= 4 or n > 7 else (2,):
                for i, names in enumerate(itertools.combinations(KERN, r)):
                    for how in ('lanczos', 'bounds', 'fourier') if n <= 3 and r < 3 and case['full'] else (('lanczos', 'bounds', 'fourier')[i % 3],):
                        ctx.prefix = f'{pre}{names} {how} '
                        ctx.trace()
                        run_bank(W, lt, L, how, names, ctx)
