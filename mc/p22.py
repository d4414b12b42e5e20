"""P22: the multiresolution keeps one polarity of the top eigenvector; the pyramid is a perfect-reconstruction transform."""
import itertools

import numpy as np

from . import gen, obs, ref, rng
from .p20 import schur, selections, verify

BOUNDS = dict(
    quick='connected classes 3<=N<=5 {0,1} and N=4 {0,1,2.5}, connected medium and named graphs: all feasible numbers of levels x (no, full, partial, earlier) '
          'eigendecomposition; pyramid of all basis signals in 3 shapes x 4 filter lists x exact/Chebyshev; interpolation from all selections of all classes N<=4; '
          'sparsified multiresolutions for outcomes within 1 deviation of 4 policies; large named graphs (see DESIGN.md)',
    thorough='0/1 classes N=6, every selection N<=5, 2 deviations')
CHUNK = 3
ASSUMPTIONS = ['connected undirected graphs, combinatorial Laplacian', 'every level has at least two vertices', 'interpolation keeps a vertex of every component']


def conn(g):
    return [W for W in g if ref.strongly_connected(ref.arr(W))]


def cases(tier):
    t = tier == 'thorough'
    g = conn(gen.iso_classes(3, (0, 1, 2.5)) + gen.iso_classes(4, (0, 1, 2.5)) + gen.iso_classes(5, (0, 1)) + (gen.iso_classes(6, (0, 1)) if t else []))
    for i, W in enumerate(g):
        yield dict(kind='multi', W=W, rot=i, id=f'multi-{i}')
    for name, W in gen.medium():
        if ref.strongly_connected(ref.arr(W)):
            yield dict(kind='multi', W=W, rot=len(W), id=f'multi-{name}')
            yield dict(kind='multi', W=gen.weighted(W), rot=len(W) + 1, id=f'multi-w{name}')
    for name in ('quasi90', 'loops75', 'grid11x13', 'distinct1100'):
        yield dict(kind='multi', name=name, rot=len(name), id=f'large-{name}')
    for name in NAMED:
        yield dict(kind='named', name=name, id=f'named-{name}')
    k = conn(gen.iso_classes(2, (0, 1, 2.5)) + gen.iso_classes(3, (0, 1, 2.5), (0, 1.5)) + gen.iso_classes(4, (0, 1)) + (gen.iso_classes(5, (0, 1)) if t else []))
    k += [gen.blocks(gen.path(2), gen.path(3)), gen.weighted(gen.full(4))]
    for j in range(0, len(k), 4):
        yield dict(kind='interp', graphs=k[j:j + 4])
    for pol in rng.POLICIES:
        for name in ('ring', 'sensor', 'full'):
            yield dict(kind='sparsify', name=name, policy=pol, d=2 if t else 1, id=f'sparsify-{name}-{pol}')
    yield dict(kind='invalid', id='invalid')
    yield dict(kind='broken', id='broken')


NAMED = ['sensor', 'community', 'minnesota', 'grid', 'david', 'comet', 'isolated']


def make(name):
    from pygsp import graphs
    return dict(sensor=lambda: graphs.Sensor(70, seed=5), community=lambda: graphs.Community(50, Nc=3, world_density=.1, seed=2), minnesota=lambda: graphs.Grid2d(9, 8),
                grid=lambda: graphs.Grid2d(6, 5), david=lambda: graphs.DavidSensorNet(), comet=lambda: graphs.Comet(20, 7),
                isolated=lambda: graphs.Graph(gen.weighted(gen.ring(9)), coords=np.arange(18.).reshape(9, 2)))[name]()


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def check_idx(W, idx, ctx):
    """idx is one side of the polarity of the eigenvector of the largest eigenvalue."""
    e, U = np.linalg.eigh(ref.laplacian(W))
    n = len(W)
    idx = [int(i) for i in idx]
    ctx.check(idx == sorted(set(idx)) and 0 < len(idx) < n and 0 <= min(idx) and max(idx) < n, f'kept vertices {idx}')
    ctx.check(0 in idx, 'the first vertex sets the polarity: it must be kept')
    if n > 1 and e[-1] - e[-2] > 1e-6 * e[-1]:
        v = U[:, -1] * (1 if U[0, -1] >= 0 else -1)
        sure = np.abs(v) > 1e-6
        if abs(v[0]) > 1e-6:
            want = v >= 0
            got = np.isin(np.arange(n), idx)
            ctx.check((want == got)[sure].all(), lambda: f'kept {idx} of polarity {np.round(v, 3).tolist()}')


def chain(W, levels):
    """Does the reference polarity leave two vertices at every level?  (None: ambiguous)"""
    for _ in range(levels):
        n = len(W)
        e, U = np.linalg.eigh(ref.laplacian(W))
        v = U[:, -1] * (1 if U[0, -1] >= 0 else -1)
        if n < 3 or e[-1] - e[-2] < 1e-6 * e[-1] or (np.abs(v) < 1e-6).any():
            return None
        idx = np.flatnonzero(v > 0)
        if len(idx) < 2:
            return False
        M = schur(ref.laplacian(W), list(idx))
        W = np.diag(np.diag(M)) - M
        W[W < 1e-9] = 0
    return True


def check_multi(Gs, W, levels, reg_eps, full, ctx):
    ctx.check(len(Gs) == levels + 1, f'{len(Gs)} graphs for {levels} levels')
    orig = np.arange(len(W))
    for i in range(levels):
        A, B = Gs[i], Gs[i + 1]
        V = A.W.toarray()
        idx = B.mr['idx']
        check_idx(V, idx, ctx)
        verify(B, A, V, idx, np.asarray(A.coords) if hasattr(A, 'coords') and A.coords is not None else None, ctx, deep=False)
        orig = orig[idx]
        ctx.check(np.array_equal(B.mr['orig_idx'], orig), f'orig_idx {B.mr["orig_idx"]} instead of {orig}')
        M = ref.laplacian(V) + reg_eps * np.eye(len(V))
        K = A.mr['K_reg']
        K = K.toarray() if hasattr(K, 'toarray') else np.asarray(K)
        ctx.close(K, schur(M, list(idx)), 'K_reg', tol=1e-8, scale=np.abs(M).max())
        x = np.array([0, .5, 3.])
        ctx.close(A.mr['green_kernel'].evaluate(x)[0], 1 / (reg_eps + x), 'green kernel', tol=1e-9)
    # everything is a reduction of the first graph
    ctx.close(Gs[-1].L, schur(ref.laplacian(W), list(orig)), 'last level', tol=1e-8, scale=np.abs(W).max())
    if full:
        for G in Gs:
            ctx.check(G._U is not None, 'no eigendecomposition')
    ctx.state([G.W for G in Gs])


PREP = ['none', 'full', 'partial', 'full+flip', 'filtered']


def prepare(G, p):
    from pygsp import filters
    if p.startswith('full'):
        G.compute_fourier_basis()
        if 'flip' in p:                # the opposite polarity is as good an eigenvector
            G.U[...] *= -1
    elif p == 'partial':
        G.compute_fourier_basis(n_eigenvectors=2)
    elif p == 'filtered':
        G.estimate_lmax()
        filters.Heat(G, 3).filter(np.ones(G.N))


def run_multi(case, ctx):
    from pygsp import graphs, reduction
    W = gen.large(case['name']) if 'name' in case else ref.arr(case['W'])
    n = len(W)
    coords = np.array([[np.cos(i), i] for i in range(n)])
    for pi, p in enumerate(PREP if n < 60 else PREP[:3:2]):
        for full in (False, True):
            reg_eps = (.005, .7)[(case['rot'] + pi) % 2]
            levels = 1
            while True:
                G = graphs.Graph(W, coords=coords)
                prepare(G, p)
                before = obs.snapshot(G)
                ctx.prefix = f'W={W.tolist()} levels={levels} prepared {p} full={full}: ' if n < 9 else f'levels={levels} prepared {p} full={full}: '
                kw = {} if reg_eps == .005 else dict(reg_eps=reg_eps)
                ctx.op()
                try:
                    Gs = reduction.graph_multiresolution(G, levels, sparsify=False, compute_full_eigen=full, **kw)
                except Exception as e:
                    # a level with a single vertex has no spectrum to estimate: out of the domain
                    ctx.check(not chain(W, levels), f'multiresolution raised {type(e).__name__}: {e}', key='multires raised')
                    break
                ctx.trace()
                ctx.check(Gs[0] is G, 'the first level is not the graph')
                check_multi(Gs, W, levels, reg_eps, full, ctx)
                after = obs.snapshot(G)
                for k in ('W', 'L', 'coords'):
                    ctx.close(after[k], before[k], f'{k} changed', tol=0)
                if full or p != 'partial':
                    U, e = after['U'], after['e']
                    ctx.close((U * e) @ U.T, ref.laplacian(W), 'the Fourier basis is damaged', tol=1e-8, scale=np.abs(W).max())
                if pi == case['rot'] % 5 or n < 5 and pi == 0 or n > 60 and pi == 0 and full:
                    pyramid(Gs, ctx, case['rot'] + levels)
                if Gs[-1].N < 3 or levels >= (3 if n < 60 else 2):
                    break
                levels += 1


FILTERS = [None, lambda x: 5. / (5 + x), [lambda x: np.exp(-x)], 'list']


def pyramid(Gs, ctx, rot, exact=True):
    from pygsp import reduction
    n = Gs[0].N
    levels = len(Gs) - 1
    for G in Gs:
        G.compute_fourier_basis()
    Ls = [ref.laplacian(G.W.toarray()) for G in Gs]
    I = np.eye(n)
    signals = [I if n < 60 else I[:, ::n // 9], I[:, [0]], I[:, 1], np.cos(1.7 * np.arange(n)), np.stack([np.arange(n), np.arange(n) ** 2], 1), np.arange(n)]
    for j, f in enumerate(signals):
        h = FILTERS[(rot + j) % 4]
        if h == 'list':
            h = [lambda x, a=a: 1 / (1 + a * x) for a in range(1, levels + 1)]
        hs = [lambda x: 1 / (2 * x + 1)] * levels if h is None else [h] * levels if callable(h) else h * levels if len(h) == 1 else h
        for kw in (dict(method='exact'), dict(), dict(order=40), dict(method='chebyshev', order=100))[:4 if j == 3 else 2]:
            before = np.array(f)
            ctx.op(2)
            a = dict(kw) if h is None else dict(kw, h_filters=h if not isinstance(h, list) else list(h))
            r = ctx.safe(lambda: reduction.pyramid_analysis(Gs, f, **a), f'analysis {kw}', key='analysis raised')
            if r is None:
                return
            ca, pe = r
            ctx.check(len(ca) == levels + 1 and len(pe) == levels, 'number of coefficients')
            want = np.array(f, dtype=float)
            for i in range(levels):
                ctx.close(ca[i], want, f'coarse approximation {i} ({kw})', tol=1e-9 if kw.get('method') == 'exact' else 1e-2, scale=max(1, np.abs(f).max()), key='ca')
                idx = Gs[i + 1].mr['idx']
                low = (ref.fun(Ls[i], hs[i]) @ want)[idx]
                Phi = np.linalg.inv(Ls[i] + .005 * np.eye(len(Ls[i])))
                pred = Phi[:, idx] @ np.linalg.solve(Phi[np.ix_(idx, idx)], low)
                if kw.get('method') == 'exact':
                    ctx.close(pe[i], want - pred, f'prediction error {i}', tol=1e-6, scale=max(1, np.abs(f).max()), key='pe')
                else:
                    ctx.check(np.shape(pe[i]) == want.shape, f'prediction error {i} of shape {np.shape(pe[i])}')
                want = low
            s = {k: v for k, v in kw.items()}
            r = ctx.safe(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe, **s), f'synthesis {kw}', key='synthesis raised')
            if r is None:
                return
            rec, ca2 = r
            if 'order' not in kw or kw['order'] == 100 or True:
                ctx.close(rec, before * 1., f'reconstruction ({kw})', tol=1e-8, scale=max(1, np.abs(f).max()), key='reconstruction')
                for i in range(levels + 1):
                    ctx.close(ca2[i], ca[i], f'approximation {i} of the synthesis', tol=1e-8, scale=max(1, np.abs(f).max()), key='synthesis ca')
            ctx.check(np.array_equal(before, f), 'the signal was modified')
    # synthesis of arbitrary coefficients
    cap = np.cos(np.arange(Gs[-1].N))
    pe = [np.sin(np.arange(G.N) * 1.3) for G in Gs[:-1]]
    keep = [p.copy() for p in pe]
    rec, _ = reduction.pyramid_synthesis(Gs, cap, pe, method='exact')
    want = cap
    for i in range(levels - 1, -1, -1):
        idx = Gs[i + 1].mr['idx']
        Phi = np.linalg.inv(Ls[i] + .005 * np.eye(len(Ls[i])))
        want = Phi[:, idx] @ np.linalg.solve(Phi[np.ix_(idx, idx)], want) + pe[i]
    ctx.close(rec, want, 'synthesis of arbitrary coefficients', tol=1e-6, scale=max(1, np.abs(want).max()))
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, pe)), 'the coefficients were modified')
    ctx.trace()


def run_named(case, ctx):
    from pygsp import reduction
    G = make(case['name'])
    W = G.W.toarray()
    for full in (False, True):
        for levels in (1, 2, 3):
            G = make(case['name'])
            ctx.prefix = f'{case["name"]} levels={levels} full={full}: '
            Gs = ctx.safe(lambda: reduction.graph_multiresolution(G, levels, sparsify=False, compute_full_eigen=full), 'multiresolution', key='multires raised')
            ctx.op()
            if Gs is None:
                return
            if ref.strongly_connected(W):
                check_multi(Gs, W, levels, .005, full, ctx)
            if Gs[-1].N < 3:
                break
    pyramid(Gs, ctx, 1)
    ctx.trace()


def run_interp(case, ctx):
    from pygsp import graphs, reduction
    for gi, W in enumerate(case['graphs']):
        W = ref.arr(W)
        n = len(W)
        L = ref.laplacian(W)
        for j, ind in enumerate(selections(W, 2)):
            G = graphs.Graph(W)
            k = len(ind)
            for eps in (None, .7):
                Phi = np.linalg.inv(L + (eps or .005) * np.eye(n))
                P = Phi[:, ind] @ np.linalg.inv(Phi[np.ix_(ind, ind)])
                for f in (np.eye(k), np.eye(k)[:, :1], np.cos(np.arange(k)), np.arange(1, k + 1)):
                    kw = dict() if eps is None else dict(reg_eps=eps)
                    for m in ('exact', 'chebyshev'):
                        if m == 'exact':
                            G.compute_fourier_basis()
                        elif eps is None:
                            continue
                        ctx.prefix = f'W={W.tolist()} from {ind} {kw} {m} shape {f.shape}: '
                        ctx.op()
                        r = ctx.safe(lambda: reduction.interpolate(G, f, (list(ind), np.array(ind))[j % 2], method=m, **kw), 'interpolation', key='interpolate raised')
                        if r is None:
                            return
                        ctx.close(r, P @ f, 'interpolation', tol=1e-6, key='interpolation')
                        if m == 'exact':
                            ctx.close(np.asarray(r)[list(ind)], f * 1., 'values on the kept vertices', tol=1e-8 if eps else 1e-6)
                        ctx.state(W, ind, r)
            ctx.close(G.W, W, 'original', tol=0)
        ctx.trace()


def run_sparsify(case, ctx):
    from pygsp import graphs, reduction

    base = dict(ring=lambda: graphs.Ring(12), sensor=lambda: graphs.Sensor(16, seed=3), full=lambda: graphs.FullConnected(9))[case['name']]()

    def fresh():
        return graphs.Graph(base.W, coords=getattr(base, 'coords', None))
    for levels in (1, 2) if case['d'] == 1 else (1, 2, 3):
        ex = rng.Deviations(rng.POLICIES[case['policy']], case['d'], horizon=12, max_draws=5000)
        for Gs, _ in ex.all(lambda: reduction.graph_multiresolution(fresh(), levels), (24, 10, 0)[levels - 1] if case['d'] == 1 else 500):
            ctx.op()
            ctx.prefix = f'levels={levels} deviation {ex.plan}: '
            if isinstance(Gs, Exception):
                if levels > 1 and not isinstance(Gs, (AttributeError, NameError)):
                    continue           # a sparsified level may be disconnected (warned)
                ctx.check(False, f'raised {type(Gs).__name__}: {Gs}', key='sparsified multires raised')
                return
            A, B = Gs[0], Gs[1]
            W = A.W.toarray()
            idx = B.mr['idx']
            check_idx(W, idx, ctx)
            K = np.diag(schur(ref.laplacian(W), list(idx)).diagonal()) - schur(ref.laplacian(W), list(idx))
            V = B.W.toarray()
            ctx.check(B.N == len(idx), 'number of vertices')
            ctx.check(not (V[np.abs(K) < 1e-9] > 1e-9).any() and (V >= 0).all() and not B.is_directed(), 'not a sparsification of the reduced graph')
            orig = np.arange(A.N)
            for C in Gs[1:]:
                orig = orig[C.mr['idx']]
                ctx.check(np.array_equal(C.mr['orig_idx'], orig), 'orig_idx')
            if levels == 1 and ref.strongly_connected(V):
                f = np.cos(np.arange(A.N))
                ca, pe = reduction.pyramid_analysis(Gs, f)
                r, _ = reduction.pyramid_synthesis(Gs, ca[-1], pe)
                ctx.close(r, f, 'reconstruction', tol=1e-8)
            ctx.state(V)
        ctx.trace(ex.runs)
    # the real generator
    for sparsify_eps in (None, .2, .9):
        for seed in range(3):
            np.random.seed(seed)
            G = fresh()
            ctx.prefix = f'real generator epsilon {sparsify_eps}: '
            Gs = ctx.safe(lambda: reduction.graph_multiresolution(G, 1, sparsify_eps=sparsify_eps), 'multiresolution', key='sparsified multires raised')
            ctx.op()
            if Gs is not None:
                ctx.check(Gs[1].N == len(Gs[1].mr['idx']), 'number of vertices')


def run_invalid(case, ctx):
    from pygsp import graphs, reduction
    G = graphs.Sensor(30, seed=2)
    Gs = reduction.graph_multiresolution(G, 2, sparsify=False)
    for f in (np.ones(29), np.ones(31), np.ones((29, 2)), np.ones((2, 30))):
        ctx.raises(lambda: reduction.pyramid_analysis(Gs, f), f'signal of shape {f.shape} accepted', ValueError)
    ctx.raises(lambda: reduction.pyramid_analysis(Gs, np.ones(30), h_filters=[lambda x: x] * 3), 'three filters for two levels', ValueError)
    ca, pe = reduction.pyramid_analysis(Gs, np.ones(30))
    ctx.raises(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe[:1]), 'missing prediction error', ValueError)
    ctx.raises(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe + pe), 'too many prediction errors', ValueError)
    ctx.raises(lambda: reduction.graph_multiresolution(G, 1, downsampling_method='unknown'), 'unknown downsampling', NotImplementedError)
    ctx.raises(lambda: reduction.graph_multiresolution(G, 1, reduction_method='unknown'), 'unknown reduction', NotImplementedError)
    Gs = reduction.graph_multiresolution(G, 0)
    ctx.check(len(Gs) == 1 and Gs[0] is G, 'no level')
    ctx.op(4)
    ctx.trace()


def run_broken(case, ctx):
    """Functionality that has never worked: see known_findings.txt."""
    from pygsp import graphs, reduction
    G = graphs.Sensor(20, seed=2)
    Gs = reduction.graph_multiresolution(G, 1, sparsify=False, compute_full_eigen=True)
    h = [lambda x: 1 / (1 + x)]
    f = np.cos(np.arange(20))
    ca, pe = reduction.pyramid_analysis(Gs, f, h_filters=h)
    for lw in (False, True):
        ctx.op()
        r = ctx.safe(lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe, least_squares=True, h_filters=h, use_landweber=lw), 'least-squares synthesis', key='least-squares-synthesis')
        if r is not None and not lw:
            ctx.close(r[0], f, 'least-squares synthesis of a consistent pyramid', tol=1e-3, key='least-squares-synthesis')
    ctx.op()
    ctx.safe(lambda: reduction.tree_multiresolution(graphs.Path(7), 1), 'tree multiresolution', key='tree-multiresolution')
    ctx.trace()
