"""P20: Kron reduction is the Schur complement and keeps effective resistances."""
import itertools

import numpy as np

from . import gen, obs, ref

BOUNDS = dict(
    quick='classes N<=4 over {0,1,2.5} (with loops for N<=3), 0/1 classes N=5, medium graphs: every ordered selection of <=3 vertices and every set that meets '
          'every component; graphs and (regularised) matrices in 3 containers; all chains of two reductions; resistance distances of all labelled N<=4 '
          '{0,1,2.5}, classes N<=6, medium graphs; parents in every state after <=2 operations; large named graphs (see DESIGN.md)',
    thorough='0/1 classes N=6, classes N=5 {0,1,2.5}, chains of three reductions')
CHUNK = 3
ASSUMPTIONS = ['every connected component keeps a vertex (otherwise the complement is singular)', 'selections are index lists without repetition',
               'resistances are compared within connected components']


def cases(tier):
    t = tier == 'thorough'
    g = []
    for n in (1, 2, 3):
        g += gen.iso_classes(n, (0, 1, 2.5), (0, 1.5))
    g += gen.iso_classes(4, (0, 1, 2.5)) + gen.iso_classes(5, (0, 1))
    if t:
        g += gen.iso_classes(6, (0, 1)) + gen.iso_classes(5, (0, 1, 2.5))[::3]
    for k in range(0, len(g), 6):
        yield dict(kind='kron', graphs=g[k:k + 6])
    for name, W in gen.medium():
        yield dict(kind='medium', W=W, id='medium-' + name)
        yield dict(kind='medium', W=gen.weighted(W), id='mediumw-' + name)
    for k, W in enumerate(gen.iso_classes(4, (0, 1)) + [gen.weighted(gen.full(5)), gen.weighted(gen.grid(2, 3))] + (gen.iso_classes(5, (0, 1)) if t else [])):
        yield dict(kind='chain', W=W, depth=3 if t else 2, id=f'chain-{k}')
    r = []
    for n in (1, 2, 3, 4):
        r += list(gen.undirected(n, (0, 1, 2.5)))
    r += gen.iso_classes(5, (0, 1)) + gen.iso_classes(6, (0, 1)) + list(gen.undirected(3, (0, 1), (0, 1.5)))
    if t:
        r += list(gen.undirected(5, (0, 1)))
    for k in range(0, len(r), 60):
        yield dict(kind='resist', graphs=r[k:k + 60])
    for name, W in gen.medium():
        yield dict(kind='resist', graphs=[W, gen.weighted(W)], id='resist-' + name)
    for name in gen.LARGE_U + gen.HUGE[:1]:
        yield dict(kind='large', name=name, id='large-' + name)
    yield dict(kind='named', id='named')
    yield dict(kind='invalid', id='invalid')
    for i in range(len(OPS)):
        yield dict(kind='state', first=i, id=f'state-{i}')
    yield dict(kind='scales', id='scales')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def schur(L, ind):
    c = [i for i in range(len(L)) if i not in set(ind)]
    if not c:
        return L[np.ix_(ind, ind)]
    return L[np.ix_(ind, ind)] - L[np.ix_(ind, c)] @ np.linalg.solve(L[np.ix_(c, c)], L[np.ix_(c, ind)])


def resist(L):
    P = np.linalg.pinv(L, rcond=1e-11, hermitian=True)
    d = P.diagonal()
    return d[:, None] + d[None] - 2 * P


def through(W, ind):
    """Pairs of kept vertices joined directly or through eliminated ones only."""
    n = len(W)
    B = (W != 0) & ~np.eye(n, dtype=bool)
    out = [i for i in range(n) if i not in set(ind)]
    R = B.copy()
    for k in out:
        R = R | (R[:, [k]] & R[[k], :])
    R = R[np.ix_(ind, ind)]
    np.fill_diagonal(R, False)
    return R


def verify(K, G, W, ind, coords, ctx, deep=True):
    ind = list(ind)
    n = len(ind)
    L = ref.laplacian(W)
    sc = max(1e-300, np.abs(L).max())
    want = schur(L, ind)
    V = K.W.toarray()
    ctx.check(K.N == n and V.shape == (n, n), 'number of vertices')
    ctx.close(K.L, want, 'Laplacian of the reduced graph', tol=1e-9, scale=sc, key='laplacian')
    ctx.check(not K.is_directed(), lambda: f'the reduced graph is directed, asymmetry {np.abs(V - V.T).max()}', key='directed')
    ctx.check((V >= 0).all(), lambda: f'negative weight {V.min()}', key='negative')
    ctx.check(not V.diagonal().any(), lambda: f'self-loops {V.diagonal()}', key='loops')
    T = through(W, ind)
    ctx.check(((V > 1e-12 * sc) == T).all(), lambda: f'edges {np.argwhere(V > 1e-12 * sc).tolist()} instead of {np.argwhere(T).tolist()}', key='edges')
    ctx.check(K.lap_type == 'combinatorial', 'lap_type')
    if coords is None:
        ctx.check(not hasattr(K, 'coords') or K.coords is None, 'coordinates')
    else:
        ctx.close(K.coords, coords[ind], 'coordinates', tol=0)
    if deep:
        S = np.asarray(ref.reach((V > 1e-12 * sc)))
        ctx.close(np.where(S, resist(K.L.toarray()), 0), np.where(S, resist(L)[np.ix_(ind, ind)], 0), 'effective resistances', tol=1e-8, scale=1 / max(1e-300, W[W > 0].min()) if (W > 0).any() else 1)


def selections(W, limit=3):
    n = len(W)
    comps = [set(c) for c in ref.components(W)]
    for k in range(1, n + 1):
        for s in (itertools.permutations if k <= limit else itertools.combinations)(range(n), k):
            if all(c & set(s) for c in comps):
                yield list(s)


def run_kron(case, ctx):
    from scipy import sparse
    from pygsp import graphs, reduction
    for gi, W in enumerate(case['graphs']):
        W = ref.arr(W)
        n = len(W)
        full = np.array([[np.cos(3 * i + 1), i * i, 2 - i] for i in range(n)])
        L = ref.laplacian(W)
        for j, ind in enumerate(selections(W)):
            form = (list(ind), np.array(ind), tuple(ind))[(gi + j) % 3]
            has = (gi + j) % 4 != 3
            coords = full[:, 1] if j % 5 == 1 else full if j % 5 == 2 else full[:, :2]
            plot = {'vertex_size': 33}
            G = graphs.Graph(W, coords=coords.copy() if has else None, plotting=plot)
            ctx.prefix = f'W={W.tolist()} keep={ind}{"" if has else " without coordinates"}: '
            K = ctx.safe(lambda: reduction.kron_reduction(G, form), 'reduction', key='kron raised')
            ctx.op()
            if K is None:
                continue
            verify(K, G, W, ind, coords if has else None, ctx)
            ctx.check(K.plotting.get('vertex_size') == 33, 'plotting')
            ctx.close(G.W, W, 'original', tol=0)
            ctx.state(W, ind, K.W)
            eps = (0, .005, 1.3)[j % 3]
            M = L + eps * np.eye(n)
            f = (sparse.csr_matrix, sparse.csc_matrix, sparse.lil_matrix)[(j // 3) % 3](M)
            ctx.prefix = f'matrix {M.tolist()} keep={ind}: '
            R = ctx.safe(lambda: reduction.kron_reduction(f, form), 'reduction', key='kron matrix raised')
            ctx.op()
            if R is None:
                continue
            R = R.toarray() if hasattr(R, 'toarray') else np.asarray(R)
            ctx.close(R, schur(M, ind), 'Schur complement', tol=1e-9, scale=np.abs(M).max() or 1)
            ctx.close(f, M, 'matrix modified', tol=0)
        ctx.trace()


def run_medium(case, ctx):
    from pygsp import graphs, reduction
    W = ref.arr(case['W'])
    n = len(W)
    comps = ref.components(W)
    coords = np.array([[np.cos(3 * i + 1), i * i, i] for i in range(n)])
    first = [c[0] for c in comps]
    sels = [list(range(0, n, 2)), list(range(n))[::-1], [i for i in range(n) if i % 3 != 1]]
    sels += [[i] for i in range(n)] + [[i, j] for i, j in itertools.permutations(range(n), 2)][::5] + [[j for j in range(n) if j != i] for i in range(n)]
    for s in sels:
        s = s + [f for f, c in zip(first, comps) if not set(c) & set(s)]
        ctx.prefix = f'keep={s}: '
        G = graphs.Graph(W, coords=coords)
        K = ctx.safe(lambda: reduction.kron_reduction(G, s), 'reduction', key='kron raised')
        ctx.op()
        if K is not None:
            verify(K, G, W, s, coords, ctx)
            ctx.state(s, K.W)
    ctx.trace()


def run_large(case, ctx):
    from scipy import sparse
    from pygsp import graphs, reduction, utils
    W = gen.large(case['name'])
    n = len(W)
    coords = np.array([[np.cos(3 * i + 1), i * i, i] for i in range(n)])
    L = ref.laplacian(W)
    comps = ref.components(W)
    first = [c[0] for c in comps]
    for j, s in enumerate((list(range(0, n, 2)), list(range(n))[::-1], [0], [n - 1, 0], list(range(1, n)), list(range(n // 2, n)), [(7 * i + 3) % n for i in range(n // 7)])):
        s = list(dict.fromkeys(s))
        s = s + [f for f, c in zip(first, comps) if not set(c) & set(s)]
        ctx.prefix = f'{case["name"]} selection {j}: '
        ctx.op(2)
        ctx.trace()
        K = ctx.safe(lambda: reduction.kron_reduction(graphs.Graph(W, coords=coords), s if j % 2 else np.array(s)), 'reduction', key='kron raised')
        if K is not None:
            verify(K, None, W, s, coords, ctx)
            ctx.state(s, K.W)
        M = L + .3 * np.eye(n)
        R = ctx.safe(lambda: reduction.kron_reduction(sparse.csr_matrix(M), s), 'reduction', key='kron matrix raised')
        if R is not None:
            R = R.toarray() if hasattr(R, 'toarray') else np.asarray(R)
            ctx.close(R, schur(M, s), 'Schur complement', tol=1e-9, scale=np.abs(M).max())
    S = ref.reach(W != 0)
    want = np.where(S, resist(L), 0)
    for f in (graphs.Graph(W), sparse.csc_matrix(L)):
        ctx.op()
        R = ctx.safe(lambda: utils.resistance_distance(f), 'resistance distance', key='resist raised')
        if R is not None:
            ctx.close(np.where(S, R.toarray(), 0), want, 'resistance distance', tol=1e-7, scale=want.max())
    ctx.state(W)


def run_chain(case, ctx):
    """Reducing in steps equals reducing at once."""
    from pygsp import graphs, reduction
    W = ref.arr(case['W'])
    if not ref.strongly_connected(W):
        return
    n = len(W)
    coords = np.array([[np.cos(3 * i + 1), i * i] for i in range(n)])

    def step(K, keep, depth):
        m = len(keep)
        for k in range(1, m):
            for s in itertools.combinations(range(m), k):
                s = list(s)[::-1] if (k + depth) % 2 else list(s)
                ctx.prefix = f'W={W.tolist()} kept {keep} then {s}: '
                ctx.op()
                R = ctx.safe(lambda: reduction.kron_reduction(K, s), 'reduction', key='chain raised')
                if R is None:
                    continue
                new = [keep[i] for i in s]
                verify(R, K, W, new, coords, ctx)
                ctx.state(keep, s, R.W)
                if depth > 1:
                    step(R, new, depth - 1)
                ctx.trace()
    step(graphs.Graph(W, coords=coords), list(range(n)), case['depth'])


def run_resist(case, ctx):
    from scipy import sparse
    from pygsp import graphs, utils
    for gi, W in enumerate(case['graphs']):
        W = ref.arr(W)
        n = len(W)
        L = ref.laplacian(W)
        S = ref.reach(W != 0)
        want = np.where(S, resist(L), 0)
        G = graphs.Graph(W)
        forms = dict(graph=G, csc=sparse.csc_matrix(L), csr=sparse.csr_matrix(L), coo=sparse.coo_matrix(L), lil=sparse.lil_matrix(L))
        for name in ['graph'] + [('csc', 'csr', 'coo', 'lil')[gi % 4]]:
            ctx.prefix = f'W={W.tolist()} ({name}): '
            ctx.op()
            R = ctx.safe(lambda: utils.resistance_distance(forms[name]), 'resistance distance', key='resist raised')
            if R is None:
                continue
            ctx.check(sparse.issparse(R), f'{type(R)} instead of a sparse matrix')
            R = np.where(S, R.toarray(), 0)
            ctx.close(R, want, 'resistance distance', tol=1e-8, scale=max(want.max(), 1e-300), key='resistance')
            w = np.triu(W, 1)
            c = len(ref.components(W))
            ctx.close((w * R).sum(), n - c, "Foster's theorem", tol=1e-7)
            if n <= 6:
                gap = R[:, :, None] + R[None] - R[:, None, :].transpose(0, 1, 2)
                tri = np.array([[[R[i, k] <= R[i, j] + R[j, k] + 1e-9 for k in range(n)] for j in range(n)] for i in range(n)])
                ok = S[:, :, None] & S[None]
                ctx.check((tri | ~ok).all(), 'triangle inequality')
                del gap
            with np.errstate(divide='ignore'):
                direct = np.where(W > 0, 1 / np.where(W > 0, W, 1), np.inf)
            ctx.check((R <= direct + 1e-9).all(), 'resistance above that of the edge')
            ctx.state(W, R)
        ctx.trace()


def run_named(case, ctx):
    from pygsp import graphs, reduction, utils
    for n in range(3, 41):
        R = utils.resistance_distance(graphs.Ring(n)).toarray()
        k = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
        ctx.close(R, k * (n - k) / n, f'ring {n}', tol=1e-8, scale=n)
        R = utils.resistance_distance(graphs.Path(n)).toarray()
        ctx.close(R, k, f'path {n}', tol=1e-8, scale=n)
        R = utils.resistance_distance(graphs.FullConnected(n)).toarray()
        ctx.close(R, (k > 0) * 2 / n, f'complete {n}', tol=1e-8)
        ctx.op(3)
        G = graphs.Path(n)
        K = reduction.kron_reduction(G, [0, n - 1])
        ctx.close(K.W, np.array([[0, 1], [1, 0]]) / (n - 1), f'path {n} in series', tol=1e-9)
        K = reduction.kron_reduction(graphs.Star(n), list(range(1, n)))
        ctx.close(K.W, (1 - np.eye(n - 1)) / (n - 1), f'star {n} to mesh', tol=1e-9)
        ctx.op(2)
        ctx.trace()
    for G in (graphs.Sensor(64, seed=1), graphs.Grid2d(6, 7), graphs.Community(60, seed=2), graphs.Torus(5, 5), graphs.DavidSensorNet()):
        W = G.W.toarray()
        L = ref.laplacian(W)
        comps = ref.components(W)
        R = utils.resistance_distance(G).toarray()
        S = ref.reach(W != 0)
        ctx.close(np.where(S, R, 0), np.where(S, resist(L), 0), 'resistance', tol=1e-7)
        for step in (2, 3, 7):
            ind = sorted(set(range(0, G.N, step)) | {c[0] for c in comps})
            K = reduction.kron_reduction(G, ind)
            ctx.prefix = f'{type(G).__name__} every {step} '
            verify(K, G, W, ind, np.asarray(G.coords), ctx)
            ctx.op()
            ctx.trace()


def run_invalid(case, ctx):
    from pygsp import graphs, reduction, utils
    for W in gen.iso_classes(3, (0, 1), None, 'directed'):
        W = ref.arr(W)
        ctx.op(3)
        G = graphs.Graph(W, lap_type='normalized')
        ctx.raises(lambda: reduction.kron_reduction(G, [0]), 'normalized Laplacian accepted', NotImplementedError)
        ctx.raises(lambda: utils.resistance_distance(G), 'normalized Laplacian accepted', ValueError)
        if ref.is_directed(W):
            ctx.raises(lambda: reduction.kron_reduction(graphs.Graph(W), [0]), 'directed graph accepted', NotImplementedError)
        ctx.state(W)
    ctx.trace()


OPS = ['compute_laplacian_n', 'compute_laplacian_nc', 'compute_fourier_basis', 'compute_differential_operator', 'estimate_lmax', 'set_signal', 'reduce', 'resist']


def act(G, o, keep):
    from pygsp import reduction, utils
    if o == 'compute_laplacian_n':
        G.compute_laplacian('normalized')
        G.compute_laplacian('combinatorial')
    elif o == 'compute_laplacian_nc':
        G.compute_laplacian('normalized')
        G.compute_fourier_basis()
        G.compute_laplacian('combinatorial')
    elif o == 'set_signal':
        G.set_signal(np.arange(G.N), 's')
    elif o == 'reduce':
        reduction.kron_reduction(G, keep[:1])
    elif o == 'resist':
        utils.resistance_distance(G)
    else:
        getattr(G, o)()


def run_state(case, ctx):
    """Whatever was computed before, the reduction is the same; it leaves the graph intact."""
    from pygsp import graphs, reduction
    for W in (gen.weighted(gen.full(4)), gen.path(5), gen.weighted(gen.grid(2, 3))):
        W = ref.arr(W)
        n = len(W)
        for second in [None] + OPS:
            for ind in ([0, 2], [3, 1, 0]):
                coords = np.array([[i, i * i] for i in range(n)], dtype=float)
                G = graphs.Graph(W, coords=coords)
                for o in (OPS[case['first']], second):
                    if o:
                        ctx.op()
                        act(G, o, ind)
                before = obs.snapshot(G)
                ctx.prefix = f'after {OPS[case["first"]]}, {second}: '
                K = reduction.kron_reduction(G, ind)
                ctx.op()
                verify(K, G, W, ind, coords, ctx)
                obs.same(before, obs.snapshot(G), ctx, "the original graph")
                obs.observe(K, K.W.toarray(), 'combinatorial', ctx, deep=False)
                ctx.state(obs.snapshot(G))
                ctx.trace()


def run_scales(case, ctx):
    """Weights of very different orders of magnitude."""
    from pygsp import graphs, reduction, utils
    for s in (1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12):
        for W in (gen.path(5), gen.ring(6), gen.weighted(gen.full(5)), gen.star(5), gen.weighted(gen.grid(2, 3))):
            W = ref.arr(W) * s
            n = len(W)
            L = ref.laplacian(W)
            ctx.prefix = f'scale {s}: '
            R = utils.resistance_distance(graphs.Graph(W)).toarray()
            ctx.close(R * s, resist(L / s), 'resistance', tol=1e-8)
            for k in (1, 2, 3):
                for ind in itertools.combinations(range(n), k):
                    K = ctx.safe(lambda: reduction.kron_reduction(graphs.Graph(W), list(ind)), 'reduction', key='kron raised')
                    ctx.op()
                    if K is not None:
                        verify(K, None, W, ind, None, ctx, deep=False)
                        ctx.state(W, ind)
            ctx.trace()
        for G0 in (graphs.Sensor(60, seed=2), graphs.DavidSensorNet(), graphs.Grid2d(7, 6)):
            W = G0.W.toarray() * s
            firsts = {c[0] for c in ref.components(W)}
            for step in (2, 3, 5, 11):
                ind = sorted(set(range(0, len(W), step)) | firsts)
                ctx.prefix = f'scale {s}, {type(G0).__name__} every {step}: '
                K = reduction.kron_reduction(graphs.Graph(W), ind)
                ctx.op()
                verify(K, None, W, ind, None, ctx, deep=False)
                ctx.state(W, ind)
                # a second reduction must be possible
                half = list(range(0, len(ind), 2)) if ref.strongly_connected(W) else list(range(len(ind)))
                verify(reduction.kron_reduction(K, half), None, W, [ind[i] for i in half], None, ctx, deep=False)
                ctx.trace()
