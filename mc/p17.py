"""P17: deterministic graph constructions equal their mathematical definition."""
import itertools
import os

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='Ring N<=16 x all k, N in {101, 128, 257} x 11 k, Path N<=20 x directed, Comet N<=12 x all k, Star N<=15, FullConnected N<=15, Grid2d N1,N2<=8 x 3 diagonals, '
          'Torus 3..7 x 3..7, LowStretchTree k<=4, all invalid parameters around the bounds; LineGraph of all symmetric N<=3 {0,1,2.5} with loops, '
          'all labelled N=4 {0,1}, classes N=5, directed N=3; the file-based graphs; both Laplacians',
    thorough='Ring N<=40, Comet N<=30, Grid2d <=14, Torus <=14, LowStretchTree k<=6, LineGraph of classes N=6, directed N=4')
CHUNK = 2
ASSUMPTIONS = ['Torus with at least 3 vertices along each dimension (a ring needs 3)']


def cases(tier):
    t = tier == 'thorough'
    for n in range(3, 41 if t else 17):
        yield dict(kind='ring', n=n, id=f'ring-{n}')
    for n, ds in ((101, (1, 33, 41, 45, 49, 50)), (128, (32, 63, 64)), (257, (64, 127))):
        yield dict(kind='ring', n=n, ds=ds, id=f'ring-{n}')
    yield dict(kind='path', top=40 if t else 20, id='path')
    for n in range(1, 31 if t else 13):
        yield dict(kind='comet', n=n, id=f'comet-{n}')
    yield dict(kind='star', top=30 if t else 15, id='star')
    yield dict(kind='full', top=30 if t else 15, id='full')
    m = 14 if t else 8
    for a in range(1, m + 1):
        yield dict(kind='grid', a=a, top=m, id=f'grid-{a}')
    m = 14 if t else 7
    for a in range(3, m + 1):
        yield dict(kind='torus', a=a, top=m, id=f'torus-{a}')
    for k in range(1, 7 if t else 5):
        yield dict(kind='tree', k=k, id=f'tree-{k}')
    g = []
    for n in (2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5)))
    g += list(gen.undirected(4, (0, 1))) + gen.iso_classes(5, (0, 1)) + list(gen.directed(3, (0, 1), (0, 1)))
    g += [W for _, W in gen.medium()]
    if t:
        g += gen.iso_classes(6, (0, 1)) + list(gen.directed(4, (0, 1)))
    for k in range(0, len(g), 40):
        yield dict(kind='line', graphs=g[k:k + 40])
    yield dict(kind='invalid', id='invalid')
    yield dict(kind='defaults', id='defaults')
    yield dict(kind='files', id='files')


def build(ctx, name, args, kw, W, coords, extra=''):
    """Build the graph for both Laplacians and compare with the definition."""
    from pygsp import graphs
    for lt in ('combinatorial', 'normalized'):
        ctx.prefix = f'{name}{args}{kw if kw else ""} {lt} '
        ctx.op()
        G = ctx.safe(lambda: getattr(graphs, name)(*args, **kw, lap_type=lt), 'construction')
        if G is None:
            continue
        ctx.trace()
        verify(G, W, coords, lt, ctx)
        ctx.state(name, args, kw, lt)
        r = repr(G)
        ctx.check(r.startswith(f'{name}(n_vertices={len(W)}, n_edges={len(ref.edges(W))}'), f'repr {r}')
    ctx.prefix = f'{name}{args}{kw if kw else ""} plotting '
    G = ctx.safe(lambda: getattr(graphs, name)(*args, **kw), 'construction')
    return G


def verify(G, W, coords, lt, ctx):
    ctx.close(G.W, W, 'weights', tol=1e-12)
    ctx.check(G.N == len(W) and G.n_vertices == len(W), f'N={G.N}')
    ctx.check(G.Ne == len(ref.edges(W)), f'Ne={G.Ne}, want {len(ref.edges(W))}')
    ctx.check(bool(G.is_directed()) == ref.is_directed(W), 'directedness')
    ctx.check(G.lap_type == lt, f'lap_type {G.lap_type}')
    if len(W) <= 64:
        ctx.close(G.L, ref.laplacian(W, lt), 'Laplacian', tol=1e-10)
    if coords is not None:
        if np.ndim(coords):
            ctx.close(G.coords, coords, 'coordinates', tol=1e-12)
        ctx.check(np.isfinite(G.coords).all() and len(G.coords) == len(W), 'coordinates not finite or of the wrong number')
        ctx.check(len(np.unique(np.round(G.coords, 9), axis=0)) == len(W), 'two vertices at the same place')
    n = len(W)
    ctx.check(not G.signals, f'signals {G.signals}')


def circ(n, ks):
    W = np.zeros((n, n))
    for i in range(n):
        for k in ks:
            W[i, (i + k) % n] = W[(i + k) % n, i] = 1
    return W


def product(A, B):
    """Cartesian product, first factor slow."""
    return np.kron(A, np.eye(len(B))) + np.kron(np.eye(len(A)), B)


def run(case, ctx):
    k = case['kind']
    if k == 'ring':
        n = case['n']
        a = 2 * np.pi * np.arange(n) / n
        for d in case.get('ds') or range(1, n // 2 + 1):
            W = circ(n, range(1, d + 1))
            G = build(ctx, 'Ring', (n, d), {}, W, np.stack([np.cos(a), np.sin(a)], 1))
            if G is not None:
                ctx.check(f'k={d}' in repr(G), f'repr {G!r}')
                e = sorted(sum((2 if 2 * j < n else 1) * (1 - np.cos(2 * np.pi * f * j / n)) for j in range(1, d + 1)) for f in range(n))
                ctx.close(G.e, e, 'spectrum is that of the DFT', tol=1e-9)
                ctx.close(build(ctx, 'Ring', (n,), dict(k=d), W, 1).W, W, 'keyword')
    elif k == 'path':
        for n in range(1, case['top'] + 1):
            W = ref.arr(gen.path(n))
            c = np.stack([np.arange(n), np.zeros(n)], 1)
            G = build(ctx, 'Path', (n,), {}, W, c)
            if G is not None:
                ctx.close(G.e, 2 - 2 * np.cos(np.pi * np.arange(n) / n), 'spectrum is that of the DCT', tol=1e-9)
            build(ctx, 'Path', (n,), dict(directed=True), np.triu(W), c)
            build(ctx, 'Path', (n, False), {}, W, c)
    elif k == 'comet':
        n = case['n']
        for d in range(0 if n < 3 else 1, n):
            W = np.zeros((n, n))
            for i in range(1, d + 1):
                W[0, i] = W[i, 0] = 1
            for i in range(d, n - 1):
                W[i, i + 1] = W[i + 1, i] = 1
            build(ctx, 'Comet', (n, d), {}, W, 1 if d > 1 or n < 2 else None)
    elif k == 'star':
        for n in range(2, case['top'] + 1):
            G = build(ctx, 'Star', (n,), {}, ref.arr(gen.star(n)), 1)
            if G is not None:
                ctx.close(np.linalg.norm(G.coords, axis=1), [0] + [1] * (n - 1), 'branches are at distance one of the center')
    elif k == 'full':
        for n in range(1, case['top'] + 1):
            build(ctx, 'FullConnected', (n,), {}, ref.arr(gen.full(n)), None)
    elif k == 'grid':
        a = case['a']
        for b in range(1, case['top'] + 1):
            for d in (0.0, 1, 0.5):
                W = np.zeros((a * b, a * b))
                for i, j, u, v in itertools.product(range(a), range(b), range(a), range(b)):
                    s = abs(i - u) + abs(j - v)
                    if s == 1:
                        W[i * b + j, u * b + v] = 1
                    elif abs(i - u) == 1 and abs(j - v) == 1:
                        W[i * b + j, u * b + v] = d
                c = np.array([[j / b, (a - 1 - i) / a] for i in range(a) for j in range(b)])
                G = build(ctx, 'Grid2d', (a, b), dict(diagonal=d), W, c)
                if d == 0:
                    build(ctx, 'Grid2d', (a, b), {}, W, c)
                    if a == b:
                        build(ctx, 'Grid2d', (a,), {}, W, c)
                    if G is not None:
                        e = [4 - 2 * np.cos(np.pi * i / a) - 2 * np.cos(np.pi * j / b) for i in range(a) for j in range(b)]
                        ctx.close(G.e, sorted(e), 'spectrum of the product of two paths', tol=1e-9)
    elif k == 'torus':
        a = case['a']
        for b in range(3, case['top'] + 1):
            W = product(circ(b, [1]), circ(a, [1]))
            u, v = np.meshgrid(np.arange(b), np.arange(a), indexing='ij')
            u, v = u.ravel() * 2 * np.pi / b, v.ravel() * 2 * np.pi / a
            c = np.stack([np.cos(v) * (1.5 + np.sin(u)), np.sin(v) * (1.5 + np.sin(u)), np.cos(u)], 1)
            build(ctx, 'Torus', (a, b), {}, W, c)
            if a == b:
                build(ctx, 'Torus', (a,), {}, W, c)
    elif k == 'tree':
        tree(case['k'], ctx)
    elif k == 'line':
        for W in case['graphs']:
            line(ref.arr(W), ctx)
    elif k == 'invalid':
        invalid(ctx)
    elif k == 'defaults':
        defaults(ctx)
    else:
        files(ctx)


def tree(k, ctx):
    from pygsp import graphs
    for lt in ('combinatorial', 'normalized'):
        ctx.prefix = f'LowStretchTree({k}) '
        G = graphs.LowStretchTree(k, lap_type=lt)
        ctx.op()
        ctx.trace()
        W = G.W.toarray()
        n = 4 ** k
        ctx.check(W.shape == (n, n) and G.N == n, f'{len(W)} vertices')
        ctx.check((W == W.T).all() and set(np.unique(W)) <= {0, 1} and not W.diagonal().any(), 'not a simple unweighted undirected graph')
        ctx.check(len(ref.components(W)) == 1 and W.sum() == 2 * (n - 1) and G.Ne == n - 1, f'not a spanning tree: {G.Ne} edges')
        ctx.check(sorted(map(tuple, G.coords.astype(int).tolist())) == sorted(itertools.product(range(1, 2 ** k + 1), repeat=2)), 'not the grid of 2^k x 2^k points')
        far = max(np.abs(G.coords[i] - G.coords[j]).sum() for i in range(n) for j in range(n) if W[i, j])
        ctx.check(far == 1, f'an edge joins points at distance {far}')
        ctx.check(G.root == 4 ** (k - 1), f'root {G.root}')
        ctx.close(G.L, ref.laplacian(W, lt), 'Laplacian', tol=1e-10) if n <= 64 else None
        ctx.state(k, lt)


def line(W, ctx):
    from pygsp import graphs
    n = len(W)
    ctx.prefix = f'line graph of {W.tolist() if n < 8 else n} '
    es = ref.edges(W)
    if not es:
        return
    c = np.stack([np.arange(n) * 1., np.arange(n) ** 2.], 1)
    A = np.zeros((len(es), len(es)))
    for (a, (i, j, _)), (b, (u, v, _)) in itertools.product(enumerate(es), repeat=2):
        if a != b and {i, j} & {u, v}:
            A[a, b] = 1
    for lt in ('combinatorial', 'normalized'):
        for coords in (c, None):
            G = graphs.Graph(W.copy(), coords=coords, plotting=dict(vertex_size=3))
            src, dst, _ = G.get_edge_list()
            order = sorted(range(len(es)), key=lambda i: (src[i], dst[i]))
            ctx.op()
            LG = ctx.safe(lambda: graphs.LineGraph(G, lap_type=lt), 'construction')
            if LG is None:
                continue
            ctx.trace()
            P = np.empty_like(A)
            P[np.ix_(order, order)] = A
            ctx.close(LG.W, P, 'weights', tol=0)
            ctx.close(LG.L, ref.laplacian(P, lt), 'Laplacian', tol=1e-10)
            if coords is not None:
                want = np.array([(c[i] + c[j]) / 2 for i, j in zip(src, dst)])
                ctx.close(LG.coords, want, 'edge midpoints', tol=1e-12)
            else:
                ctx.check(getattr(LG, 'coords', None) is None, 'coordinates invented')
            ctx.close(G.W, W, 'the graph changed', tol=0)
            ctx.check(G.lap_type == 'combinatorial' and G.Ne == len(es), 'the graph changed')
            ctx.state(P, lt)


def invalid(ctx):
    from pygsp import graphs
    for n in range(0, 8):
        for k in range(1, 8):
            if n < 3 or 2 * k > n:
                ctx.raises(lambda: graphs.Ring(n, k), f'Ring({n}, {k}) accepted', ValueError)
            if k > n - 1 and n:
                ctx.raises(lambda: graphs.Comet(n, k), f'Comet({n}, {k}) accepted', ValueError)
            ctx.state(n, k)
    ctx.raises(lambda: graphs.Path(5, lap_type='unknown'), 'unknown Laplacian accepted', ValueError)


def defaults(ctx):
    """Documented default sizes, and options given by the user."""
    from pygsp import graphs
    for name, n, kw in (('Ring', 64, {}), ('Path', 16, {}), ('Comet', 32, {}), ('Star', 10, {}), ('FullConnected', 10, {}), ('Grid2d', 256, {}),
                        ('Torus', 256, {}), ('LowStretchTree', 4 ** 6, {})):
        G = getattr(graphs, name)()
        ctx.op()
        ctx.trace()
        ctx.check(G.N == n, f'{name}() has {G.N} vertices')
        ctx.state(name)
    ctx.check(graphs.Comet().k == 12 and graphs.Ring().k == 1, 'default number of neighbors')
    G = graphs.Star(7, plotting=dict(vertex_size=3))
    ctx.check(G.plotting['vertex_size'] == 3, 'plotting options of the star ignored')
    G = graphs.Comet(7, 3, plotting=dict(vertex_size=3))
    ctx.check(G.plotting['vertex_size'] == 3, 'plotting options of the comet ignored')


def files(ctx):
    """The graphs that ship with the package, against the data files read directly."""
    from scipy import io, sparse
    from pygsp import graphs
    d = os.path.join(os.path.dirname(graphs.__file__), '..', 'data')

    def mat(name):
        return io.loadmat(os.path.join(d, 'pointclouds', name + '.mat'))
    for lt in ('combinatorial', 'normalized'):
        m = mat('logogsp')
        G = graphs.Logo(lap_type=lt)
        same(G, m['W'], m['coords'], lt, ctx, 'Logo')
        for k in ('idx_g', 'idx_s', 'idx_p'):
            ctx.close(G.info[k], m[k].astype(int) - 1, f'Logo letters {k}', tol=0)
        m = mat('airfoil')
        n = 4253
        i, j = m['i_inds'].ravel().astype(int) - 1, m['j_inds'].ravel().astype(int) - 1
        A = sparse.coo_matrix((np.ones(len(i)), (i, j)), (n, n)).tocsr()
        same(graphs.Airfoil(lap_type=lt), (A + A.T) / 2, np.hstack([m['x'], m['y']]), lt, ctx, 'Airfoil')
        m = mat('minnesota')
        A = sparse.csr_matrix(m['A']).astype(float)
        same(graphs.Minnesota(connected=False, lap_type=lt), A, m['xy'], lt, ctx, 'Minnesota original')
        B = A.tolil()
        B[348, 354] = B[354, 348] = 1
        B = (B.tocsr() > 0).astype(float)
        G = graphs.Minnesota(lap_type=lt)
        same(G, B, m['xy'], lt, ctx, 'Minnesota connected')
        ctx.check(G.is_connected() and not G.is_weighted(), 'Minnesota: neither connected nor binary')
        for N in (64, 500):
            m = mat(f'david{N}')
            same(graphs.DavidSensorNet(N, lap_type=lt), m['W'], m['coords'], lt, ctx, f'DavidSensorNet {N}')
    same(graphs.DavidSensorNet(seed=3), mat('david64')['W'], mat('david64')['coords'], 'combinatorial', ctx, 'DavidSensorNet default')


def same(G, W, coords, lt, ctx, what):
    from scipy import sparse
    ctx.op()
    ctx.trace()
    W = sparse.csr_matrix(W).astype(float)
    ctx.check(G.W.shape == W.shape and abs(G.W.astype(float) - W).sum() == 0, f'{what}: weights')
    ctx.close(G.coords, coords.astype(float), f'{what}: coordinates', tol=0)
    ctx.check(G.lap_type == lt, f'{what}: lap_type')
    S = (W + W.T) / 2
    d = np.asarray(S.sum(1)).ravel()
    if lt == 'combinatorial':
        L = sparse.diags(d) - S
    else:
        q = np.where(d > 0, 1 / np.sqrt(np.where(d > 0, d, 1)), 0)
        L = sparse.diags((d > 0) * 1.) - sparse.diags(q) @ S @ sparse.diags(q)
    e = abs(G.L - L).max()
    ctx.check(e < 1e-10, f'{what}: Laplacian off by {e}')
    ctx.state(what, lt)
