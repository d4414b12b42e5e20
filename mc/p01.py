"""P01: everything a graph reports is a function of its weight matrix alone."""
import itertools

import numpy as np
from scipy import sparse

from . import gen, ref

BOUNDS = dict(
    quick='all labelled symmetric W: N<=3 over {0,1,2.5} with diagonal {0,1.5}, N=4 over {0,1,2.5}, '
          'N=5 over {0,1}; all labelled directed W: N<=3 over {0,1,2.5}, N<=3 {0,1} with diagonal {0,1.5}; '
          '14 containers x 7 dtypes on all directed/undirected 3-vertex 0/1 graphs with loops; '
          'NaN/inf at every position and container; large named graphs (see DESIGN.md)',
    thorough='as quick, plus N=5 over {0,1,2.5}, N=6 over {0,1}, directed N=4 over {0,1} and {0,1,2.5} N=3 with loops')
CHUNK = 20
B = 24


def containers():
    def dup(W):
        c = sparse.coo_matrix(W)
        h = c.data / 2 if c.dtype.kind == 'f' else None
        if h is None:
            return c
        return sparse.coo_matrix((np.r_[h, h], (np.r_[c.row, c.row], np.r_[c.col, c.col])), shape=c.shape)

    def explicit0(W):
        n = len(W)
        i, j = np.indices((n, n))
        return sparse.csr_matrix((W.flatten(), j.ravel(), np.arange(0, n * n + 1, n)), shape=(n, n))

    def unsorted(W):
        n = len(W)
        j = np.tile(np.arange(n)[::-1], n)
        return sparse.csr_matrix((W[:, ::-1].ravel(), j, np.arange(0, n * n + 1, n)), shape=(n, n))
    return dict(list=lambda W: W.tolist(), array=np.array, fortran=np.asfortranarray,
                strided=lambda W: np.repeat(np.repeat(W, 2, 0), 2, 1)[::2, ::2],
                matrix=np.matrix,
                csr=sparse.csr_matrix, csc=sparse.csc_matrix, coo=sparse.coo_matrix,
                lil=sparse.lil_matrix, dok=sparse.dok_matrix, bsr=sparse.bsr_matrix,
                dia=sparse.dia_matrix, dup=dup, explicit0=explicit0, unsorted=unsorted)


DTYPES = ['bool', 'int8', 'uint8', 'int32', 'int64', 'float32', 'float64']


def cases(tier):
    fams = [('u', n, (0, 1, 2.5), (0, 1.5)) for n in (1, 2, 3)]
    fams += [('d', n, (0, 1, 2.5), None) for n in (2, 3)]
    fams += [('u', 4, (0, 1, 2.5), None), ('d', 3, (0, 1), (0, 1.5)), ('u', 5, (0, 1), None),
             ('u', 4, (0, 1), (0, 2))]
    if tier == 'thorough':
        fams += [('d', 4, (0, 1), None), ('d', 3, (0, 1, 2.5), (0, 1.5)), ('u', 5, (0, 1, 2.5), None),
                 ('u', 6, (0, 1), None)]
    for kind, n, w, loops in fams:
        g = list((gen.undirected if kind == 'u' else gen.directed)(n, w, loops))
        for k in range(0, len(g), B):
            yield dict(kind='graphs', graphs=g[k:k + B])
    # magnitudes: tiny, huge and nearly equal weights are weights
    shapes = [W for n in (2, 3) for kind in ('u', 'd') for W in (gen.undirected if kind == 'u' else gen.directed)(n, (0, 1, 2.5), None)]
    shapes += list(gen.directed(2, (0, 1, 2.5), (0, 1)))
    for lo, hi in ((1e-9, 3e-9), (1e-200, 1), (1, 1 + 1e-12), (1e15, 1), (1e-9, 1e9), (1e300, 1e-300)):
        g = [[[{0: 0, 1: lo, 2.5: hi}[v] for v in r] for r in W] for W in shapes]
        for k in range(0, len(g), B):
            yield dict(kind='graphs', graphs=g[k:k + B])
    for name, W in gen.medium():
        yield dict(kind='graphs', graphs=[W], id=name)
    reps = gen.iso_classes(3, (0, 1), (0, 1), 'directed') if tier == 'quick' else \
        list(gen.directed(3, (0, 1), (0, 1)))
    for c in containers():
        for k in range(0, len(reps), B):
            yield dict(kind='containers', container=c, graphs=reps[k:k + B])
    for n in (1, 2, 3):
        yield dict(kind='reject', n=n)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='large', name=name, id='large-' + name)
    yield dict(kind='options')


def observe(G, W, ctx, what=''):
    """Compare every public observation with the reference on the dense W."""
    n = len(W)
    for rnd in range(2):          # second round: cached answers
        w = f'{what}round{rnd} '
        ctx.op(14)
        ctx.close(G.W, W, w + 'W', tol=0)
        ctx.check(G.W.shape == (n, n), w + 'W.shape')
        ctx.check(G.N == n and G.n_vertices == n, w + 'n_vertices')
        E = ref.edges(W)
        ctx.check(G.n_edges == len(E) and G.Ne == len(E), lambda: f'{w}n_edges {G.n_edges} want {len(E)}')
        ctx.close(np.asarray(G.A.toarray()) != 0, W > 0, w + 'A')
        ctx.check(bool(G.is_directed()) == ref.is_directed(W), w + 'is_directed')
        ctx.check(bool(G.has_loops()) == bool(np.diag(W).any()), w + 'has_loops')
        ctx.check(bool(G.is_weighted()) == bool((W[W != 0] != 1).any()), w + 'is_weighted')
        ctx.check(bool(G.is_connected()) == ref.strongly_connected(W), w + 'is_connected')
        ctx.close(np.ravel(G.d), ref.deg(W), w + 'degree d')
        ctx.close(np.ravel(G.dw), ref.dw(W), w + 'weighted degree dw', tol=1e-6 if W.dtype == np.float32 else 1e-12, scale=W.max() if W.size and W.max() else 1)
        s, t, v = G.get_edge_list()
        got = list(zip(np.asarray(s).tolist(), np.asarray(t).tolist(), [float(x) for x in v]))
        if not ref.is_directed(W):
            got = [(min(a, b), max(a, b), c) for a, b, c in got]
        ctx.check(sorted(got) == E, lambda: f'{w}edge list {sorted(got)} want {E}')
    ctx.state(G.W, G.n_edges, G.d, G.dw, bool(G.is_connected()))


def run(case, ctx):
    from pygsp import graphs
    if case['kind'] == 'graphs':
        for gi, g in enumerate(case['graphs']):
            W = ref.arr(g)
            ctx.prefix = f'W={g} ' if len(g) < 6 else ''
            G = graphs.Graph(W.copy())
            ctx.op()
            ctx.trace()
            observe(G, W, ctx)
            ctx.check(G.signals == {} and not hasattr(G, 'nosuch'), 'fresh signals')
            if gi % 6 == 0:
                H = graphs.Graph(sparse.csr_matrix(W), lap_type='normalized')
                ctx.op()
                ctx.check(H.lap_type == 'normalized', 'lap_type kept')
                observe(H, W, ctx, 'csr ')
    elif case['kind'] == 'containers':
        build = containers()[case['container']]
        for g in case['graphs']:
            for dt in DTYPES:
                for scale in ((1, 100) if dt in ('int8', 'uint8') else (1,)):
                    # 100: sums of two exceed int8, of three exceed uint8
                    W = (np.array(g) * scale).astype(dt)
                    ctx.prefix = f'{case["container"]}/{dt} W={W.tolist()} '
                    ctx.trace()
                    X = build(W)
                    G = graphs.Graph(X)
                    ctx.op()
                    observe(G, W.astype(float), ctx)
                    for lt in ('combinatorial', 'normalized'):
                        G.compute_laplacian(lt)
                        ctx.op()
                        ctx.close(G.L, ref.laplacian(W.astype(float), lt), f'L {lt}',
                                  tol=1e-5 if dt == 'float32' else 1e-9)
    elif case['kind'] == 'large':
        W = gen.large(case['name'])
        n = len(W)
        for c, build in containers().items():
            if c in ('dup', 'explicit0', 'unsorted') and n > 150:
                continue
            ctx.prefix = f'{case["name"]} {c} '
            ctx.trace()
            ctx.op()
            observe(graphs.Graph(build(W.copy())), W, ctx)
        for dt in ('bool', 'int8', 'uint8', 'int32', 'float32'):
            V = np.ceil(W).astype(dt)
            ctx.prefix = f'{case["name"]} {dt} '
            for build in (np.array, sparse.csr_matrix):
                ctx.trace()
                ctx.op()
                observe(graphs.Graph(build(V)), V.astype(float), ctx)
        for i, j in ((n - 1, n - 1), (n - 1, 0), (0, n - 1), (n // 2, n // 3)):
            V = W.copy()
            V[i, j] = np.nan
            ctx.op(2)
            ctx.raises(lambda: graphs.Graph(V), 'accepted a NaN weight', ValueError)
            ctx.raises(lambda: graphs.Graph(sparse.coo_matrix(V)), 'accepted a sparse NaN weight', ValueError)
    elif case['kind'] == 'reject':
        n = case['n']
        for i, j in itertools.product(range(n), repeat=2):
            for bad in (np.nan, np.inf, -np.inf):
                for base in (0., 1.):
                    for c, build in containers().items():
                        if c in ('dup', 'dia'):
                            continue
                        W = np.full((n, n), base)
                        W[i, j] = bad
                        X = build(W)
                        ctx.prefix = f'{c} n={n} bad={bad} at {i},{j} base {base} '
                        ctx.trace()
                        ctx.raises(lambda: graphs.Graph(X), 'accepted a non-finite weight', ValueError)
        for shape in [(n, n + 1), (n + 1, n), (n * n + 1,), (n, n, n), (n + 1, 0)]:
            ctx.prefix = f'shape {shape} '
            ctx.trace()
            ctx.raises(lambda: graphs.Graph(np.ones(shape)), 'accepted a non-square adjacency', ValueError)
        for f in (sparse.csr_matrix, sparse.coo_matrix):
            ctx.raises(lambda: graphs.Graph(f(np.ones((n, n + 1)))), 'accepted a non-square sparse', ValueError)
        ctx.state(n)
    elif case['kind'] == 'options':
        W = ref.arr(gen.path(4))
        for lt in ('combinatorial', 'normalized'):
            for coords in (None, [[0, 0], [1, 2], [3, 1], [0, 5]], np.arange(4.), np.arange(12.).reshape(4, 3)):
                for plotting in ({}, dict(vertex_size=7), dict(edge_color='r', foo=1)):
                    ctx.trace()
                    G = graphs.Graph(W, lap_type=lt, coords=coords, plotting=plotting)
                    ctx.op()
                    observe(G, W, ctx)
                    ctx.check(G.lap_type == lt, 'lap_type')
                    if coords is not None:
                        ctx.close(G.coords, coords, 'coords kept')
                    for k, v in plotting.items():
                        ctx.check(G.plotting[k] == v, 'plotting option kept')
                    if not plotting:
                        ctx.check(G.plotting['vertex_size'] != 7 and 'foo' not in G.plotting,
                                  'plotting options leak between graphs')
                    ctx.raises(lambda: setattr(G, 'W', W), 'W can be replaced', AttributeError)
                    observe(G, W, ctx)
        ctx.raises(lambda: graphs.Graph(W, lap_type='nope'), 'unknown lap_type accepted', ValueError)
        for bad in (np.zeros(3), np.zeros(5), np.zeros((5, 4)), [1, 2]):
            G = graphs.Graph(W)
            ctx.raises(lambda: G.set_signal(bad, 's'), 'signal of wrong length accepted', ValueError)
            ctx.check(G.signals == {}, 'rejected signal attached')
        for good in ([1, 2, 3, 4], np.arange(8).reshape(4, 2), np.zeros((4, 2, 3)), [True, False, True, True]):
            G = graphs.Graph(W)
            G.set_signal(good, 's')
            ctx.op()
            ctx.trace()
            ctx.close(G.signals['s'], good, 'signal kept')
            ctx.check(list(G.signals) == ['s'], 'signal names')
