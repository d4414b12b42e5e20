"""P24: no call modifies what it was given, and the layout or protection of arrays in memory does not matter."""
import copy
import itertools

import numpy as np
from scipy import sparse

from . import gen
from .obs import same, snapshot

BOUNDS = dict(
    quick='about 90 calls of the whole API x 6 memory forms of their arrays (plain, Fortran, strided, reversed, read-only, big-endian) and 4 other types of numbers x 3 states of the graph '
          '(fresh, estimated, decomposed), 4 sparse forms; all ordered pairs of calls sharing one set of arguments',
    thorough='the same on 6 graphs, ordered triples')
CHUNK = 2
ASSUMPTIONS = ['a signal attached to a graph and an adjacency given as CSR are shared, not copied (documented)', 'seeds are given']
NATIVE = ('W', 'Wdir')      # SciPy has no sparse matrices of foreign byte order
FORMS = ['plain', 'fortran', 'strided', 'reversed', 'readonly', 'bigendian']


def form(x, how):
    """The same values, another layout in memory."""
    if isinstance(x, list):
        return [form(v, how) for v in x] if any(isinstance(v, (np.ndarray, list)) for v in x) else list(x)
    if isinstance(x, dict):
        return {k: form(v, how) for k, v in x.items()}
    if sparse.issparse(x):
        y = x.copy()
        if how == 'readonly':
            for a in ('data', 'indices', 'indptr', 'row', 'col'):
                if isinstance(getattr(y, a, None), np.ndarray):
                    getattr(y, a).setflags(write=False)
        return y
    if not isinstance(x, np.ndarray):
        return x
    if how == 'fortran':
        return np.array(x, order='F')
    if how == 'strided':
        big = np.full([2 * s for s in x.shape], 77, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == 'reversed':
        s = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[s])[s]
    if how == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y
    if how == 'bigendian':
        return x.astype(x.dtype.newbyteorder('>'))
    return x.copy()


def narrow(x, dt):
    """The same values as far as they fit, in another type of numbers."""
    if isinstance(x, list):
        return [narrow(v, dt) for v in x] if any(isinstance(v, np.ndarray) for v in x) else list(x)
    if not isinstance(x, np.ndarray) or x.dtype.kind not in 'iuf' or not x.size:
        return x
    if dt == 'float32' and x.dtype.kind == 'f':
        return x.astype(dt)
    if dt != 'float32' and (x == np.round(x)).all() and (x.min() >= 0 or dt == 'int16'):
        return x.astype(dt)
    return x.copy()


def frozen(x):
    """A deep picture of an argument."""
    if isinstance(x, np.ndarray):
        return 'a', x.shape, str(x.dtype), x.tobytes(), x.flags.writeable
    if sparse.issparse(x):
        return 's', x.format, str(x.dtype), x.shape, x.nnz, np.asarray(x.toarray()).tobytes()
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [frozen(v) for v in x]
    if isinstance(x, dict):
        return 'd', [(k, frozen(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0]))]
    if hasattr(x, 'W') and hasattr(x, 'signals'):
        return 'G', id(x)
    if callable(x):
        return 'f', id(x)
    return repr(x)


def flat(r, out=None):
    """The numbers of a result."""
    out = [] if out is None else out
    if r is None:
        out.append(np.zeros(0))
    elif sparse.issparse(r):
        out.append(r.toarray().astype(float))
    elif hasattr(r, '_kernels'):
        out.append(np.asarray(r.evaluate(np.linspace(0, 2., 9)) if not hasattr(r, '_modulation_first') else r.evaluate(r.G.e)))
    elif hasattr(r, 'W') and hasattr(r, 'signals'):
        out.append(r.W.toarray().astype(float))
        out.append(r.L.toarray())
        c = getattr(r, 'coords', None)
        if c is not None:
            out.append(np.asarray(c, dtype=float))
        for k in sorted(r.signals):
            out.append(np.asarray(r.signals[k], dtype=float))
    elif isinstance(r, dict):
        for k in sorted(r, key=str):
            flat(r[k], out)
    elif isinstance(r, (list, tuple)) and not (r and all(np.isscalar(v) for v in r)):
        for v in r:
            flat(v, out)
    elif hasattr(r, 'edges') and hasattr(r, 'nodes'):
        out.append(np.array(sorted((u, v, d['weight']) for u, v, d in r.edges(data=True)), dtype=float).reshape(-1, 3))
    else:
        a = np.asarray(r)
        if a.dtype.kind in 'biufc':
            out.append(a.astype(complex if a.dtype.kind == 'c' else float))
    return out


def graph(name):
    from pygsp import graphs
    W = dict(path=gen.weighted(gen.path(6)), ring=gen.ring(7), loops=np.array([[1.5, 1, 0, 2], [1, 0, 2, 0], [0, 2, 0, 1], [2, 0, 1, 0]]),
             star=gen.weighted(gen.star(6)), grid=gen.grid(2, 4), full=gen.weighted(gen.full(5)))[name]
    n = len(W)
    G = graphs.Graph(np.array(W, dtype=float), coords=np.stack([np.cos(np.arange(n)), np.sin(np.arange(n) * 2.)], 1))
    G.set_signal(np.arange(n) * 1.5, 'given')
    return G


def prepare(G, state):
    if state == 'estimated':
        G.estimate_lmax('bounds')
        G.compute_differential_operator()
    elif state == 'decomposed':
        G.compute_fourier_basis()
    return G


def inputs(G):
    """Arguments shared by the calls."""
    n = G.N
    rs = np.random.RandomState(1)
    W = G.W.toarray()
    L = G.L.tocsr().astype(float)
    img = np.abs(np.sin(np.arange(12.) * 2.1)).reshape(3, 4)
    half = list(range(0, n, 2))
    return dict(
        W=W, Wcsr=sparse.csr_matrix(W), Wcsc=sparse.csc_matrix(W), Wcoo=sparse.coo_matrix(W), Wdir=np.triu(W) * 2, Wzero=zeros(W), L=L, Ld=L.toarray(),
        Lcsc=L.tocsc(), x=rs.uniform(-1, 1, n), X=rs.uniform(-1, 1, (n, 3)), X3=rs.uniform(-1, 1, (n, 2, 3)), Xi=np.arange(n), y=np.arange(G.Ne) * 1. - 1,
        Y=rs.uniform(-1, 1, (G.Ne, 2)), pts=rs.uniform(0, 1, (12, 2)), img=img, img3=np.stack([img, img ** 2, 1 - img], 2), mask=np.arange(n) % 2 == 0,
        labels=np.arange(n) % 2, real=np.where(np.arange(n) % 2 == 0, np.arange(n) * 1., np.nan), meas=rs.uniform(-1, 1, n), meas2=rs.uniform(-1, 1, (n, 2)), half=half,
        halfa=np.array(half), perm=np.array(list(range(n))[::-1]), ind=np.array([0, n - 1]), z=np.arange(12) % 2, p=np.array([.8, .5]), q=np.array([[0, .2], [.2, 0]]),
        M=np.array([[.7, .2], [.2, .6]]), sizes=[5, 7], angles=np.array([0., .5, 1.7, 3, 4.4, 5]), e=np.linspace(0, 2, 7), E=np.linspace(0, 2, 6).reshape(2, 3),
        scales=[1., 2., 5.], scalesa=np.array([1., 2., 5.]), scales5=np.array([8., 4, 2, 1, .5]), times=[1, 3.], speeds=np.array([.5, 1.]), kernels=[np.cos, np.exp, np.sqrt], cheb=np.array([1., .5, .25, -1]),
        cheb2=np.array([[1., .5, .25, -1], [0, 1, 2, 3.]]), bounds=[.2, .6], rng2=np.array([0., 2.]), coords=rs.uniform(0, 1, (n, 2)), coords1=np.arange(n) * 2., coords3=rs.uniform(0, 1, (n, 3)),
        plotting=dict(vertex_size=5, edge_color='k', vertex_color=np.array([.1, .2, .3, .4])), fixed=[0, 1], hfilters=[lambda v: 1 / (1 + v), lambda v: 1 / (1 + 2 * v)],
        colors=[(0, 0, 0)] * n, sub=rs.uniform(-1, 1, len(half)), sub2=rs.uniform(-1, 1, (len(half), 2)), edgesig=rs.uniform(1, 2, G.Ne), hl=[0, 2], limits=[-1., 1.])


def zeros(W):
    """A CSR matrix with explicitly stored zeros."""
    W = np.array(W)
    i, j = np.nonzero(np.ones_like(W))
    return sparse.csr_matrix((W[i, j], (i, j)), shape=W.shape)


def calls():
    from pygsp import features, filters, graphs, learning, reduction, utils
    from pygsp.filters import approximations as ap
    gr, fi = graphs.Graph, filters.Filter
    bank = lambda G: fi(G, [lambda v: np.exp(-v), lambda v: 1 / (1 + v), lambda v: v])
    one = lambda G: fi(G, lambda v: np.exp(-v))
    kw = dict(rtol=1e-4, maxit=40, verbosity='NONE')

    def mr(G, **k):
        return reduction.graph_multiresolution(G, 2 if G.N > 5 else 1, sparsify=False, **k)

    def layout(**k):
        def f(G, a):
            H = gr(G.W, coords=G.coords)
            H.set_coordinates(**{b: (a[v] if v in a and b not in ('kind', ) or b == 'kind' and v in a else v) for b, v in k.items()})
            return H
        return f

    def plot(**k):
        def f(G, a):
            import matplotlib
            matplotlib.use('agg')
            from matplotlib import pyplot as plt
            fig, ax = plt.subplots()
            try:
                G.plot(ax=ax, **{b: (a[v] if isinstance(v, str) and v in a else v) for b, v in k.items()})
                return [np.asarray(c.get_offsets()) for c in ax.collections]
            finally:
                plt.close(fig)
        return f

    def sbm(**k):
        return lambda G, a: graphs.StochasticBlockModel(12, 2, seed=3, **{b: a[v] for b, v in k.items()})

    def signal(key):
        def f(G, a):
            H = gr(G.W)
            H.set_signal(a[key], 's')
            H.set_signal(a['Xi'], 't')
            return [H, H.subgraph(a['half'])]
        return f

    def nx(G, a):
        import networkx
        g = networkx.from_numpy_array(a['W'])
        networkx.set_node_attributes(g, {i: float(v) for i, v in enumerate(a['x'])}, 's')
        before = (dict(g.nodes(data=True)), list(g.edges(data=True)))
        before = copy.deepcopy(before)
        H = gr.from_networkx(g)
        assert before == (dict(g.nodes(data=True)), list(g.edges(data=True))), 'the NetworkX graph was modified'
        return H
    c = {
        'Graph dense': lambda G, a: gr(a['W'], coords=a['coords'], plotting=a['plotting']),
        'Graph directed': lambda G, a: gr(a['Wdir'], lap_type='normalized'),
        'Graph csr': lambda G, a: gr(a['Wcsr']), 'Graph csc': lambda G, a: gr(a['Wcsc'], 'normalized'), 'Graph coo': lambda G, a: gr(a['Wcoo']),
        'Graph explicit zeros': lambda G, a: gr(a['Wzero']),
        'LineGraph': lambda G, a: graphs.LineGraph(G),
        'NNGraph': lambda G, a: graphs.NNGraph(a['pts'], k=3), 'NNGraph raw': lambda G, a: graphs.NNGraph(a['pts'], k=3, center=False, rescale=False),
        'NNGraph radius': lambda G, a: graphs.NNGraph(a['pts'], NNtype='radius', epsilon=.4, rescale=False),
        'NNGraph backend': lambda G, a: graphs.NNGraph(a['pts'], k=3, use_flann=False, symmetrize_type='maximum', dist_type='manhattan'),
        'ImgPatches': lambda G, a: graphs.ImgPatches(a['img'], patch_shape=(3, 3), k=3), 'ImgPatches rgb': lambda G, a: graphs.ImgPatches(a['img3'], k=3),
        'Grid2dImgPatches': lambda G, a: graphs.Grid2dImgPatches(a['img'], patch_shape=(3, 3), k=3),
        'SBM z': sbm(z='z', p='p', q='q'), 'SBM M': sbm(z='z', M='M'), 'SBM pq': sbm(p='p', q='q'), 'Community': lambda G, a: graphs.Community(12, Nc=2, comm_sizes=a['sizes'], seed=2),
        'RandomRing': lambda G, a: graphs.RandomRing(angles=a['angles']), 'from_networkx': nx,
        'set_signal 1': signal('x'), 'set_signal 2': signal('X'),
        'layout array': layout(kind='coords'), 'layout array1': layout(kind='coords1'), 'layout array3': layout(kind='coords3'),
        'layout spring': layout(kind='spring', seed=1, iterations=5, pos='coords', fixed='fixed'), 'layout eigen': layout(kind='laplacian_eigenmap2D'),
        'subgraph list': lambda G, a: G.subgraph(a['half']), 'subgraph array': lambda G, a: G.subgraph(a['perm']), 'subgraph mask': lambda G, a: G.subgraph(a['mask']),
        'components': lambda G, a: G.extract_components(), 'gft': lambda G, a: abs2(G.gft(a['x'])), 'gft 2': lambda G, a: abs2(G.gft(a['X'])), 'gft 3': lambda G, a: abs2(G.gft(a['X3'])),
        'igft': lambda G, a: G.igft(G.gft(a['X'])), 'grad': lambda G, a: G.grad(a['x']), 'grad 2': lambda G, a: G.grad(a['X']), 'grad int': lambda G, a: G.grad(a['Xi']), 'div': lambda G, a: G.div(a['y']),
        'div 2': lambda G, a: G.div(a['Y']), 'dirichlet': lambda G, a: G.dirichlet_energy(a['x']), 'dirichlet 2': lambda G, a: G.dirichlet_energy(a['X']),
        'to_networkx': lambda G, a: G.to_networkx(), 'edge list': lambda G, a: list(G.get_edge_list()), 'W A d dw L': lambda G, a: [G.W, G.A * 1., G.d, G.dw, G.L],
        'Filter list': lambda G, a: fi(G, a['kernels']), 'bank +': lambda G, a: fi(G, a['kernels']) + fi(G, a['kernels'])[:2], 'Heat list': lambda G, a: filters.Heat(G, a['scales']),
        'Heat array': lambda G, a: filters.Heat(G, a['scalesa'], normalize=True), 'Wave': lambda G, a: filters.Wave(G, a['times'], a['speeds']), 'Wave one': lambda G, a: filters.Wave(G, a['times'], .5),
        'Meyer scales': lambda G, a: filters.Meyer(G, 6, scales=a['scales5']), 'SimpleTight scales': lambda G, a: filters.SimpleTight(G, 6, scales=a['scales5']),
        'MexicanHat scales': lambda G, a: filters.MexicanHat(G, 6, scales=a['scales5']), 'Abspline scales': lambda G, a: filters.Abspline(G, 6, scales=a['scales5']),
        'evaluate': lambda G, a: bank(G).evaluate(a['e']), 'evaluate 2': lambda G, a: filters.Itersine(G).evaluate(a['E']), 'evaluate designs': lambda G, a: [d(G).evaluate(a['e']) for d in
            (filters.Abspline, filters.Expwin, filters.HalfCosine, filters.Held, filters.MexicanHat, filters.Meyer, filters.Papadakis, filters.Rectangular, filters.Regular, filters.Simoncelli, filters.SimpleTight)],
        'filter exact': lambda G, a: bank(G).filter(a['x'], method='exact'), 'filter exact 2': lambda G, a: bank(G).filter(a['X'], method='exact'), 'filter exact 3': lambda G, a: bank(G).filter(a['X3'], method='exact'),
        'filter': lambda G, a: bank(G).filter(a['x']), 'filter 2': lambda G, a: bank(G).filter(a['X']), 'filter 3': lambda G, a: bank(G).filter(a['X3']), 'filter int': lambda G, a: one(G).filter(a['Xi']), 'matmul': lambda G, a: bank(G) @ a['x'],
        'analyze': lambda G, a: bank(G).analyze(a['x'], order=10), 'synthesize': lambda G, a: bank(G).synthesize(a['X3'], order=10), 'localize': lambda G, a: one(G).localize(1),
        'frame bounds': lambda G, a: list(bank(G).estimate_frame_bounds(a['e'])), 'complement': lambda G, a: bank(G).complement(20.).evaluate(a['e']), 'inverse': lambda G, a: bank(G).inverse().evaluate(a['e']),
        'frame': lambda G, a: bank(G).compute_frame(method='exact'), 'modulation': lambda G, a: filters.Modulation(G, filters.Heat(G, 2)).filter(a['x']), 'gabor': lambda G, a: abs(filters.Gabor(G, filters.Heat(G, 2)).filter(a['x'])).sum(),
        'cheby_op': lambda G, a: ap.cheby_op(G, a['cheb'], a['x']), 'cheby_op 2': lambda G, a: ap.cheby_op(G, a['cheb2'], a['X']), 'cheby_rect': lambda G, a: ap.cheby_rect(G, a['bounds'], a['x']),
        'jackson': lambda G, a: ap.compute_jackson_cheby_coeff(a['bounds'], a['rng2'], 6), 'lanczos_op': lambda G, a: ap.lanczos_op(bank(G), a['x'], order=4), 'lanczos_op 2': lambda G, a: ap.lanczos_op(one(G), a['X'], order=4),
        'lanczos': lambda G, a: abs2(ap.lanczos(a['Ld'], 3, a['x'])[1]),
        'regression': lambda G, a: learning.regression_tikhonov(G, a['meas'], a['mask'], tau=1.), 'regression 2': lambda G, a: learning.regression_tikhonov(G, a['meas2'], a['mask'], tau=1.),
        'regression 0': lambda G, a: learning.regression_tikhonov(G, a['meas'], a['mask'], tau=0), 'regression nan': lambda G, a: learning.regression_tikhonov(G, a['real'], a['mask'], tau=.5),
        'regression int': lambda G, a: learning.regression_tikhonov(G, a['Xi'], a['mask'], tau=0), 'classification': lambda G, a: learning.classification_tikhonov(G, a['labels'], a['mask'], tau=1.),
        'classification 0': lambda G, a: learning.classification_tikhonov(G, a['labels'], a['mask'], tau=0), 'simplex': lambda G, a: learning.classification_tikhonov_simplex(G, a['labels'], a['mask'], tau=.5, **kw),
        'kron': lambda G, a: reduction.kron_reduction(G, a['half']), 'kron array': lambda G, a: reduction.kron_reduction(G, a['halfa']), 'kron L': lambda G, a: reduction.kron_reduction(a['L'], a['half']), 'kron csc': lambda G, a: reduction.kron_reduction(a['Lcsc'], a['ind']),
        'sparsify': lambda G, a: reduction.graph_sparsify(G, .9, seed=2), 'sparsify L': lambda G, a: reduction.graph_sparsify(a['L'], .9, seed=2), 'interpolate': lambda G, a: reduction.interpolate(G, a['sub'], a['half']),
        'interpolate 2': lambda G, a: reduction.interpolate(G, a['sub2'], a['halfa'], order=20), 'multiresolution': lambda G, a: [np.sort(H.W.data) for H in mr(copy.deepcopy(G))],
        'pyramid': lambda G, a: pyramid(reduction, mr(copy.deepcopy(G)), a['x'], a['hfilters'][:2 if G.N > 5 else 1]), 'pyramid 2': lambda G, a: pyramid(reduction, mr(copy.deepcopy(G)), a['X'], a['hfilters'][:1]),
        'resistance': lambda G, a: utils.resistance_distance(a['L']), 'resistance G': lambda G, a: utils.resistance_distance(G), 'distanz': lambda G, a: utils.distanz(a['X'], a['X']), 'distanz 1': lambda G, a: utils.distanz(a['x']),
        'rescale_center': lambda G, a: utils.rescale_center(a['X']), 'tig': lambda G, a: features.compute_tig(one(G)), 'norm tig': lambda G, a: features.compute_norm_tig(bank(G)),
        'plot': plot(vertex_color='x', vertex_size='meas', edge_color='edgesig', edge_width='edgesig', highlight='hl', limits='limits'), 'plot colors': plot(vertex_color='colors', highlight='hl', indices=True),
    }
    for m in ('average', 'maximum', 'fill', 'tril', 'triu'):
        c['symmetrize ' + m] = lambda G, a, m=m: [utils.symmetrize(a['Wdir'], m), utils.symmetrize(a['Wcsr'], m)]
    return c


def abs2(x):
    """Eigenvectors are defined up to their sign."""
    return np.sort(np.ravel(np.abs(x)))


def pyramid(reduction, Gs, f, h):
    ca, pe = reduction.pyramid_analysis(Gs, f, h_filters=h, method='exact')
    before = frozen([ca, pe])
    rec, _ = reduction.pyramid_synthesis(Gs, ca[-1], pe, method='exact')
    assert before == frozen([ca, pe]), 'the pyramid coefficients were modified by the synthesis'
    return rec


NAMES = None


def cases(tier):
    gs = ['path', 'full', 'grid'] if tier == 'quick' else ['path', 'full', 'grid', 'ring', 'star', 'loops']
    for g in gs:
        for i in range(12):
            yield dict(kind='forms', graph=g, part=i, parts=12, id=f'forms-{g}-{i}')
    for i in range(48):
        yield dict(kind='pairs', part=i, parts=48, depth=3 if tier == 'thorough' else 2, id=f'pairs-{i}')
    yield dict(kind='defaults', id='defaults')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def close(got, want, ctx, what, key):
    if not ctx.check(len(got) == len(want), f'{what}: {len(got)} results instead of {len(want)}', key=key):
        return
    for g, w in zip(got, want):
        ctx.close(g, w, what, tol=1e-6, key=key)


def run_forms(case, ctx):
    c = calls()
    for name in list(c)[case['part']::case['parts']]:
        f = c[name]
        for st in ('fresh', 'estimated', 'decomposed'):
            want = None
            for how in FORMS:
                G = prepare(graph(case['graph']), st)
                before = snapshot(G)
                a = {k: form(v, how) for k, v in inputs(G).items() if k not in NATIVE or how != 'bigendian'}
                a = {**inputs(G), **a}
                pic = {k: frozen(v) for k, v in a.items()}
                what = f'{name} on {case["graph"]}/{st}, {how} arguments'
                try:
                    r = flat(f(G, a))
                except Exception as e:
                    if want is None:
                        want = e
                        ctx.check(False, f'{what}: raised {type(e).__name__}: {e}', key='raises-' + name.replace(' ', '-'))
                    elif not isinstance(want, Exception):
                        ctx.check(False, f'{what}: raised {type(e).__name__}: {e}', key=f'raises-{how}-' + name.replace(' ', '-'))
                    continue
                ctx.op()
                ctx.trace()
                ctx.state(name, case['graph'], r)
                for k in a:
                    ctx.check(frozen(a[k]) == pic[k], f'{what}: argument {k} was modified', key='modified-' + name.replace(' ', '-'))
                ctx.check(set(G.signals) == {'given'}, f'{what}: the signals of the graph changed', key='signals-' + name.replace(' ', '-'))
                if how in ('plain', 'readonly'):
                    same_public(before, snapshot(G), ctx, what, st)
                if want is None:
                    want = r
                    protect(f, case, st, name, ctx)
                elif not isinstance(want, Exception):
                    close(r, want, ctx, what, f'result-{how}-' + name.replace(' ', '-'))


def protect(f, case, st, name, ctx):
    """Whatever the type of their numbers, arguments are left alone."""
    for dt in ('uint8', 'int16', 'float32', 'uint64'):
        G = prepare(graph(case['graph']), st)
        a = {k: narrow(v, dt) for k, v in inputs(G).items()}
        pic = {k: frozen(v) for k, v in a.items()}
        ctx.op()
        try:
            f(G, a)
        except Exception:
            pass
        for k in a:
            ctx.check(frozen(a[k]) == pic[k], f'{name} on {case["graph"]}/{st}, {dt} arguments: argument {k} was modified', key='modified-' + name.replace(' ', '-'))


def same_public(a, b, ctx, what, st):
    """lmax may be re-estimated by a call that needs it (the spectrum is exact afterwards)."""
    drop = ('lmax', 'e', 'U', 'coherence') if st != 'decomposed' else ()
    same({k: v for k, v in a.items() if k not in drop}, b, ctx, what)


def run_pairs(case, ctx):
    """Calls that share their arguments, one after the other."""
    c = calls()
    names = list(c)
    base = {}

    def fresh(n):
        G = prepare(graph('path'), 'decomposed')
        return flat(c[n](G, inputs(G)))
    for first in names[case['part']::case['parts']]:
        for rest in itertools.product(names, repeat=case['depth'] - 1):
            G = prepare(graph('path'), 'decomposed')
            a = inputs(G)
            try:
                for n in (first,) + rest[:-1]:
                    c[n](G, a)
                n = rest[-1]
                if n not in base:
                    base[n] = fresh(n)
                r = flat(c[n](G, a))
            except Exception as e:
                ctx.check(False, f'{first} then {rest}: raised {type(e).__name__}: {e}', key='pair-raises')
                continue
            ctx.op(2)
            ctx.trace()
            close(r, base[n], ctx, f'{n} after {first} with the same arguments', 'pair-' + n.replace(' ', '-'))
    ctx.state(case['part'], sorted(base))


def run_defaults(case, ctx):
    """Options given to one graph are not those of another; each graph has its own dictionaries."""
    from pygsp import graphs
    opts = dict(vertex_size=3, edge_style='--')
    G = graphs.Graph(gen.path(3), plotting=opts)
    H = graphs.Graph(gen.path(3))
    ctx.check(H.plotting['vertex_size'] == 100 and H.plotting['edge_style'] == '-', 'options leak into another graph')
    ctx.check(opts == dict(vertex_size=3, edge_style='--'), 'the options given were modified')
    G.plotting['vertex_size'] = 8
    ctx.check(opts['vertex_size'] == 3 and graphs.Graph(gen.path(3)).plotting['vertex_size'] == 100, 'options are shared')
    for f in (lambda **k: graphs.Ring(5, **k), lambda **k: graphs.Path(4, **k), lambda **k: graphs.Grid2d(3, **k), lambda **k: graphs.Torus(3, **k), lambda **k: graphs.Comet(6, 2, **k), lambda **k: graphs.Star(5, **k) if hasattr(graphs, 'Star') else graphs.Comet(5, 4, **k),
              lambda **k: graphs.FullConnected(4, **k), lambda **k: graphs.LowStretchTree(2, **k), lambda **k: graphs.Logo(**k), lambda **k: graphs.Airfoil(**k), lambda **k: graphs.Minnesota(**k), lambda **k: graphs.Sensor(12, seed=1, **k),
              lambda **k: graphs.Cube(nb_pts=20, seed=1, **k), lambda **k: graphs.Sphere(nb_pts=20, seed=1, **k), lambda **k: graphs.TwoMoons(seed=1, **k), lambda **k: graphs.Bunny(**k),
              lambda **k: graphs.SwissRoll(20, seed=1, **k), lambda **k: graphs.DavidSensorNet(20, seed=1, **k), lambda **k: graphs.ErdosRenyi(8, .5, seed=1, **k), lambda **k: graphs.BarabasiAlbert(8, seed=1, **k),
              lambda **k: graphs.StochasticBlockModel(8, 2, seed=1, p=.9, q=.5, **k), lambda **k: graphs.RandomRegular(8, 3, seed=1, **k), lambda **k: graphs.RandomRing(8, seed=1, **k), lambda **k: graphs.Community(12, seed=1, **k),
              lambda **k: graphs.LineGraph(graphs.Ring(5), **k), lambda **k: graphs.NNGraph(np.arange(12.).reshape(6, 2) ** 1.1, k=2, **k), lambda **k: graphs.Graph(gen.ring(4), **k)):
        a = f()
        b = f(lap_type='normalized')
        ctx.op(4)
        name = type(a).__name__
        ctx.check(a.lap_type == 'combinatorial' and b.lap_type == 'normalized', f'{name}: Laplacian type {a.lap_type}/{b.lap_type}', key='lap_type')
        ctx.close(b.W, a.W, f'{name}: the weights depend on the Laplacian type', key='lap-weights')
        from . import ref
        if a.N < 300:
            ctx.close(b.L, ref.laplacian(a.W.toarray(), 'normalized'), f'{name}: normalized Laplacian', tol=1e-9, key='lap-normalized')
        keys = set(a.plotting)
        o = dict(edge_style=':', extra='kept')
        try:
            p = f(plotting=o)
        except TypeError:
            p = None        # families that set their own options
        if p is not None:
            ctx.check(p.plotting.get('extra') == 'kept' and p.plotting['edge_style'] == ':', f'{name}: plotting options dropped', key='plotting-dropped')
            ctx.check(o == dict(edge_style=':', extra='kept'), f'{name}: the options given were modified: {o}', key='plotting-modified')
        content = lambda G: {k: (v.toarray() if hasattr(v, 'toarray') and G.N < 300 else v.data if hasattr(v, 'toarray') else np.array(v)).copy() for k, v in sorted(vars(G).items()) if isinstance(v, np.ndarray) and v.dtype.kind in 'biufcU' or hasattr(v, 'toarray')}
        was = content(a)
        for v in list(vars(a).values()) + list(getattr(a, 'info', {}).values()):
            v = v.data if hasattr(v, 'toarray') else v
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in 'iuf':
                v *= 2      # the graph belongs to the caller
        q = f()
        ctx.check(set(q.plotting) == keys and q.plotting['edge_style'] == a.plotting['edge_style'], f'{name}: options leak into the next graph', key='plotting-leak')
        now = content(q)
        ctx.check(all(np.array_equal(was[k], now.get(k)) for k in was), lambda: f'{name}: an edit of the previous graph is found in {[k for k in was if not np.array_equal(was[k], now.get(k))]} of the next one', key='data-leak')
        ctx.check(q.plotting is not a.plotting and q.signals is not a.signals, f'{name}: dictionaries are shared', key='shared-dict')
        ctx.trace()
        ctx.state(name, a.W)
