"""P32: names of vertices, units of weights and the other components of the graph do not matter."""
import itertools

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='all classes of graphs N<=4 {0,1,2.5} with an edge (loops and directed N=3), 0/1 classes N=5, medium graphs; both Laplacians; about 60 measures of the whole API under every relabelling (N<=3; half of them for N=4; all rotations, the reversal and every 40th permutation '
          'above), 6 units of weight from 1e-9 to 1e9, and the union with each of 4 other graphs before or after',
    thorough='0/1 classes N=6, classes N=5 {0,1,2.5}, directed classes N=4, every relabelling N<=5')
CHUNK = 2
ASSUMPTIONS = ['graphs with an edge; iterative solvers agree up to their tolerance', 'weights of graphs to sparsify stay above 1e-10 (documented noise)']


# ---- measures: name, unit exponent, kind, options, function(G, env) ----------------------------------------------------------
# kinds: vertex (first axis indexes vertices), matrix (vertex x vertex), spectrum (sorted, unions merge), scalar (whole graph)
# options: u undirected, c combinatorial, k connected, l local (holds in unions of components), g generic spectrum
MEASURES = []


def m(name, unit, kind, opt='', tol=1e-8):
    def deco(f):
        MEASURES.append((name, unit, kind, opt, tol, f))
        return f
    return deco


def dense(A):
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)


m('W', 1, 'matrix', 'l', 0)(lambda G, v: dense(G.W))
m('A', 0, 'matrix', 'l', 0)(lambda G, v: dense(G.A).astype(float))
m('d', 0, 'vertex', 'l', 1e-12)(lambda G, v: np.ravel(G.d))
m('dw', 1, 'vertex', 'l', 1e-12)(lambda G, v: np.ravel(G.dw))
m('answers', 0, 'scalar', '', 0)(lambda G, v: np.array([G.N, G.n_edges, G.is_connected(), G.is_directed(), G.has_loops()], float))
m('L', 1, 'matrix', 'lL', 1e-12)(lambda G, v: dense(G.L))
m('e', 1, 'spectrum', 'lL')(lambda G, v: G.e)
m('projector', 0, 'matrix', 'g')(lambda G, v: np.concatenate([np.outer(G.U[:, k], G.U[:, k])[..., None] for k in range(len(G.e))], 2))
m('gft-energy', 0, 'scalar', 'g')(lambda G, v: abs(G.gft(v['x'])))
m('parseval', 0, 'vertex', 'l')(lambda G, v: G.igft(G.gft(v['X'])))
m('coherence', 0, 'scalar', 'g')(lambda G, v: np.array([G.coherence]))
m('energy', 1, 'scalar', 'L')(lambda G, v: np.array([G.dirichlet_energy(v['x'])]))
m('div-grad', 1, 'vertex', 'lL')(lambda G, v: G.div(G.grad(v['x'])))
m('lmax-bounds', 1, 'scalar', 'L')(lambda G, v: estimated(G, 'bounds'))
m('lmax-lanczos', 1, 'scalar', 'L', 2e-2)(lambda G, v: estimated(G, 'lanczos'))


def fresh(G):
    from pygsp import graphs
    return graphs.Graph(G.W, lap_type=G.lap_type)


def estimated(G, method):
    H = fresh(G)
    H.estimate_lmax(method)
    return np.array([H.lmax])


@m('gradient', .5, 'matrix', 'lL')
def gradient(G, v):
    s, t, _ = G.get_edge_list()
    out = np.zeros((G.N, G.N))
    for i, j, g in zip(s, t, G.grad(v['x'])):
        out[i, j] += abs(g)
        if not G.is_directed():
            out[j, i] = out[i, j]
    return out


@m('components', 0, 'matrix', 'ul', 0)
def components(G, v):
    out = np.zeros((G.N, G.N))
    for H in G.extract_components():
        out[np.ix_(H.info['orig_idx'], H.info['orig_idx'])] = dense(H.W) / v['c'] + 1
    return out


@m('subgraph', 1, 'matrix', 'l', 0)
def subgraph(G, v):
    k = np.nonzero(v['m'])[0]
    out = np.zeros((G.N, G.N))
    out[np.ix_(k, k)] = dense(G.subgraph(k).W)
    return out


@m('line-graph', 0, 'scalar', 'u')
def line(G, v):
    from pygsp import graphs
    H = graphs.LineGraph(G)
    return np.concatenate([np.linalg.eigvalsh(dense(H.W).astype(float)), np.sort(dense(H.W).sum(0))])


@m('kron', 1, 'matrix', 'ucs', 1e-9)
def kron(G, v):
    from pygsp import reduction
    k = np.nonzero(v['keep'])[0]
    out = np.zeros((G.N, G.N))
    out[np.ix_(k, k)] = dense(reduction.kron_reduction(fresh(G), k).W)
    return out


@m('resistance', -1, 'matrix', 'ukc', 1e-6)
def resistance(G, v):
    from pygsp import utils
    return dense(utils.resistance_distance(fresh(G)))


def kernels(c, normalized):
    s = 1. if normalized else c
    return [lambda e: np.exp(-2 * e / s), lambda e: 1 / (1 + e / s), lambda e: e / s * np.exp(-e / s)]


def bank(G, v):
    from pygsp import filters
    return filters.Filter(G, kernels(v['c'], G.lap_type == 'normalized'))


for meth, tol in (('exact', 1e-8), ('chebyshev', 1e-8)):
    loc = 'l' if meth == 'exact' else ''
    m('analysis-' + meth, 0, 'vertex', loc, tol)(lambda G, v, meth=meth: bank(G, v).filter(v['x'], method=meth))
    m('analysis-many-' + meth, 0, 'vertex', loc, tol)(lambda G, v, meth=meth: bank(G, v).filter(v['X'], method=meth))
    m('synthesis-' + meth, 0, 'vertex', loc, tol)(lambda G, v, meth=meth: bank(G, v).filter(np.stack([v['x'], v['X'][:, 0], v['X'][:, 1]], 1)[:, None, :], method=meth))
    m('localize-' + meth, 0, 'matrix', '', tol)(lambda G, v, meth=meth: np.stack([bank(G, v).localize(i, method=meth) for i in range(G.N)], 1))
m('frame', 0, 'matrix', 'l')(lambda G, v: np.moveaxis(bank(G, v).compute_frame(method='exact').reshape(3, G.N, G.N), 0, 2))
m('frame-bounds', 0, 'scalar', '')(lambda G, v: np.array(bank(G, v).estimate_frame_bounds(G.e)))
m('inverse', 0, 'vertex', 'l', 1e-6)(lambda G, v: bank(G, v).inverse().filter(bank(G, v).filter(v['x'], method='exact'), method='exact'))


def design(name, **kw):
    def f(G, v):
        from pygsp import filters
        D = getattr(filters, name)
        g = D(G, **kw)
        return g.filter(v['x'], method='exact')
    return f


for name, kw in [('Heat', dict(scale=[.5, 6])), ('MexicanHat', dict(Nf=4)), ('Itersine', dict(Nf=5)), ('HalfCosine', dict(Nf=4)), ('Abspline', dict(Nf=4)), ('Held', {}), ('Papadakis', {}), ('Simoncelli', {}), ('Regular', {}),
                 ('Meyer', dict(Nf=4)), ('SimpleTight', dict(Nf=4)), ('Wave', dict(time=[1, 5], speed=.7)), ('Expwin', dict(band_min=.1, band_max=.6)), ('Rectangular', dict(band_max=.4371))]:
    # the steep designs amplify errors of the eigenvalues at their band edges
    m('design-' + name, 0, 'vertex', 'd', 1e-5)(design(name, **kw))


@m('cheby-design', 0, 'vertex', 'd', 1e-7)
def cheby(G, v):
    from pygsp import filters
    return filters.Heat(G, [1, 5]).filter(v['X'], method='chebyshev', order=25)


@m('gabor', 0, 'vertex', 'gd', 1e-7)
def gabor(G, v):
    from pygsp import filters
    return filters.Gabor(G, filters.Heat(G, 10)).filter(v['x'])


@m('lanczos', 0, 'vertex', 'ud', 1e-6)
def lanczos(G, v):
    from pygsp import filters
    from pygsp.filters import approximations
    return approximations.lanczos_op(filters.Heat(G, 5), v['x'], order=G.N)


m('tikhonov-0', 0, 'vertex', 'so', 1e-7)(lambda G, v: learn('regression_tikhonov', G, v['y'], v, 0))
m('tikhonov', 0, 'vertex', 's', 2e-3)(lambda G, v: learn('regression_tikhonov', G, v['y'], v, .7))
m('classification', 0, 'vertex', 'so', 1e-7)(lambda G, v: learn('classification_tikhonov', G, v['lab'], v, 0))
m('simplex', 0, 'vertex', 'sX', 1e-3)(lambda G, v: learn('classification_tikhonov_simplex', G, v['lab'], v, .3))


def learn(name, G, y, v, tau):
    from pygsp import learning
    c = 1. if G.lap_type == 'normalized' else v['c']
    return getattr(learning, name)(G, y, v['obs'], tau=tau / c, **(dict(rtol=1e-12, maxit=2000, verbosity='NONE') if 'simplex' in name else {}))


@m('avg-adj-deg', 0, 'vertex', 'ul')
def avg(G, v):
    from pygsp import features
    return np.ravel(features.compute_avg_adj_deg(fresh(G)))


@m('norm-tig', 0, 'vertex', 'd')
def tig(G, v):
    from pygsp import features, filters
    return np.asarray(features.compute_norm_tig(filters.Heat(G, [1, 4]), method='exact')).reshape(-1, G.N).T


@m('spectrogram', 0, 'vertex', 'd', 1e-7)
def spectrogram(G, v):
    from pygsp import features
    features.compute_spectrogram(G, M=5)
    out = np.array(G.spectr)
    del G.spectr
    return out


@m('spring', 0, 'vertex', '', 1e-6)
def spring(G, v):
    H = fresh(G)
    H.set_coordinates('spring', pos=v['pos'].copy(), iterations=6)
    return H.coords


@m('eigenmap', 0, 'vertex', 'gdk', 1e-7)
def eigenmap(G, v):
    if G.N < 4:
        return None
    G.set_coordinates('laplacian_eigenmap2D')
    out = abs(G.coords)
    del G.coords
    return out


@m('multiresolution', 1, 'matrix', 'ugkcM', 1e-9)
def multi(G, v):
    from pygsp import reduction
    if G.N < 4 or abs(G.U[:, -1]).min() < 1e-5:
        return None
    H = fresh(G)
    Gs = reduction.graph_multiresolution(H, 1, sparsify=False, compute_full_eigen=True)
    k = Gs[1].mr['idx']
    out = np.zeros((G.N, G.N))
    out[np.ix_(k, k)] = dense(Gs[1].W)
    return out


@m('sparsify', 1, 'matrix', 'ukcU', 1e-7)
def sparsify(G, v):
    from pygsp import reduction
    if G.N < 5:
        return None
    return dense(reduction.graph_sparsify(fresh(G), .6, seed=4).W)


m('networkx', 1, 'matrix', 'l', 0)(lambda G, v: __import__('networkx').to_numpy_array(G.to_networkx(), weight='weight'))


def env_of(n, k=0):
    """Data of vertex i of the base graph (k: different data for the other graph of a union)."""
    i = np.arange(n) + 17 * k
    x = np.sin(2.3 * i + 1) + .2 * i % 1
    obs = (i * 7 + 3) % 3 != 0
    obs[0] = True
    return dict(x=x, X=np.stack([np.cos(1.7 * i * i), np.sin(.9 * i) * 3], 1), m=(np.arange(n) % 3 != 1) | (n < 3), y=np.where(obs, np.cos(3.1 * i), 0), lab=np.where(obs, (i * i) % 3 % 2, 0).astype(int), obs=obs, keep=(np.arange(n) % 2 == 0) | (n < 3),
                pos=np.stack([np.cos(2.4 * i) * (1 + .1 * i), np.sin(2.4 * i) * (1 + .07 * i)], 1) + .1, c=1.)


def measure(W, lt, env, only, ctx):
    from pygsp import graphs
    G = graphs.Graph(np.array(W, dtype=float), lap_type=lt)
    G.compute_fourier_basis()
    out = {}
    for name, unit, kind, opt, tol, f in MEASURES:
        if only(opt):
            ctx.op()
            try:
                r = f(G, env)
            except NotImplementedError as e:
                r = e
            out[name] = r if r is None or isinstance(r, Exception) else np.array(r, dtype=float)
    return out


def graphs_of(t):
    small = []
    for n in (2, 3, 4):
        small += [W for W in gen.iso_classes(n, (0, 1, 2.5)) if gen.has_edge(W)]
    small += [W for W in gen.iso_classes(5, (0, 1)) if gen.has_edge(W)]
    small += [W for W in gen.iso_classes(3, (0, 1), (0, 1.5)) if gen.has_edge(W)]
    small += [W for W in gen.iso_classes(3, (0, 1, 2.5), None, 'directed') if gen.has_edge(W)][::1 if t else 3]
    if t:
        small += [W for W in gen.iso_classes(6, (0, 1)) if gen.has_edge(W)] + [W for W in gen.iso_classes(5, (0, 1, 2.5)) if gen.has_edge(W)][::3]
        small += [W for W in gen.iso_classes(4, (0, 1), None, 'directed') if gen.has_edge(W)]
    return small


OTHERS = [[[0]], gen.path(3), gen.full(3, 2.5), gen.weighted(gen.ring(4))]
UNITS = [1e-9, 1e-4, .3, 7., 1e4, 1e9]


def cases(tier):
    t = tier == 'thorough'
    for name, W in gen.medium():
        for lt in ('combinatorial', 'normalized'):
            yield dict(W=W, lt=lt, t=t, id=f'{name}-{lt}')
    G = graphs_of(t)
    for k in range(0, len(G)):
        for lt in ('combinatorial', 'normalized'):
            yield dict(W=G[k], lt=lt, t=t, id=f'small-{k}-{lt}')


def perms(n, t):
    if n <= (5 if t else 4):
        return list(itertools.permutations(range(n)))[:: 1 if t or n < 4 else 2]
    p = [tuple(range(n))[k:] + tuple(range(n))[:k] for k in range(1, n)][:: max(1, n // 4)] + [tuple(range(n))[::-1], tuple(np.argsort(np.sin(np.arange(n) * 2.7)))]
    if n == 5:
        p += list(itertools.permutations(range(5)))[7::40]
    return p


def run(case, ctx):
    W, lt = ref.arr(case['W']), case['lt']
    n = len(W)
    comb = lt == 'combinatorial'
    directed, comps = ref.is_directed(W), ref.components(W)
    e = np.linalg.eigvalsh(ref.laplacian(W, lt))
    generic = len(e) < 2 or np.diff(e).min() > 1e-6 * e[-1]
    env = env_of(n)
    observed = all(env['obs'][c].any() for c in comps)
    kept = all(env['keep'][c].any() for c in comps)

    def only(opt):
        return not (('u' in opt and directed) or ('c' in opt and not comb) or ('k' in opt and len(comps) > 1) or ('g' in opt and not generic) or ('o' in opt and not observed) or ('s' in opt and 'u' in opt and not kept))
    base = measure(W, lt, env, only, ctx)
    ctx.state('base', case['W'], lt)

    def compare(name, got, want, kind, tol, what):
        if isinstance(want, Exception) or isinstance(got, Exception):
            ctx.check(type(want) is type(got), lambda: f'{name}: {got!r} instead of {want!r}', key=what + '-' + name)
        elif want is None or got is None:
            ctx.check(want is None and got is None, f'{name}: {got} instead of {want}', key=what + '-' + name)
        else:
            ctx.close(got, want, name, tol=tol, scale=max(abs(want).max(initial=0), 1e-300), key=what + '-' + name)

    # 1. relabelling: vertex i of the new graph is vertex p[i] of the base graph
    for p in perms(n, case['t']):
        p = list(p)
        ctx.prefix = f'{case["W"] if n < 7 else case["id"]} {lt} relabelled {p}: '
        ctx.state('relabel', case['W'], lt, tuple(p))
        ctx.trace()
        got = measure(W[np.ix_(p, p)], lt, {k: (v[p] if isinstance(v, np.ndarray) else v) for k, v in env.items()}, lambda o: only(o) and 'M' not in o and 'U' not in o, ctx)
        for name, unit, kind, opt, tol, f in MEASURES:
            if name in got:
                want = base[name]
                if isinstance(want, np.ndarray):
                    want = want[p] if kind == 'vertex' else want[np.ix_(p, p)] if kind == 'matrix' else want
                compare(name, got[name], want, kind, tol, 'relabel')

    # 2. another unit of weight
    for c in UNITS:
        ctx.prefix = f'{case["W"] if n < 7 else case["id"]} {lt} times {c}: '
        ctx.state('unit', case['W'], lt, c)
        ctx.trace()
        got = measure(W * c, lt, dict(env, c=c), lambda o: only(o) and ('U' not in o or c > 1e-6), ctx)
        for name, unit, kind, opt, tol, f in MEASURES:
            if name in got:
                want = base[name]
                u = 0 if 'L' in opt and not comb else unit
                compare(name, got[name], want * c ** u if isinstance(want, np.ndarray) else want, kind, max(tol, 1e-15), 'unit')

    # 3. next to another graph
    for k, O in enumerate(OTHERS):
        for first in (True, False):
            O = ref.arr(O)
            ctx.prefix = f'{case["W"] if n < 7 else case["id"]} {lt} {"before" if first else "after"} {k}: '
            ctx.state('union', case['W'], lt, k, first)
            ctx.trace()
            o = len(O)
            oenv = env_of(o, 1)
            both = [W, O] if first else [O, W]
            B = np.zeros((n + o, n + o))
            B[:len(both[0]), :len(both[0])] = both[0]
            B[len(both[0]):, len(both[0]):] = both[1]
            benv = {q: np.concatenate([env[q], oenv[q]] if first else [oenv[q], env[q]]) if isinstance(env[q], np.ndarray) else env[q] for q in env}
            at = np.arange(n) + (0 if first else o)
            rest = np.setdiff1d(np.arange(n + o), at)
            loc = lambda q: only(q) and ('l' in q or 's' in q)  # noqa: E731
            got = measure(B, lt, benv, loc, ctx)
            other = measure(O, lt, oenv, lambda q: q == 'lL', ctx)
            for name, unit, kind, opt, tol, f in MEASURES:
                if name in got and name in base:
                    g, want = got[name], base[name]
                    if isinstance(g, np.ndarray) and isinstance(want, np.ndarray):
                        if kind == 'matrix':
                            ctx.check(not g[np.ix_(at, rest)].any() and not g[np.ix_(rest, at)].any() if tol == 0 else abs(g[np.ix_(at, rest)]).max() < 1e-8, f'{name}: the graphs are joined', key='union-joined-' + name)
                            g = g[np.ix_(at, at)]
                        elif kind == 'vertex':
                            if name in ('classification', 'simplex') and g.shape != (n + o,) + want.shape[1:]:
                                continue  # another number of classes
                            g = g[at]
                        elif kind == 'spectrum':
                            want = np.sort(np.concatenate([want, other[name]]))
                    compare(name, g, want, kind, max(tol, 1e-12), 'union')
