"""P21: spectral sparsification is unbiased over its random outcomes and keeps the structure."""
import math

import numpy as np

from . import gen, ref, rng
from .p20 import resist

BOUNDS = dict(
    quick='connected classes N<=4 {0,1,2.5} (loops for N<=3), 0/1 classes N=5, as graph and as Laplacian: every outcome of the edge draws with its exact '
          'probability (up to 100 outcomes), every threshold giving 1..6 draws; up to 2 attempts; outcomes within 1 deviation of 4 policies on medium graphs; '
          'all seeds 0..7 on five graph families; large named graphs (see DESIGN.md)',
    thorough='up to 20000 outcomes per graph, 2 deviations, seeds 0..49')
CHUNK = 2
ASSUMPTIONS = ['edges are drawn with numpy.random or scipy.stats.rv_discrete', 'undirected graphs with at least one edge, combinatorial Laplacian',
               'weights above 1e-10 (smaller ones are documented noise in the code)']


def draws(n, eps):
    return max(1, round(n * math.log(n) * 9 * (4 / 30) ** 2 / eps ** 2))


def cases(tier):
    t = tier == 'thorough'
    g = []
    for n in (2, 3):
        g += gen.iso_classes(n, (0, 1, 2.5), (0, 1.5))
    g += gen.iso_classes(4, (0, 1, 2.5)) + gen.iso_classes(5, (0, 1))
    if t:
        g += gen.iso_classes(6, (0, 1))
    g = [W for W in g if np.triu(np.array(W), 1).any()]
    for k in range(0, len(g), 2):
        yield dict(kind='all', graphs=g[k:k + 2], limit=20000 if t else 100)
    for name, W in gen.medium():
        for pol in rng.POLICIES:
            yield dict(kind='dev', W=W, policy=pol, d=2 if t else 1, id=f'dev-{name}-{pol}')
    for name in ('quasi90', 'quasi260', 'grid11x13', 'full40', 'loops75', 'dense120', 'distinct1100'):
        yield dict(kind='large', name=name, hi=20 if t else 3, id='large-' + name)
    yield dict(kind='seeds', hi=50 if t else 8, id='seeds')
    yield dict(kind='invalid', id='invalid')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


_cache = {}


def structure(Ws, W, eps, maxiter, ctx, tries=1):
    """Weights are multiples of w / (q p) on the edges of the original graph."""
    n = len(W)
    V = np.where(np.eye(n, dtype=bool), 0, W)
    ctx.check(Ws.shape == W.shape, 'number of vertices')
    ctx.check((Ws == Ws.T).all(), 'not symmetric')
    ctx.check((Ws >= 0).all() and not Ws.diagonal().any(), 'negative weights or self-loops')
    ctx.check(not (Ws[V == 0] != 0).any(), 'an edge was created')
    key = V.tobytes()
    if key not in _cache:
        if len(_cache) > 50:
            _cache.clear()
        P = V * resist(ref.laplacian(V))
        _cache[key] = P / (P.sum() / 2)
    P = _cache[key]
    ok = False
    for _ in range(maxiter):
        q = draws(n, eps)
        with np.errstate(divide='ignore', invalid='ignore'):
            c = np.where(V > 0, Ws * q * P / np.where(V > 0, V, 1), 0)
        if np.abs(c - np.round(c)).max() < 1e-6 and abs(c.sum() / 2 - q) < 1e-6:
            ok = True
        eps -= (eps - 1 / math.sqrt(n)) / 2
    ctx.check(ok, lambda: f'weights {Ws.tolist()} are not draws of the edges by their leverage', key='not-draws' if n > 30 else None)
    return ok


def run_all(case, ctx):
    from scipy import sparse
    from pygsp import graphs, reduction
    for gi, W in enumerate(case['graphs']):
        W = ref.arr(W)
        n = len(W)
        V = np.where(np.eye(n, dtype=bool), 0, W)
        L = ref.laplacian(W)
        m = int((np.triu(V) > 0).sum())
        lo = 1 / math.sqrt(n)
        done = set()
        for eps in [lo * (1 + 1e-9), lo + .02, .5, .55, .6, .65, .7, .75, .8, .9, .99]:
            if not lo <= eps < 1:
                continue
            q = draws(n, eps)
            if q in done or m ** q > case['limit']:
                continue
            done.add(q)
            if m ** q > 40 and m >= 5 and (gi + q) % 2 and case['limit'] < 1000:
                continue
            for form in ('graph', 'csr', 'csc'):
                if form != 'graph' and (m ** q > 130 or q % 2 == (form == 'csr')):
                    continue
                G = graphs.Graph(W) if form == 'graph' else getattr(sparse, form + '_matrix')(L)
                ctx.prefix = f'W={W.tolist()} epsilon={eps} ({form}): '
                ex = rng.Explorer(2)
                mean, total = np.zeros((n, n)), 0
                for M, pr in ex.all(lambda: reduction.graph_sparsify(G, eps, maxiter=1, seed=7), 10 * case['limit']):
                    ctx.op()
                    if isinstance(M, Exception):
                        ctx.check(False, f'raised {type(M).__name__}: {M}', key='sparsify raised')
                        return
                    if form == 'graph':
                        Ws = M.W.toarray()
                        Ls = M.L.toarray()
                    else:
                        Ls = M.toarray()
                        Ws = np.diag(Ls.diagonal()) - Ls
                        ctx.close(Ls.sum(0), np.zeros(n), 'not a Laplacian', tol=1e-9, scale=max(1, np.abs(Ls).max()))
                    Ws = np.where(np.abs(Ws) < 1e-12, 0, Ws)
                    structure(Ws, W, eps, 1, ctx)
                    mean += float(pr) * Ls
                    total += pr
                    ctx.state(W, eps, Ws)
                ctx.trace(ex.runs)
                if ex.runs == 1 and m > 1:
                    raise rng.Skip('the edge draws are not controlled')
                ctx.check(ex.complete and total == 1, 'outcomes not all explored')
                ctx.close(mean, L, 'expected Laplacian', tol=1e-7, scale=max(1, np.abs(L).max()))
                ctx.check(all(s == 7 for s in ex.seeds), f'seeded with {set(ex.seeds)}')
                if form == 'graph':
                    ctx.close(G.W, W, 'original', tol=0)
                else:
                    ctx.close(G, L, 'original', tol=0)
        # a second attempt is made only when the first one is disconnected
        eps = .9 if n > 2 else .99
        q1, q2 = draws(n, eps), draws(n, eps - (eps - lo) / 2)
        if m ** (q1 + q2) <= case['limit'] and ref.strongly_connected(W):
            ex = rng.Explorer(2)
            G = graphs.Graph(W)
            for M, pr in ex.all(lambda: reduction.graph_sparsify(G, eps, maxiter=2, seed=7), 10 * case['limit']):
                ctx.op()
                if isinstance(M, Exception):
                    ctx.check(False, f'raised {type(M).__name__}: {M}', key='sparsify raised')
                    return
                Ws = M.W.toarray()
                structure(Ws, W, eps, 2, ctx)
                used = sum(1 for _ in ex.path)
                if m > 1:
                    first = used <= q1
                    ctx.check(not first or ref.strongly_connected(Ws), 'stopped with a disconnected graph')
                ctx.state(W, Ws)
            ctx.check(ex.complete, 'outcomes not all explored')
            ctx.trace(ex.runs)


def run_dev(case, ctx):
    from pygsp import graphs, reduction
    W = ref.arr(case['W'])
    n = len(W)
    for eps in (.45, .8)[case['policy'] == 'walk':]:
        if eps < 1 / math.sqrt(n):
            continue
        ex = rng.Deviations(rng.POLICIES[case['policy']], case['d'], horizon=20, max_draws=3000)
        for M, _ in ex.all(lambda: reduction.graph_sparsify(graphs.Graph(W), eps, maxiter=2, seed=3), 2000 if case['d'] > 1 else 50):
            ctx.op()
            ctx.prefix = f'epsilon={eps} deviation {ex.plan} of {case["policy"]}: '
            if isinstance(M, Exception):
                ctx.check(False, f'raised {type(M).__name__}: {M}', key='sparsify raised')
                break
            Ws = M.W.toarray()
            structure(Ws, W, eps, 2, ctx)
            ctx.state(eps, Ws)
        ctx.trace(ex.runs)


def run_seeds(case, ctx):
    from pygsp import graphs, reduction
    for name, G in dict(sensor=graphs.Sensor(60, seed=1), ring=graphs.Ring(30), grid=graphs.Grid2d(6, 5), full=graphs.FullConnected(20),
                        community=graphs.Community(40, Nc=3, seed=4)).items():
        W = G.W.toarray()
        for seed in range(case['hi']):
            for eps in (.3, .6, .9):
                ctx.prefix = f'{name} epsilon={eps} seed={seed}: '
                M = ctx.safe(lambda: reduction.graph_sparsify(G, eps, seed=seed), 'sparsify', key='sparsify raised')
                ctx.op(2)
                if M is None:
                    return
                structure(M.W.toarray(), W, eps, 10, ctx)
                N = reduction.graph_sparsify(G, eps, seed=seed)
                ctx.close(N.W, M.W.toarray(), 'same seed, different graph', tol=0)
                ctx.state(name, seed, eps, M.W)
                ctx.trace()
        ctx.close(G.W, W, 'original', tol=0)


def run_large(case, ctx):
    from pygsp import graphs, reduction
    from scipy import sparse
    W = gen.large(case['name'])
    L = ref.laplacian(W)
    for seed in range(case['hi']):
        for eps in (.2, .5, .9):
            ctx.prefix = f'{case["name"]} epsilon={eps} seed={seed}: '
            M = ctx.safe(lambda: reduction.graph_sparsify(graphs.Graph(W), eps, seed=seed), 'sparsify', key='sparsify raised')
            ctx.op(2)
            ctx.trace()
            if M is None:
                return
            structure(M.W.toarray(), W, eps, 10, ctx)
            N = reduction.graph_sparsify(sparse.csc_matrix(L), eps, seed=seed).toarray()
            ctx.close(N, ref.laplacian(M.W.toarray()), 'graph and Laplacian disagree', tol=1e-9)
            ctx.state(seed, eps, M.W)


def run_invalid(case, ctx):
    from pygsp import graphs, reduction
    for n in (2, 3, 4, 9, 16):
        G = graphs.Graph(gen.full(n))
        for eps in (-1, 0, 1 / math.sqrt(n) * .99, 1, 1.5):
            ctx.raises(lambda: reduction.graph_sparsify(G, eps), f'epsilon {eps} accepted for {n} vertices', ValueError)
        ctx.raises(lambda: reduction.graph_sparsify(graphs.Graph(gen.full(n), lap_type='normalized'), .9), 'normalized Laplacian accepted', NotImplementedError)
        ctx.state(n)
    ctx.trace()
