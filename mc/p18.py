"""P18: random graph families, over every outcome of their random generator."""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import gen, ref, rng
from .core import Skip

BOUNDS = dict(
    quick='every random outcome (with its exact probability) of StochasticBlockModel and ErdosRenyi N<=4, all z, p/q/M forms, directed, '
          'loops, connected with 1-2 trials; asymmetric directed probabilities; BarabasiAlbert N<=6, all m<=m0<=4, and the last attachment after 9 histories of 9-135 vertices (up to 130 initial ones); RandomRing over a 7-cell grid; outcome sequences within 1-2 deviations of 4 '
          'base policies for RandomRegular (N<=6, k<=4) and Community (N<=6); all seeds 0..15 at N=10..60',
    thorough='N<=5 block models, BarabasiAlbert N<=7, 2-3 deviations, seeds 0..199')
CHUNK = 1
ASSUMPTIONS = ['randomness comes from numpy.random.default_rng (anything else is reported as skipped)', 'angles of the random ring are distinct']


def cases(tier):
    t = tier == 'thorough'
    H = .5
    for n in (1, 2, 3, 4) + ((5,) if t else ()):
        for d in (False, True):
            for loops in (False, True):
                draws = (n * n if d else n * (n + 1) // 2) if loops else (n * (n - 1) if d else n * (n - 1) // 2)
                for p in (0, .25, .5, .75, 1):
                    cells = 4 if p in (.25, .75) else 2
                    if cells ** draws > (60000 if t else 1100):
                        continue
                    yield dict(kind='er', n=n, directed=d, loops=loops, p=p, cells=cells, id=f'er-{n}-{d}-{loops}-{p}')
                    if n in (2, 3):
                        for n_try in (1, 2):
                            if cells ** (draws * n_try) > (5000 if t else 300):
                                continue
                            yield dict(kind='er', n=n, directed=d, loops=loops, p=p, cells=cells, n_try=n_try, id=f'er-{n}-{d}-{loops}-{p}-connected{n_try}')
    forms = [dict(p=.5, q=.25), dict(p=[1, .25], q=.5), dict(p=[.25, .5], q=[[0, .75], [.75, 0]]), dict(M=[[.5, .25], [.25, 1]]), dict(p=1, q=0),
             dict(p=[0, .5], q=[[1, 1], [1, 1]]), dict(p=.5, q=[[0, 1], [1, 0]])]
    asym = [dict(p=0, q=[[0, 1], [0, 0]]), dict(p=[.5, 1], q=[[0, .25], [.75, 0]]), dict(p=.5, q=[[0, 0], [.5, 0]]), dict(M=[[.5, .25], [.75, 0]])]
    for i, f in enumerate(asym):
        for z in ((0, 1), (1, 0), (0, 0, 1), (1, 0, 1)):
            yield dict(kind='sbm', z=z, k=2, form=f, directed=True, loops=len(z) == 2, cells=4 if len(z) == 2 else 2, id=f'sbm-asym{i}-{"".join(map(str, z))}') if len(z) == 2 or i in (0, 2) else dict(kind='sbm', z=z[:2], k=2, form=f, directed=True, loops=False, id=f'sbm-asym{i}-{"".join(map(str, z))}')
    for i, f in enumerate(forms):
        for z in itertools.product((0, 1), repeat=3):
            yield dict(kind='sbm', z=z, k=2, form=f, directed=False, loops=False, id=f'sbm-{i}-{"".join(map(str, z))}')
        yield dict(kind='sbm', z=None, n=3, k=2, form=f, directed=False, loops=False, id=f'sbm-{i}-z')
        yield dict(kind='sbm', z=(1, 0), k=2, form=f, directed=True, loops=True, id=f'sbm-{i}-directed')
    yield dict(kind='sbm', z=(0, 1, 0), k=2, form=dict(M=[[.5, 1], [0, .5]]), directed=True, loops=False, cells=2, id='sbm-asym')
    yield dict(kind='sbm', z=(1, 0, 2), k=3, form=dict(M=[[.5, 1, .5], [1, .5, 0], [.5, 0, .5]]), directed=False, loops=True, cells=2, id='sbm-3')
    yield dict(kind='sbm', z=None, n=3, k=3, form=dict(p=.5, q=.5), directed=False, loops=False, cells=2, id='sbm-3-z')
    yield dict(kind='sbm', z=None, n=2, k=1, form=dict(p=.5), directed=False, loops=False, cells=2, id='sbm-1-z')
    yield dict(kind='sbminvalid', id='sbminvalid')
    for n in range(1, 8 if t else 7):
        for m0 in range(1, min(n, 4) + 1):
            for m in range(1, m0 + 1):
                if np.prod([math.perm(i, m) for i in range(m0, n)]) > (20000 if t else 1500):
                    continue
                yield dict(kind='ba', n=n, m0=m0, m=m, id=f'ba-{n}-{m0}-{m}')
    for pol in list(rng.POLICIES) + ['second', 'hubs']:
        for n, m0, m in ((10, 1, 1), (25, 1, 1), (40, 3, 1), (11, 2, 2), (18, 4, 2), (9, 3, 3), (60, 55, 1), (135, 130, 1), (110, 2, 1)) + (((80, 1, 1), (12, 3, 3), (30, 2, 2)) if t else ()):
            yield dict(kind='balast', n=n, m0=m0, m=m, policy=pol, id=f'balast-{n}-{m0}-{m}-{pol}')
    for pol in rng.POLICIES:
        for n, k in ((2, 1), (4, 1), (3, 2), (4, 2), (4, 3), (5, 2), (6, 3), (5, 4), (6, 2), (4, 0), (4, 4), (3, 4)):
            yield dict(kind='regular', n=n, k=k, policy=pol, d=(2 if n * k <= 4 else 1) + t, id=f'regular-{n}-{k}-{pol}')
        for i in range(len(COMM)):
            yield dict(kind='community', i=i, policy=pol, d=2 if t else 1, id=f'community-{i}-{pol}')
    yield dict(kind='ring', id='ring')
    for s in range(0, 200 if t else 16, 2):
        yield dict(kind='seeds', lo=s, hi=s + 2, id=f'seeds-{s}')


def frac(x):
    return Fraction(float(x)).limit_denominator(1000)


def adj(G):
    return tuple(map(tuple, (G.W.toarray()).astype(float).tolist()))


def model_M(k, form):
    if 'M' in form:
        return [[frac(v) for v in r] for r in form['M']]
    p = form['p']
    p = list(p) if np.ndim(p) else [p] * k
    q = form.get('q', 0.3 / k)
    return [[frac(p[i]) if i == j else frac(q[i][j] if np.ndim(q) else q) for j in range(k)] for i in range(k)]


def model_graphs(z, M, directed, loops):
    """Exact distribution over all graphs: independent edges of probability M[z_i][z_j]."""
    n = len(z)
    ps = [(i, j) for i in range(n) for j in range(n) if (loops or i != j) and (directed or i >= j)]
    out = {}
    for bits in itertools.product((0, 1), repeat=len(ps)):
        pr = Fraction(1)
        W = np.zeros((n, n))
        for b, (i, j) in zip(bits, ps):
            m = M[z[i]][z[j]]
            pr *= m if b else 1 - m
            if b:
                W[i, j] = 1
                if not directed:
                    W[j, i] = 1
        if pr:
            out[tuple(map(tuple, W.tolist()))] = pr
    return out


def compare(got, want, ctx, what):
    """Two distributions over hashable results."""
    extra = [g for g in got if g not in want]
    ctx.check(not extra, lambda: f'{what}: impossible result {extra[0]}')
    missing = [g for g in want if g not in got]
    ctx.check(not missing, lambda: f'{what}: {len(missing)} of {len(want)} results are never produced, e.g. {missing[0]}')
    bad = [g for g in got if g in want and abs(float(got[g] - want[g])) > 1e-9]
    ctx.check(not bad, lambda: f'{what}: {bad[0]} has probability {float(got[bad[0]])}, want {float(want[bad[0]])}')


def explore(ctx, ex, f, limit=200000):
    n = 0
    for r, pr in ex.all(f, limit):
        ctx.op()
        ctx.trace()
        n += 1
        yield r, pr
    if not ex.complete:
        raise rng.Skip(f'more than {limit} random outcomes')


def run(case, ctx):
    k = case['kind']
    globals()['run_' + k](case, ctx)


def run_er(case, ctx):
    from pygsp import graphs
    n, d, loops = case['n'], case['directed'], case['loops']
    kw = dict(p=case['p'], directed=d, self_loops=loops)
    if 'n_try' in case:
        kw.update(connected=True, n_try=case['n_try'])
    f = lambda: graphs.ErdosRenyi(n, seed=5, **kw)
    base = model_graphs([0] * n, [[frac(case['p'])]], d, loops)
    if 'n_try' in case:
        ok = {g: p for g, p in base.items() if ref.strongly_connected(np.array(g))}
        s = sum(ok.values())
        t = case['n_try']
        want = {g: p * sum((1 - s) ** i for i in range(t)) for g, p in ok.items()}
        if s < 1:
            want['ValueError'] = (1 - s) ** t
    else:
        want = base
    distribution(case, ctx, f, want, n)


def distribution(case, ctx, f, want, n, verify=None):
    ex = rng.Explorer(case.get('cells', 4))
    got = {}
    for r, pr in explore(ctx, ex, f):
        if isinstance(r, ValueError) and 'ValueError' in want:
            key = 'ValueError'
        elif isinstance(r, Exception):
            raise r
        else:
            key = verify(r) if verify else adj(r)
            ctx.state(key)
            ctx.check(r.N == n, f'N={r.N}')
        got[key] = got.get(key, 0) + pr
    compare(got, want, ctx, case['id'])
    ctx.check(set(ex.seeds) == {5}, f'the generator was seeded with {set(ex.seeds)}, not with the seed given')


def run_sbm(case, ctx):
    from pygsp import graphs
    k, form, d, loops = case['k'], case['form'], case['directed'], case['loops']
    n = len(case['z']) if case['z'] is not None else case['n']
    M = model_M(k, form)

    def arrays():
        return {a: (np.array(v, dtype=float) if a == 'M' else np.array(v) if np.ndim(v) else v) for a, v in form.items()}
    for lists in (False, True):
        if lists and case['z'] is None:
            continue
        kw = dict(form) if lists else arrays()
        z = case['z'] if case['z'] is None else (list(case['z']) if lists else np.array(case['z']))
        f = lambda: graphs.StochasticBlockModel(n, k, z=z, directed=d, self_loops=loops, seed=5, **kw)
        if case['z'] is not None:
            want = {(tuple(case['z']), g): p for g, p in model_graphs(case['z'], M, d, loops).items()}
        else:
            want = {}
            for lab in itertools.product(range(k), repeat=n):
                s = tuple(sorted(lab))
                for g, p in model_graphs(s, M, d, loops).items():
                    want[s, g] = want.get((s, g), 0) + p * Fraction(1, k ** n)

        def verify(G):
            zz = tuple(int(v) for v in G.z)
            ctx.close(G.M, np.array(M, dtype=float), 'probability matrix', tol=1e-12)
            ctx.close(np.asarray(G.info['node_com']), np.array(zz), 'community of the vertices', tol=0)
            ctx.close(np.asarray(G.info['comm_sizes']), np.bincount(zz), 'community sizes', tol=0)
            repr(G)
            return zz, adj(G)
        distribution(case, ctx, f, want, n, verify)
        if not lists:
            for a, v in arrays().items():
                ctx.check(np.array_equal(kw[a], v), f'argument {a} modified: {kw[a]}')


def run_sbminvalid(case, ctx):
    from pygsp import graphs
    for kw in (dict(p=[.1, .2, .3]), dict(p=[.1]*3, q=.1), dict(q=[.1, .2]), dict(p=1.5), dict(p=-.1), dict(q=2), dict(q=-1), dict(M=np.array([[2., 0], [0, 1]])),
               dict(M=np.array([[-.5, 0], [0, 1]])), dict(q=np.ones((3, 3)) / 2)):
        ctx.raises(lambda: graphs.StochasticBlockModel(6, 2, seed=1, **kw), f'{kw} accepted', ValueError)
    for p in (-.5, 1.5):
        ctx.raises(lambda: graphs.ErdosRenyi(6, p, seed=1), f'p={p} accepted', ValueError)
    ctx.raises(lambda: graphs.ErdosRenyi(6, 0, connected=True, seed=1), 'an edgeless graph is connected', ValueError)
    ctx.raises(lambda: graphs.BarabasiAlbert(6, m0=1, m=2), 'm > m0 accepted', ValueError)
    for n, k in ((3, 1), (5, 3), (7, 5)):
        ctx.raises(lambda: graphs.RandomRegular(n, k), f'{n} vertices of degree {k}', ValueError)
    for a in ([0, 1], [0., 7, 1], [-.1, 1, 2], [0, 1, 2 * np.pi]):
        ctx.raises(lambda: graphs.RandomRing(angles=a), f'angles {a} accepted', ValueError)
    ctx.raises(lambda: graphs.RandomRing(2), 'ring of 2 vertices', ValueError)
    for kw in (dict(Nc=2, comm_sizes=[3]), dict(Nc=2, comm_sizes=[3, 4]), dict(Nc=2, min_comm=4), dict(world_density=-.1), dict(world_density=1.1),
               dict(comm_density=-.1), dict(comm_density=1.2), dict(k_neigh=-1)):
        ctx.raises(lambda: graphs.Community(6, **kw), f'Community {kw} accepted', ValueError)
    ctx.state('invalid')


def run_ba(case, ctx):
    from pygsp import graphs
    n, m0, m = case['n'], case['m0'], case['m']
    want = {}

    def rec(W, i, pr):
        if i >= n:
            key = tuple(map(tuple, W.tolist()))
            want[key] = want.get(key, 0) + pr
            return
        w = [1 + int(W[j].sum()) for j in range(i)]
        for order in itertools.permutations(range(i), m):
            q, left = Fraction(1), sum(w)
            for j in order:
                q *= Fraction(w[j], left)
                left -= w[j]
            V = W.copy()
            for j in order:
                V[i, j] = V[j, i] = 1
            rec(V, i + 1, pr * q)
    rec(np.zeros((n, n)), m0, Fraction(1))
    # probabilities inside the code are floats: the explorer rounds them to fractions
    ex = rng.Explorer()
    got = {}
    for G, pr in explore(ctx, ex, lambda: graphs.BarabasiAlbert(n, m0, m, seed=5)):
        if isinstance(G, Exception):
            raise G
        key = adj(G)
        ctx.state(key)
        got[key] = got.get(key, 0) + pr
    compare(got, want, ctx, case['id'])
    if n > m0:
        ctx.check(set(ex.seeds) == {5}, f'the generator was seeded with {set(ex.seeds)}')


def run_balast(case, ctx):
    """Long histories: the exact distribution of the last attachment after a history too long to enumerate."""
    from pygsp import graphs
    n, m0, m = case['n'], case['m0'], case['m']
    pol = dict(rng.POLICIES, second=lambda i, k: min(1, k - 1), hubs=lambda i, k: (0, 0, 1, 0, k - 1)[i % 5]).get(case['policy'])
    base = rng.Deviations(pol, 0, max_draws=10 ** 5)
    old = next(iter(base.all(lambda: graphs.BarabasiAlbert(n - 1, m0, m, seed=5), 1)))[0]
    if isinstance(old, Exception):
        raise old
    taken = base.chosen
    V = old.W.toarray()
    ex = rng.Explorer(max_draws=10 ** 5)
    ex.prefix = list(taken)
    got, mass, runs = {}, Fraction(0), 0
    while True:
        G = ex.run(lambda: graphs.BarabasiAlbert(n, m0, m, seed=5))
        runs += 1
        ctx.op()
        W = G.W.toarray()
        if not (W[:-1, :-1] == V).all():
            raise Skip('the history is not a prefix')
        key = tuple(int(j) for j in np.nonzero(W[-1])[0])
        got[key] = got.get(key, 0) + ex.prob
        mass += ex.prob
        ctx.state(W)
        if runs > 5000:
            raise Skip('too many outcomes')
        if not ex.advance() or ex.prefix[:len(taken)] != list(taken):
            break
    want = {}
    w = [1 + int(d) for d in V.sum(0)]
    for order in itertools.permutations(range(n - 1), m):
        q, left = Fraction(1), sum(w)
        for j in order:
            q *= Fraction(w[j], left)
            left -= w[j]
        key = tuple(sorted(order))
        want[key] = want.get(key, 0) + q
    for key in sorted(set(want) | set(got)):
        a, b = float(got.get(key, 0) / mass), float(want.get(key, 0))
        ctx.check(abs(a - b) <= 1e-4 * b + 1e-6, f'the new vertex attaches to {key} with probability {a:.6f} instead of {b:.6f} (degrees {[x - 1 for x in w]})', key='preference')
    ctx.trace(runs)


def run_regular(case, ctx):
    from pygsp import graphs
    n, k = case['n'], case['k']
    for max_iter in (1, 3):
        bound = 4 * max_iter * (3 * n * k + 10)
        ex = rng.Deviations(rng.POLICIES[case['policy']], case['d'], max_draws=bound, horizon=2 * n * k + 6)
        full = 0
        try:
            for G, _ in explore(ctx, ex, lambda: graphs.RandomRegular(n, k, max_iter=max_iter, seed=5), 20000):
                if isinstance(G, Exception):
                    raise G
                full += regular_ok(G, n, k, ctx)
                ctx.state(adj(G))
        except rng.Overflow:
            ctx.check(False, f'no answer after {bound} random draws (max_iter={max_iter})')
        except rng.Skip as e:
            if 'outcomes' not in str(e):
                raise


def regular_ok(G, n, k, ctx):
    W = G.W.toarray()
    ctx.check(W.shape == (n, n), f'{W.shape}')
    ctx.check((W == W.T).all() and set(np.unique(W)) <= {0, 1} and not W.diagonal().any(), lambda: f'not a simple graph: {W.tolist()}')
    ctx.check(W.sum(0).max() <= k, lambda: f'degrees {W.sum(0)} above {k}')
    return bool((W.sum(0) == k).all())


COMM = [
    dict(N=4, Nc=2, epsilon=.6), dict(N=4, Nc=2, comm_sizes=[3, 1], k_neigh=1), dict(N=5, Nc=2, min_comm=1, comm_density=.5),
    dict(N=5, Nc=2, comm_sizes=[3, 2], k_neigh=1, world_density=.5), dict(N=5, Nc=3, min_comm=0, epsilon=1), dict(N=6, Nc=2, comm_sizes=[4, 2], k_neigh=2, world_density=0),
    dict(N=6, Nc=3, comm_sizes=[1, 2, 3], comm_density=1, world_density=.9), dict(N=5, Nc=2, k_neigh=3), dict(N=4, Nc=1), dict(N=6, Nc=3, comm_sizes=[3, 0, 3], k_neigh=1, world_density=.3),
    dict(N=6, Nc=2, comm_sizes=[3, 3], epsilon=5, world_density=1), dict(N=5, Nc=3, comm_sizes=[2, 2, 1], comm_density=0, world_density=.34, size_ratio=2),
    dict(N=6, Nc=2, comm_sizes=[4, 2], comm_density=.7, world_density=.2), dict(N=5, Nc=2, comm_sizes=[4, 1], k_neigh=0),
]


def community_ok(G, kw, ctx):
    n, nc = kw['N'], kw['Nc']
    W = G.W.toarray()
    z = np.asarray(G.info['node_com']).astype(int)
    sizes = np.asarray(G.info['comm_sizes']).astype(int)
    ctx.check(W.shape == (n, n) and len(z) == n, 'number of vertices')
    ctx.check((W == W.T).all() and set(np.unique(W)) <= {0, 1} and not W.diagonal().any(), lambda: f'not a simple graph: {W.tolist()}')
    ctx.check(len(sizes) == nc and (sizes == np.bincount(z, minlength=nc)).all(), f'sizes {sizes} of labels {z}')
    ctx.check((np.diff(z) >= 0).all(), f'labels {z} not sorted')
    if kw.get('comm_sizes') is not None:
        ctx.check(list(sizes) == list(kw['comm_sizes']), f'sizes {sizes} instead of {kw["comm_sizes"]}')
    else:
        mc = kw.get('min_comm')
        mc = int(round(n / (3 * nc))) if mc is None else mc
        ctx.check(sizes.min() >= mc, f'community smaller than {mc}: {sizes}')
    ratio = kw.get('size_ratio', 1)
    c = np.array([[np.cos(2 * np.pi * (i + 1) / nc), np.sin(2 * np.pi * (i + 1) / nc)] for i in range(nc)]) * ratio * np.sqrt(n)
    ctx.check(G.coords.shape == (n, 2), 'coordinates')
    off = np.linalg.norm(G.coords - c[z], axis=1)
    ctx.check((off <= np.sqrt(sizes[z]) * (1 + 1e-9)).all(), 'a vertex lies outside of the disk of its community')
    D = np.linalg.norm(G.coords[:, None] - G.coords[None], axis=2)
    same = z[:, None] == z[None, :]
    inter = int(W[~same].sum()) // 2
    wd = kw.get('world_density')
    wd = 1 / n if wd is None else wd
    pairs = int((~same).sum()) // 2
    ctx.check(inter == int(wd * pairs), f'{inter} edges between communities, want {int(wd * pairs)}')
    for i in range(nc):
        idx = np.flatnonzero(z == i)
        V = W[np.ix_(idx, idx)]
        m = len(idx)
        d = D[np.ix_(idx, idx)]
        if kw.get('comm_density') is not None:
            ctx.check(V.sum() / 2 == int(kw['comm_density'] * m * (m - 1) / 2), f'{V.sum() / 2} edges in community {i} of size {m}')
        elif kw.get('k_neigh') is not None:
            k = kw['k_neigh']
            must = np.zeros((m, m), bool)
            may = np.zeros((m, m), bool)
            for a in range(m):
                o = np.array([d[a, b] if b != a else np.inf for b in range(m)])
                if k and m > 1:
                    s = np.sort(o)[min(k, m - 1) - 1]
                    may[a] = o <= s + 1e-9
                    must[a] = (o < s - 1e-9) | ((o <= s + 1e-9) & (may[a].sum() == min(k, m - 1)))
            ctx.check(not (V.astype(bool) & ~(may | may.T)).any(), lambda: f'an edge of community {i} does not join nearest neighbors')
            ctx.check(not (~V.astype(bool) & (must | must.T)).any(), lambda: f'nearest neighbors not connected in community {i}')
            ctx.check((V.sum(0) >= min(k, max(m - 1, 0))).all(), lambda: f'degrees {V.sum(0)} below {k} in community {i}')
        else:
            eps = kw.get('epsilon')
            eps = np.sqrt(2 * np.sqrt(n)) / 2 if eps is None else eps
            sure = np.abs(d - eps) > 1e-9
            want = (d <= eps) & ~np.eye(m, dtype=bool)
            ctx.check((V.astype(bool) == want)[sure].all(), f'edges of community {i} are not the pairs closer than {eps}')


def run_community(case, ctx):
    from pygsp import graphs
    kw = COMM[case['i']]
    ex = rng.Deviations(rng.POLICIES[case['policy']], case['d'], cells=3, max_draws=300, horizon=30)
    f = lambda: graphs.Community(seed=5, **{k: list(v) if isinstance(v, list) else v for k, v in kw.items()})
    try:
        for G, _ in explore(ctx, ex, f, 20000):
            if isinstance(G, Exception):
                raise G
            community_ok(G, kw, ctx)
            ctx.state(adj(G), G.coords)
    except rng.Overflow:
        # only unlucky rejection sampling may go on: not with fair policies
        ctx.check(case['policy'] in ('zero', 'ends', 'walk', 'spread'), 'no answer')
    except rng.Skip as e:
        if 'outcomes' not in str(e):
            raise


def ring_ok(G, angles, ctx):
    a = np.sort(np.array(angles, dtype=float))
    n = len(a)
    W = np.zeros((n, n))
    for i in range(n):
        gap = (a[(i + 1) % n] - a[i]) % (2 * np.pi)
        j = (i + 1) % n
        W[i, j] = W[j, i] = 2 * np.pi / n / gap
    ctx.close(G.W, W, 'ring weights', tol=1e-9)
    ctx.close(G.coords, np.stack([np.cos(a), np.sin(a)], 1), 'ring coordinates', tol=1e-9)
    ctx.close(G.angles, a, 'ring angles', tol=1e-12)
    ctx.check(not G.is_directed() and G.Ne == n, 'not a ring')


def run_ring(case, ctx):
    from pygsp import graphs
    grid = [0, .4, 1.1, 2.9, 3.3, 5, 6.2]
    for n in (3, 4):
        for tup in itertools.permutations(grid, n):
            for form in (list(tup), np.array(tup), tuple(tup))[:3 if n == 3 else 2 if tup[0] < 1 else 1]:
                before = list(form)
                G = graphs.RandomRing(angles=form)
                ctx.op()
                ctx.trace()
                ctx.check(list(form) == before, f'the angles of the caller were reordered: {form}')
                ring_ok(G, tup, ctx)
            ctx.state(sorted(tup))
    ex = rng.Explorer(7)
    counts = {}
    for G, pr in explore(ctx, ex, lambda: graphs.RandomRing(3, seed=5)):
        if isinstance(G, Exception):
            continue                       # two equal angles
        ring_ok(G, G.angles, ctx)
        key = tuple(np.round(G.angles / (2 * np.pi) * 14).astype(int))
        counts[key] = counts.get(key, 0) + pr
    cells = [2 * j + 1 for j in range(7)]
    got = {k: v for k, v in counts.items() if len(set(k)) == 3}
    compare(got, {k: Fraction(6, 343) for k in itertools.combinations(cells, 3)}, ctx, 'angles')
    ctx.check(set(ex.seeds) == {5}, f'the generator was seeded with {set(ex.seeds)}')


def run_seeds(case, ctx):
    """Realistic sizes, every seed of a range."""
    from pygsp import graphs
    for seed in range(case['lo'], case['hi']):
        ctx.prefix = f'seed {seed} '
        for d in (False, True):
            for loops in (False, True):
                G = graphs.ErdosRenyi(12, .4, directed=d, self_loops=loops, seed=seed)
                W = G.W.toarray()
                ctx.check(set(np.unique(W)) <= {0, 1} and (d or (W == W.T).all()) and (loops or not W.diagonal().any()), 'ErdosRenyi structure')
                G = graphs.ErdosRenyi(10, .5, directed=d, self_loops=loops, connected=True, n_try=100, seed=seed)
                ctx.check(ref.strongly_connected(G.W.toarray()), 'ErdosRenyi not connected')
                ctx.op(2)
        G = graphs.StochasticBlockModel(24, 3, p=1, q=0, seed=seed)
        ctx.close(G.W, (G.z[:, None] == G.z[None, :]) * 1. - np.eye(24), 'disjoint cliques', tol=0)
        G = graphs.StochasticBlockModel(20, 2, p=0, q=1, seed=seed)
        ctx.close(G.W, (G.z[:, None] != G.z[None, :]) * 1., 'complete bipartite graph', tol=0)
        for n, m0, m in ((40, 1, 1), (30, 4, 3), (25, 5, 5)):
            G = graphs.BarabasiAlbert(n, m0, m, seed=seed)
            W = G.W.toarray()
            ctx.check((W == W.T).all() and set(np.unique(W)) <= {0, 1} and not W.diagonal().any(), 'BarabasiAlbert structure')
            ctx.check(not W[:m0, :m0].any() and all(W[i, :i].sum() == m for i in range(m0, n)), 'BarabasiAlbert: not m edges per new vertex')
        for n, k in ((10, 3), (20, 4), (12, 6), (9, 2), (30, 1)):
            G = graphs.RandomRegular(n, k, max_iter=60, seed=seed)
            ctx.check(regular_ok(G, n, k, ctx), f'RandomRegular({n}, {k}): degrees {np.unique(G.W.toarray().sum(0))}')
        ring_ok(graphs.RandomRing(12, seed=seed), graphs.RandomRing(12, seed=seed).angles, ctx)
        for kw in (dict(N=40, Nc=3), dict(N=40, Nc=3, k_neigh=4), dict(N=50, Nc=4, comm_density=.6, world_density=.4), dict(N=30, Nc=3, comm_sizes=[5, 15, 10]),
                   dict(N=30, Nc=5, min_comm=4, k_neigh=5, world_density=.1), dict(N=12, Nc=6, min_comm=0)):
            community_ok(graphs.Community(seed=seed, **kw), kw, ctx)
            ctx.op()
        if seed == case['lo']:
            large(seed, ctx)
        ctx.trace(12)
        ctx.state(seed, G.W)


def large(seed, ctx):
    """Sizes for which the outcome is certain."""
    from pygsp import graphs
    n = 150
    z = np.sort(np.arange(n) * 7 % 5)
    for d in (False, True):
        for M in (np.eye(5), 1 - np.eye(5), np.triu(np.ones((5, 5))) if d else np.ones((5, 5))):
            G = graphs.StochasticBlockModel(n, 5, z=z, M=M.copy(), directed=d, self_loops=True, seed=seed)
            ctx.close(G.W, M[np.ix_(z, z)], 'certain block model', tol=0)
            G = graphs.StochasticBlockModel(n, 5, z=z, p=np.diag(M).copy(), q=M.copy(), directed=d, seed=seed)
            ctx.close(G.W, M[np.ix_(z, z)] * (1 - np.eye(n)), 'certain block model p, q', tol=0)
        ctx.close(graphs.ErdosRenyi(n, 1, directed=d, seed=seed).W, 1 - np.eye(n), 'certain graph', tol=0)
        ctx.check(graphs.ErdosRenyi(n, 0, directed=d, seed=seed).Ne == 0, 'impossible edges')
        W = graphs.ErdosRenyi(n, .5, directed=d, seed=seed).W.toarray()
        ctx.check(set(np.unique(W)) <= {0, 1} and not W.diagonal().any() and (d or (W == W.T).all()) and .4 < W.sum() / n / (n - 1) < .6, 'half of the edges')
    for n, m0, m in ((120, 60, 3), (200, 1, 1), (150, 101, 101)):
        W = graphs.BarabasiAlbert(n, m0, m, seed=seed).W.toarray()
        ctx.check((W == W.T).all() and set(np.unique(W)) <= {0, 1} and not W[:m0, :m0].any() and all(W[i, :i].sum() == m for i in range(m0, n)), 'BarabasiAlbert: not m edges per new vertex')
    for n, k in ((150, 3), (64, 12), (201, 2)):
        ctx.check(regular_ok(graphs.RandomRegular(n, k, max_iter=300, seed=seed), n, k, ctx), f'RandomRegular({n}, {k}) is not regular')
    G = graphs.RandomRing(150, seed=seed)
    ring_ok(G, G.angles, ctx)
    for kw in (dict(N=300, Nc=12), dict(N=256, Nc=2, k_neigh=25), dict(N=200, Nc=16, comm_density=.6, world_density=.1), dict(N=150, Nc=3, comm_sizes=[5, 115, 30], epsilon=3.), dict(N=120, Nc=40, world_density=.05)):
        community_ok(graphs.Community(seed=seed, **kw), kw, ctx)
    ctx.op(25)
