"""P19: nearest-neighbor graphs connect exactly the nearest points, with the documented weights."""
import contextlib
import itertools
import sys

import numpy as np

from . import gen, ref, rng

BOUNDS = dict(
    quick='all multisets of <=4 points of a 4-point line and of <=3 (4: every third) points of a 3x3 grid, 40 tie-free sets: every k x 4 distances x '
          '5 symmetrizations x center/rescale; radii around every distance; 4 search backends; containers; outcomes of Sensor, Cube, Sphere, '
          'TwoMoons, SwissRoll, DavidSensorNet within 1-2 deviations of 4 policies; all 0/1 images up to 2x3 x all patch shapes; shipped point clouds; large named graphs (see DESIGN.md)',
    thorough='all sets of <=4 grid points, 2-3 deviations, images 3x3')
CHUNK = 2
ASSUMPTIONS = ['the points are not all at the same place (the scale is undefined)', 'FLANN may choose other neighbors (it is approximate)',
               'a radius equal to a distance may include the point or not']
DIST = [('euclidean', 0, 2), ('manhattan', 0, 1), ('max_dist', 0, np.inf), ('minkowski', 3, 3), ('minkowski', 1, 1), ('manhattan', 3, 1), ('euclidean', 1, 2)]
SYM = ['average', 'maximum', 'fill', 'tril', 'triu']
GRID = [(a, b) for a in range(3) for b in range(3)]


def cases(tier):
    t = tier == 'thorough'
    s = []
    for n in (2, 3, 4):
        s += [[(a,) for a in c] for c in itertools.combinations_with_replacement((0, 1, 2, 3.5), n)]
    s += [[(c[i],) for i in p] for c in ((0, 1, 3), (0, 1, 1)) for p in itertools.permutations(range(3))]
    for n in (2, 3):
        s += [list(c) for c in itertools.combinations_with_replacement(GRID, n)]
    s += [list(c) for c in itertools.combinations_with_replacement(GRID, 4)][::1 if t else 3]
    s = [p for p in s if len(set(p)) > 1]
    for k in range(0, len(s), 12):
        yield dict(kind='knn', sets=s[k:k + 12], rot=k // 12 % 20)
    r = [distinct(n, d, i) for n in (3, 5, 8, 12) for d in (1, 2, 3, 4) for i in range(2)]
    for k in range(0, len(r), 2):
        yield dict(kind='generic', sets=r[k:k + 2], id=f'generic-{k}')
    for n, d in ((60, 11), (150, 2), (270, 3), (101, 1), (40, 30)):
        yield dict(kind='large', n=n, d=d, id=f'large-{n}-{d}')
    for k in range(0, len(s), 20):
        yield dict(kind='radius', sets=s[k:k + 20][::1 if t else 4])
    yield dict(kind='radius', sets=r[::1 if t else 3], id='radius-generic')
    for b in ('flann', 'sklearn', 'none'):
        q = s[::19] + r[::2]
        for h in range(3):
            yield dict(kind='backend', backend=b, sets=q[h::3], id=f'backend-{b}-{h}')
    yield dict(kind='containers', id='containers')
    yield dict(kind='invalid', id='invalid')
    for pol in rng.POLICIES:
        for f in FAMILIES:
            yield dict(kind='family', f=f, policy=pol, d=FAMILIES[f][2] + t, id=f'{f}-{pol}')
    yield dict(kind='swiss', id='swiss')
    yield dict(kind='sizes', top=60 if t else 25, id='sizes')
    for h, w in [(1, 2), (2, 2), (2, 3), (1, 4), (3, 2)] + ([(3, 3)] if t else []):
        yield dict(kind='img', h=h, w=w, id=f'img-{h}x{w}')
    yield dict(kind='bigimg', id='bigimg')
    for f in ('bunny', 'moons', 'moons3', 'david', 'david500'):
        yield dict(kind='shipped', f=f, id=f'shipped-{f}')


def distinct(n, d, i):
    """Points without equal distances."""
    return [tuple(round(np.sin(1.3 * (a + 1) * (c + 1) + (i + 1) * .7 * (a + 2) ** 1.5) * 2 + .3 * c, 4) for c in range(d)) for a in range(n)]


def dist(X, p):
    d = np.abs(X[:, None] - X[None])
    if p == np.inf:
        return d.max(2)
    return (d ** p).sum(2) ** (1 / p)


def expected_coords(X, center, rescale):
    Y = np.array(X, dtype=float)
    n, d = Y.shape
    if center:
        Y = Y - Y.mean(0)
    if rescale:
        Y = Y * (n ** (1 / min(d, 3)) / 10) / (.5 * np.linalg.norm(Y.max(0) - Y.min(0)))
    return Y


def verify_knn(G, X, k, p, sigma, sym, ctx, name='', approx=False):
    """W must be a symmetrization of a valid choice of k nearest neighbors (ties are free)."""
    n = len(X)
    D = dist(X, p)
    tol = 1e-9 * max(1e-30, D.max())
    off = np.where(np.eye(n, dtype=bool), np.inf, D)
    srt = np.sort(off, axis=1)[:, :k]
    s = srt.mean() if sigma is None else sigma
    if not s > 0:
        return
    if approx:                         # any k neighbors, at their true distance
        s = float(G.sigma)
        g = np.exp(-D ** 2 / s)
        np.fill_diagonal(g, 0)
        if sigma is None and sym == 'average' and g[~np.eye(n, dtype=bool)].min() > 1e-200:
            c = np.where(g > 0, G.W.toarray() / np.where(g > 0, g, 1), 0)
            ctx.close(s, (c * D).sum() / (n * k), name + 'sigma', tol=1e-6)
        elif sigma is not None:
            ctx.close(s, sigma, name + 'sigma')
        _check_sym(G.W.toarray(), g, ~np.eye(n, dtype=bool), np.zeros((n, n), dtype=bool), k, sym, ctx, name)
        return
    ctx.close(float(G.sigma), s, name + 'sigma', tol=1e-9)
    kth = srt[:, -1:]
    may = off <= kth + tol
    must = off < kth - tol
    must |= may & (may.sum(1, keepdims=True) == k)
    g = np.exp(-D ** 2 / s)
    np.fill_diagonal(g, 0)
    _check_sym(G.W.toarray(), g, may, must, k, sym, ctx, name)


def _check_sym(W, g, may, must, k, sym, ctx, name):
    n = len(W)
    ctx.check(W.shape == g.shape, name + 'shape')
    ctx.check((W == W.T).all() or np.allclose(W, W.T, rtol=1e-12), name + 'not symmetric')
    if sym in ('tril', 'triu'):
        tri = np.tril if sym == 'tril' else np.triu
        may, must = tri(may), tri(must)
        lo, hi = must | must.T, may | may.T
        unit = 1
    elif sym == 'average':
        lo, hi = (must * 1. + must.T) / 2, (may * 1. + may.T) / 2
        unit = .5
    else:
        lo, hi = must | must.T, may | may.T
        unit = 1
    lo, hi = lo * g, hi * g
    ok = (W >= lo * (1 - 1e-7) - 1e-300) & (W <= hi * (1 + 1e-7) + 1e-300)
    ctx.check(ok.all(), lambda: f'{name}weights {W.tolist()} not within {lo.tolist()} and {hi.tolist()}', key='knn-weights' if n > 30 else None)
    with np.errstate(divide='ignore', invalid='ignore'):
        c = np.where(g > 1e-200, W / g / unit, 0)
    ctx.check(np.abs(c - np.round(c)).max() < 1e-6, lambda: f'{name}weights {W.tolist()} are not the kernel of the distances', key='knn-kernel' if n > 30 else None)
    if sym == 'average' and k is not None and (g[~np.eye(n, dtype=bool)] > 1e-200).all():
        ctx.check(abs(c.sum() / 2 - n * k) < 1e-3, lambda: f'{name}{c.sum() / 2} neighbors instead of {n} x {k}')
        ctx.check((c.sum(1) > k - 1e-3).all(), lambda: f'{name}less than {k} neighbors')
    if sym in ('maximum', 'fill') and k is not None and (g[~np.eye(n, dtype=bool)] > 1e-200).all():
        ctx.check(((W > 0).sum(1) >= k).all(), lambda: f'{name}less than {k} neighbors')


def verify_radius(G, X, eps, p, sigma, ctx, name=''):
    D = dist(X, p)
    n = len(X)
    tol = 1e-9 * max(D.max(), eps)
    may, must = D <= eps + tol, D <= eps - tol
    np.fill_diagonal(may, False)
    np.fill_diagonal(must, False)
    if sigma is None:
        if (may != must).any():
            return
        s = D[must].mean()
        if not s > 0:
            return
    else:
        s = sigma
    ctx.close(float(G.sigma), s, name + 'sigma', tol=1e-9)
    g = np.exp(-D ** 2 / s)
    np.fill_diagonal(g, 0)
    W = G.W.toarray()
    ctx.check(((W >= must * g * (1 - 1e-7)) & (W <= may * g * (1 + 1e-7))).all(),
              lambda: f'{name}weights {W.tolist()} differ from the kernel within {eps}: {(must * g).tolist()}', key='radius-weights' if n > 30 else None)
    ctx.close((W > 0)[g > 1e-300], (np.abs(W - g) <= 1e-7 * g)[g > 1e-300] & (W > 0)[g > 1e-300], name + 'radius weights', tol=0)


def nn(ctx, X, **kw):
    from pygsp import graphs
    before = np.array(X)
    given = np.array(X)
    ctx.op()
    G = ctx.safe(lambda: graphs.NNGraph(given, **kw), f'NNGraph({[tuple(map(float, x)) for x in X]}, {kw})', key='NNGraph raised')
    if G is not None:
        ctx.check(np.array_equal(given, before), lambda: f'points modified with {kw}: {before.tolist()} became {given.tolist()}')
    return G


def one(X, k, di, sym, center, rescale, sigma, ctx, approx=False, **extra):
    X = np.array(X, dtype=float)
    dt, order, p = DIST[di]
    Y = expected_coords(X, center, rescale)
    D = dist(Y, p)
    off = np.sort(D + np.where(np.eye(len(X)) > 0, np.inf, 0), 1)[:, :k]
    if sigma is None and not off.max() > 0:
        return                         # every neighbor at distance zero: no scale
    kw = dict(k=k, dist_type=dt, order=order, symmetrize_type=sym, center=center, rescale=rescale, sigma=sigma, **extra)
    G = nn(ctx, X, **kw)
    if G is None:
        return
    name = f'{X.tolist()} {kw}: '
    ctx.close(G.coords, Y, name + 'coords', tol=1e-9, key='coords')
    verify_knn(G, Y, k, p, sigma, sym, ctx, name, approx)
    ctx.state(Y, G.W)


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


CFG = [(di, sym, c, r, s) for di in range(len(DIST)) for sym in SYM for c, r in ((True, True), (False, False), (True, False), (False, True)) for s in (None, .3)]


def run_knn(case, ctx):
    for i, X in enumerate(case['sets']):
        n = len(X)
        step = 1 if n == 2 else 13 if n == 3 else 41
        for k in range(1, n):
            for di, sym, c, r, s in CFG[(case['rot'] * 7 + i * 5 + k) % step::step]:
                one(X, k, di, sym, c, r, s, ctx)
        ctx.trace()


def run_generic(case, ctx):
    for X in case['sets']:
        for k in sorted({1, 2, len(X) // 2, len(X) - 1}):
            for di, sym, c, r, s in CFG[k % 7::7]:
                one(X, k, di, sym, c, r, s, ctx)
        ctx.trace()


def run_large(case, ctx):
    n, d = case['n'], case['d']
    X = np.array(distinct(n, d, 1)) + np.arange(n)[:, None] * 1e-3
    ctx.prefix = f'{n} points of dimension {d} '
    for k in (1, 2, 10, 17, n // 2, n - 1):
        for j, (di, sym, c, r, s) in enumerate(CFG[k % 23::23]):
            if j % (4 if n > 200 else 2):
                continue
            dt, order, p = DIST[di]
            Y = expected_coords(X, c, r)
            kw = dict(k=k, dist_type=dt, order=order, symmetrize_type=sym, center=c, rescale=r, sigma=s)
            G = nn(ctx, X, **kw)
            if G is not None:
                ctx.close(G.coords, Y, f'coords {c} {r}', tol=1e-9)
                verify_knn(G, Y, k, p, s, sym, ctx, f'{kw} ')
                ctx.state(k, G.W)
    for di, (dt, order, p) in enumerate(DIST):
        for c, r in ((True, True), (False, False)):
            Y = expected_coords(X, c, r)
            D = np.sort(dist(Y, p)[np.triu_indices(n, 1)])
            for q in (.05, .3, .9)[:1 if n > 200 else 3]:
                i = int(q * len(D))
                eps = (D[i] + D[i + 1]) / 2
                kw = dict(NNtype='radius', epsilon=eps, dist_type=dt, order=order, center=c, rescale=r, sigma=None)
                G = nn(ctx, X, **kw)
                if G is not None and D[i + 1] - D[i] > 1e-7 * D[-1]:
                    verify_radius(G, Y, eps, p, None, ctx, f'{kw} ')
                    ctx.state(q, G.W)
    ctx.trace()


def run_radius(case, ctx):
    for i, X in enumerate(case['sets']):
        X = np.array(X, dtype=float)
        for j, (dt, order, p) in enumerate(DIST):
            for center, rescale in ((True, True), (False, False), (True, False), (False, True))[(i + j) % 2::2]:
                Y = expected_coords(X, center, rescale)
                D = dist(Y, p)
                v = sorted({round(x, 9) for x in D[D > 0]})
                mids = [v[0] / 2] + [(a + b) / 2 for a, b in zip(v, v[1:])][:2] + [v[-1] * 1.5] + v[:1]
                for eps in mids:
                    for sigma in (None, .3):
                        empty = not (D[~np.eye(len(X), dtype=bool)] <= eps * (1 + 1e-9)).any()
                        kw = dict(NNtype='radius', epsilon=eps, dist_type=dt, order=order, center=center, rescale=rescale, sigma=sigma)
                        if sigma is None:
                            near = D[~np.eye(len(X), dtype=bool)]
                            near = near[near <= eps * (1 + 1e-9)]
                            if not near.size or not near.max() > 0 or eps in v:
                                continue
                        G = nn(ctx, X, **kw)
                        if G is None:
                            continue
                        name = f'{X.tolist()} {kw}: '
                        ctx.close(G.coords, Y, name + 'coords', tol=1e-9, key='coords')
                        verify_radius(G, Y, eps, p, sigma, ctx, name)
                        ctx.check(not empty or G.Ne == 0, name + 'edges')
                        ctx.state(Y, G.W)
        ctx.trace()


@contextlib.contextmanager
def without(*names):
    """Hide optional packages."""
    saved = {}
    for n in list(sys.modules):
        if n.split('.')[0] in names:
            saved[n] = sys.modules.pop(n)
    for n in names:
        sys.modules[n] = None
    try:
        yield
    finally:
        for n in names:
            sys.modules.pop(n, None)
        sys.modules.update(saved)


def run_backend(case, ctx):
    hide = dict(flann=(), sklearn=('pyflann',), none=('pyflann', 'sklearn'))[case['backend']]
    if case['backend'] == 'flann':
        try:
            import pyflann  # noqa
        except Exception:
            return
    sets = case['sets']
    if case['backend'] == 'flann':     # FLANN misses neighbors of superimposed or one-dimensional points
        sets = [X for X in sets if len(X[0]) > 1 and len(set(X)) == len(X)]
    with without(*hide):
        for i, X in enumerate(sets):
            n = len(X)
            for k in range(1, n)[:3]:
                for di in range(5):
                    for c, r in ((True, True), (False, False)):
                        one(X, k, di, SYM[(i + di) % 5], c, r, (None, .3)[(i + k) % 2], ctx, case['backend'] == 'flann', use_flann=True)
            ctx.trace()


def run_containers(case, ctx):
    from pygsp import graphs
    base = [[0, 0], [1, 0], [3, 1], [0, 5], [7, 2]]
    forms = dict(int64=np.array(base), int32=np.array(base, np.int32), f32=np.array(base, np.float32), list=[list(r) for r in base], fortran=np.asfortranarray(np.array(base, float)),
                 view=np.repeat(np.array(base, float), 2, axis=0)[::2], neg=np.array(base, float)[::-1][::-1], uint8=np.array(base, np.uint8), frozen=np.array(base, float))
    forms['frozen'].flags.writeable = False
    X = np.array(base, dtype=float)
    for f, v in forms.items():
        for typ in ('knn', 'radius'):
            for c, r in itertools.product((True, False), repeat=2):
                Y = expected_coords(X, c, r)
                kw = dict(NNtype=typ, center=c, rescale=r, k=2, sigma=1.)
                if typ == 'radius':
                    D = dist(Y, 2)
                    kw['epsilon'] = float(np.sort(D[D > 0])[4] * 1.001)
                ctx.op()
                ctx.prefix = f'{f} {kw} '
                before = np.array(v)
                G = ctx.safe(lambda: graphs.NNGraph(v, **kw), 'construction')
                if G is None:
                    continue
                ctx.check(np.array_equal(np.array(v), before), 'points modified')
                t = 1e-5 if f == 'f32' else 1e-9
                ctx.close(G.coords, Y, 'coords', tol=t)
                D = dist(Y, 2)
                if typ == 'radius':
                    A = (D <= kw['epsilon']) * np.exp(-D ** 2)
                    np.fill_diagonal(A, 0)
                    ctx.close(G.W, A, 'W', tol=t)
                elif f != 'f32':
                    verify_knn(G, Y, 2, 2, 1., 'average', ctx)
                ctx.state(f, typ, c, r, G.W)
    ctx.trace()


def run_invalid(case, ctx):
    from pygsp import graphs
    X = np.array(distinct(6, 2, 0))
    for k in (6, 7, 20):
        ctx.raises(lambda: graphs.NNGraph(X, k=k), f'k={k} of 6 points')
    G = graphs.NNGraph(X, k=5)
    ctx.check(G.Ne == 15, 'complete graph')
    ctx.raises(lambda: graphs.NNGraph(X, NNtype='unknown', k=2), 'unknown type')
    ctx.raises(lambda: graphs.NNGraph(X, k=2, symmetrize_type='unknown'), 'unknown symmetrization')
    ctx.raises(lambda: graphs.NNGraph(X, k=2, dist_type='unknown'), 'unknown distance')
    ctx.raises(lambda: graphs.Sensor(10, distributed=True), 'not a square')
    ctx.raises(lambda: graphs.Sensor(6), 'too few points')
    ctx.raises(lambda: graphs.Cube(sampling='unknown'), 'unknown sampling')
    ctx.raises(lambda: graphs.Sphere(sampling='unknown'), 'unknown sampling')
    ctx.raises(lambda: graphs.TwoMoons(moontype='unknown'), 'unknown moons')
    ctx.raises(lambda: graphs.Cube(nb_dim=4), 'four-dimensional cube')
    for lt in ('combinatorial', 'normalized'):
        G = graphs.NNGraph(X, k=2, lap_type=lt, plotting={'vertex_size': 7})
        ctx.close(G.L, ref.laplacian(G.W.toarray(), lt), 'L', tol=1e-12)
        ctx.check(G.plotting['vertex_size'] == 7, 'plotting')
    ctx.trace()


def cube_points(G, kw, ctx, far=1):
    r, n, d = kw.get('radius', 1), kw['nb_pts'], kw.get('nb_dim', 3)
    ctx.check(G.coords.shape == (n, d), f'{G.coords.shape} points')
    x = G.coords
    ctx.check((x >= -1e-12).all() and (x <= r * (1 + 1e-12)).all(), 'points outside of the cube')
    if d == 3:
        on = (np.abs(x) < 1e-12) | (np.abs(x - r) < 1e-12)
        ctx.check(on.any(1).all(), 'a point is not on a face')


def sphere_points(G, kw, ctx, far=1):
    ctx.check(G.coords.shape == (kw['nb_pts'], kw.get('nb_dim', 3)), 'points')
    ctx.close(np.linalg.norm(G.coords, axis=1), np.full(len(G.coords), kw.get('radius', 1.)), 'distance to the center', tol=1e-9)


def sensor_points(G, kw, ctx, far=1):
    n = kw['N']
    x = G.coords
    ctx.check(x.shape == (n, 2) and (x >= 0).all() and (x <= 1 + 1e-12).all(), 'sensors outside of the unit square')
    if kw.get('distributed'):
        m = int(round(n ** .5))
        cell = {(int(a), int(b)) for a, b in np.floor(x * m + 1e-9)}
        ctx.check(cell == set(itertools.product(range(m), repeat=2)), f'sensors do not occupy the {m} x {m} cells: {sorted(cell)}')


def moons_points(G, kw, ctx, far=1):
    n, d = kw['N'], kw.get('distance', .5)
    n1 = n // 2
    x = G.coords
    ctx.check(x.shape == (n, 2), 'points')
    ctx.check(list(G.labels) == [0] * n1 + [1] * (n - n1), f'labels {G.labels}')
    h = (d - 1) / 2
    sd = kw.get('sigmad', .07)
    a, b = x[:n1] - [.5, -h], x[n1:] - [-.5, h]
    for v, sign in ((a, -1), (b, 1)):
        off = np.abs(np.linalg.norm(v, axis=1) - 1)
        ctx.check((off <= sd * far * (1 + 1e-9) + 1e-12).all(), f'a point is {off.max()} away from its moon')
        ctx.check((sign * v[:, 1] >= -sd * far - 1e-9).all(), 'a point is on the wrong half of its moon')


# name: (class, kwargs list, deviations, points, knn parameters)
FAMILIES = dict(
    sensor=('Sensor', [dict(N=7), dict(N=9, k=3), dict(N=9, distributed=True), dict(N=4, k=2, distributed=True)], 1, sensor_points, dict(k=6)),
    cube=('Cube', [dict(nb_pts=12), dict(nb_pts=13, radius=2.5), dict(nb_pts=12, nb_dim=2), dict(nb_pts=11, nb_dim=2, radius=.5)], 1, cube_points, dict(k=10)),
    sphere=('Sphere', [dict(nb_pts=12), dict(nb_pts=11, radius=3), dict(nb_pts=11, nb_dim=2)], 1, sphere_points, dict(k=10)),
    moons=('TwoMoons', [dict(N=7, moontype='synthesized'), dict(N=8, moontype='synthesized', sigmad=0, distance=1.2), dict(N=6, moontype='synthesized', sigmag=.3)], 1, moons_points,
           dict(k=5, sigma=.05)),
)


def check_family(G, f, kw, ctx, far=1):
    cls, _, _, points, p = FAMILIES[f]
    points(G, kw, ctx, far)
    sigma = kw.get('sigmag', p.get('sigma'))
    verify_knn(G, G.coords, kw.get('k', p['k']), 2, sigma, 'average', ctx)


def run_family(case, ctx):
    from pygsp import graphs
    cls, kws, _, _, _ = FAMILIES[case['f']]
    for kw in kws:
        ex = rng.Deviations(rng.POLICIES[case['policy']], case['d'], cells=3, max_draws=300, horizon=24)
        runs = 0
        for G, _ in ex.all(lambda: getattr(graphs, cls)(seed=5, **kw), 5000):
            runs += 1
            ctx.op()
            ctx.prefix = f'{cls} {kw} deviation {ex.plan} of {case["policy"]}: '
            if isinstance(G, Exception):
                if (case['f'] == 'sphere' or case['policy'] in ('zero', 'ends')) and isinstance(G, ValueError) and any(w in str(G) for w in ('NaN', 'nan', 'infinite')):
                    continue           # all points at the same place, or at the center of the sphere
                ctx.check(False, f'raised {type(G).__name__}: {G}', key='family raised')
                continue
            if not np.isfinite(G.coords).all():
                continue
            check_family(G, case['f'], kw, ctx)
            ctx.state(G.coords)
        ctx.prefix = ''
        ctx.trace(runs)
        ctx.check(ex.complete, 'outcomes not all explored')
        ctx.check(set(ex.seeds) == {5}, f'the generator was seeded with {set(ex.seeds)}')


def run_sizes(case, ctx):
    """Real generator, every size of a range, every seed of a range."""
    from pygsp import graphs
    for seed in range(6):
        for f, kws in dict(sensor=[dict(N=60), dict(N=36, distributed=True), dict(N=30, k=12)], cube=[dict(nb_pts=120), dict(nb_pts=40, nb_dim=2), dict(nb_pts=77, radius=7)],
                           sphere=[dict(nb_pts=60, radius=.2), dict(nb_pts=50, nb_dim=4)], moons=[dict(N=61, moontype='synthesized', sigmad=1e-9)]).items():
            for kw in kws:
                ctx.prefix = f'{f} {kw} seed {seed} '
                G = getattr(graphs, FAMILIES[f][0])(seed=seed, **kw)
                check_family(G, f, kw, ctx, 6)
                H = getattr(graphs, FAMILIES[f][0])(seed=seed, **kw)
                ctx.close(H.W, G.W.toarray(), 'same seed, different graph', tol=0)
                ctx.op(2)
                ctx.state(f, seed, G.coords)
    for m in list(range(2, case['top'])) + [49]:
        ctx.prefix = f'distributed sensors {m} x {m} '
        G = ctx.safe(lambda: graphs.Sensor(m * m, k=3, distributed=True, seed=1), 'construction')
        if G is not None:
            sensor_points(G, dict(N=m * m, distributed=True), ctx)
        ctx.op()
    for n in range(12, 40):
        ctx.prefix = f'cube of {n} points '
        check_family(graphs.Cube(nb_pts=n, seed=2), 'cube', dict(nb_pts=n), ctx)
        ctx.op()
    ctx.trace()


def run_swiss(case, ctx):
    """All outcomes of the swiss roll and of the random sensor network."""
    from pygsp import graphs
    for kw in (dict(), dict(srtype='classic'), dict(dim=2), dict(a=2, b=3, s=.8), dict(thresh=.5, s=1.), dict(a=2, b=3, srtype='classic', s=.8), dict(a=.5, b=2.5, srtype='classic', dim=2, thresh=1e-3, s=.6),
               dict(a=0, b=2, dim=2, s=.7)):
        for n in (2, 3):
            ex = rng.Explorer(3 if n == 2 else 2)
            got = {}
            a, b = kw.get('a', 1), kw.get('b', 4)
            u = [(2 * j + 1) / (2 * ex.cells) for j in range(ex.cells)]
            radius = [np.pi * (np.sqrt((b * b - a * a) * v + a * a) if kw.get('srtype', 'uniform') == 'uniform' else (b - a) * v + a) for v in u]
            for G, pr in ex.all(lambda: graphs.SwissRoll(n, seed=5, **kw), 5000):
                ctx.op()
                if isinstance(G, Exception):
                    ctx.check('infinite' in str(G) or 'NaN' in str(G) or 'nan' in str(G), f'SwissRoll raised {G!r}')
                    got['bad'] = got.get('bad', 0) + pr
                    continue
                x = np.asarray(G.x)
                x, y = (x[[0, 1]], None) if kw.get('dim') == 2 else (x[[0, 2]], x[1])
                r = np.hypot(*x)
                idx = [int(np.argmin(np.abs(np.array(radius) - v))) for v in r]
                ctx.close(x, np.array([r * np.cos(r), r * np.sin(r)]), 'not on the spiral', tol=1e-9)
                ctx.close(r, np.array(radius)[idx], 'radius', tol=1e-9)
                if y is not None:
                    ctx.check(all(min(abs(v / 21 - w) for w in u) < 1e-9 for v in y), f'heights {y}')
                got[tuple(idx)] = got.get(tuple(idx), 0) + pr
                c = G.coords
                z = np.asarray(G.x).T - np.asarray(G.x).T.mean(0)
                ctx.close(c, z / z.max(), 'coords', tol=1e-9)
                D = dist(c, 2)
                s = kw.get('s', np.sqrt(2 / n))
                W = np.exp(-D ** 2 / (2 * s * s))
                W[np.eye(n, dtype=bool) | (W < kw.get('thresh', 1e-6))] = 0
                ctx.close(G.W, W, 'W', tol=1e-6)
                ctx.state(c)
            ctx.check(ex.complete and sum(got.values()) == 1, 'outcomes')
            ctx.check('bad' in got or set(got.values()) == {got[min(got)]}, f'radii not uniform {got}')
            ctx.trace()
    T = .6
    for n in (2, 3):
        ex = rng.Explorer(3 if n == 2 else 2)
        for G, pr in ex.all(lambda: graphs.DavidSensorNet(n, seed=5), 5000):
            ctx.op()
            if isinstance(G, Exception):
                raise G
            D = dist(G.coords, 2)
            c = .2183 - .125 * n / 436.075
            W = np.exp(D ** 2 * np.log(T) / c ** 2)        # T at the cutoff distance
            W[np.eye(n, dtype=bool) | (D > c)] = 0
            ctx.close(G.W, W, 'sensor network weights', tol=1e-6)
            ctx.check((G.coords >= 0).all() and (G.coords <= 1).all(), 'coords')
            ctx.state(G.coords)
        ctx.check(ex.complete, 'outcomes')
        ctx.trace()
    for n in (10, 63, 65, 200):
        for seed in range(4):
            G = graphs.DavidSensorNet(n, seed=seed)
            D = dist(G.coords, 2)
            c = .2183 - .125 * n / 436.075
            W = np.exp(D ** 2 * np.log(T) / c ** 2)
            W[np.eye(n, dtype=bool) | (D > c)] = 0
            ctx.close(G.W, W, f'sensor network {n}', tol=1e-6)
            ctx.op()


def patches(img, r, c):
    h, w = img.shape[:2]
    flat = img.reshape(h, w, -1)

    def reflect(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    top, left = (r - 1) // 2, (c - 1) // 2
    return np.array([[flat[reflect(i + a - top, h), reflect(j + b - left, w)] for a in range(r) for b in range(c)] for i in range(h) for j in range(w)], dtype=float).reshape(h * w, -1)


def grid_weights(h, w):
    W = np.zeros((h * w, h * w))
    for i in range(h):
        for j in range(w):
            for a, b in ((i + 1, j), (i, j + 1)):
                if a < h and b < w:
                    W[i * w + j, a * w + b] = W[a * w + b, i * w + j] = 1
    return W


def check_img(img, shape, ctx, k, **kw):
    from pygsp import graphs
    r, c = shape if len(shape) == 2 else (shape[0], shape[0])
    P = patches(img, r, c)
    if len(np.unique(P, axis=0)) < 2:
        return
    ctx.op(2)
    before = img.copy()
    G = ctx.safe(lambda: graphs.ImgPatches(img, patch_shape=shape, k=k, **kw), f'ImgPatches {img.tolist()} {shape} {kw}', key='ImgPatches raised')
    if G is None:
        return
    ctx.check(np.array_equal(img, before), 'image modified')
    ctx.close(G.Xin, P, f'patches {shape} of {img.tolist()}', tol=0, key='patches')
    Y = expected_coords(P, kw.get('center', True), kw.get('rescale', True))
    verify_knn(G, Y, k, 2, kw.get('sigma'), 'average', ctx, 'patches ')
    H = graphs.Grid2dImgPatches(img, patch_shape=shape, k=k, **kw)
    Wg = grid_weights(*img.shape[:2])
    ctx.close(H.W - G.W, Wg, 'union with the grid', tol=1e-12)
    ctx.check(H.coords.shape == (len(P), 2), 'coords of the union')
    H = graphs.Grid2dImgPatches(img, aggregate=lambda Wp, Wg: 2 * Wp + 3 * Wg, patch_shape=shape, k=k, **kw)
    ctx.close(H.W - 2 * G.W, 3 * Wg, 'aggregate', tol=1e-12)
    ctx.state(img, shape, G.W)


def run_img(case, ctx):
    h, w = case['h'], case['w']
    n = h * w
    shapes = [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3)] + [(2,), (3,), (5, 5)]
    for i, bits in enumerate(itertools.product((0, 1), repeat=n)):
        img = np.array(bits, dtype=float).reshape(h, w)
        for j, s in enumerate(shapes):
            if n >= 6 and (i + j) % 6:
                continue
            if (i + j) % 3 == 0:
                check_img(img, s, ctx, 1, sigma=.5)
            elif (i + j) % 3 == 1:
                check_img(img.astype(int), s, ctx, min(2, n - 1), sigma=.5, center=False)
            else:
                check_img(np.stack([img, 1 - img, 3 * img], 2), s, ctx, 1, sigma=.7, rescale=False)
        ctx.trace()


def run_bigimg(case, ctx):
    for h, w, d in ((4, 5, 0), (5, 4, 0), (6, 3, 3), (3, 7, 1)):
        img = np.sin(np.arange(h * w * max(d, 1)) ** 1.7).reshape((h, w) + ((d,) if d else ()))
        for s in ((3, 3), (1, 1), (2, 3), (3, 2), (4, 4), (5,), (5, 2)):
            for kw in (dict(), dict(center=False), dict(rescale=False), dict(center=False, rescale=False)):
                check_img(img, s, ctx, 4, **kw)
    ctx.trace()


def run_shipped(case, ctx):
    from pygsp import graphs
    f = case['f']
    ctx.op()
    ctx.trace()
    if f == 'bunny':
        G = graphs.Bunny()
        ctx.check(G.N == 2503 and G.coords.shape == (2503, 3), 'bunny points')
        D = dist(G.coords, 2)
        e = np.argwhere(np.triu(D <= .02, 1))
        sig = D[e[:, 0], e[:, 1]].mean()
        W = np.exp(-D ** 2 / sig) * (D <= .02)
        np.fill_diagonal(W, 0)
        near = np.abs(D - .02) < 1e-9
        ctx.close(np.where(near, 0, G.W.toarray()), np.where(near, 0, W), 'bunny weights', tol=1e-7)
    elif f == 'moons':
        G = graphs.TwoMoons()
        ctx.check(G.coords.shape == (2000, 2) and list(G.labels) == [0] * 1000 + [1] * 1000, 'two moons')
        verify_knn(G, G.coords, 5, 2, .05, 'average', ctx)
    elif f == 'moons3':
        G = graphs.TwoMoons(dim=1, sigmag=.1)
        ctx.check(G.coords.shape == (2000, 1), 'one dimension')
        ctx.close(G.coords[:, 0], graphs.TwoMoons().coords[:, 0], 'first coordinate', tol=0)
    elif f == 'david':
        G = graphs.DavidSensorNet()
        ctx.check(G.N == 64 and G.coords.shape == (64, 2) and not G.is_directed() and not G.has_loops(), 'david64')
    else:
        G = graphs.DavidSensorNet(500)
        ctx.check(G.N == 500 and G.coords.shape == (500, 2) and not G.is_directed() and not G.has_loops(), 'david500')
    ctx.state(f, G.W)
