"""P26: coordinates are what the layout promises, finite, one per vertex, and nothing else of the graph changes."""
import itertools

import numpy as np

from . import gen, ref, rng
from .obs import same, snapshot

BOUNDS = dict(
    quick='all graphs up to isomorphism with <=4 vertices (<=3 directed), medium and large graphs x every layout; every random outcome of random and community layouts on small '
          'graphs (3-cell draws), all partitions of <=5 vertices in communities; spring: all initial positions on a 3-letter lattice for <=3 vertices, fixed subsets, '
          'dimensions, centers, scales, relabellings; custom arrays of 40 shapes for <=5 vertices; all sequences of 2 layouts',
    thorough='5-vertex graphs, 4-letter lattices, all partitions of 6 vertices, sequences of 3 layouts')
CHUNK = 2
ASSUMPTIONS = ['Laplacian eigenmaps need more vertices than dimensions and an edge', 'initial spring positions differ (coincident vertices do not repel)']
KINDS = ['line1D', 'line2D', 'ring2D', 'random2D', 'random3D', 'spring', 'laplacian_eigenmap2D', 'laplacian_eigenmap3D']


def pool(t):
    out = []
    for n in (1, 2, 3, 4) + ((5,) if t else ()):
        out += gen.iso_classes(n, (0, 1))
    out += gen.iso_classes(3, (0, 1), None, 'directed') + list(gen.undirected(2, (0, 2.5), (0, 1.5))) + [gen.weighted(gen.full(5)), gen.weighted(gen.grid(2, 3))]
    return out


def partitions(n):
    """Restricted growth strings."""
    def rec(p, m):
        if len(p) == n:
            yield p
            return
        for v in range(m + 2):
            yield from rec(p + [v], max(m, v))
    yield from rec([0], 0)


def cases(tier):
    t = tier == 'thorough'
    ps = pool(t)
    for k in range(0, len(ps), 4):
        yield dict(kind='kinds', graphs=ps[k:k + 4], id=f'kinds-{k // 4}')
    for name, W in gen.medium():
        yield dict(kind='kinds', graphs=[W], id='medium-' + name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='kinds', graphs=[], name=name, id='large-' + name)
    for n in (1, 2, 3):
        for d in (2, 3):
            yield dict(kind='random', n=n, d=d, id=f'random-{n}-{d}')
    for n in (1, 2, 3, 4, 5) + ((6,) if t else ()):
        yield dict(kind='community', n=n, id=f'community-{n}')
    yield dict(kind='families', id='families')
    L = [-1., 0., .7] + ([2.] if t else [])
    for k, W in enumerate(gen.iso_classes(2, (0, 1)) + gen.iso_classes(3, (0, 1)) + gen.iso_classes(3, (0, 1), None, 'directed')[1:6]):
        yield dict(kind='spring', W=W, lattice=L, id=f'spring-{k}')
    for k, W in enumerate(gen.iso_classes(4, (0, 1)) + [gen.ring(6), gen.star(7)]):
        yield dict(kind='relabel', W=W, id=f'relabel-{k}')
    for n in range(1, 6):
        yield dict(kind='custom', n=n, id=f'custom-{n}')
    for a in KINDS:
        yield dict(kind='sequence', first=a, depth=3 if t else 2, id='sequence-' + a)
    yield dict(kind='unknown', id='unknown')
    for name, W in gen.medium():
        yield dict(kind='forces', W=W, id='forces-' + name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='forces', name=name, id='forces-' + name)
    for k, W in enumerate(gen.iso_classes(3, (0, 1), None, 'directed') + gen.iso_classes(5, (0, 1))):
        yield dict(kind='forces', W=W, id=f'forces-{k}')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def expected(kind, n):
    i = np.arange(n)
    if kind == 'line1D':
        return i
    if kind == 'line2D':
        return np.stack([i, 0 * i], 1)
    a = 2 * np.pi * i / n
    return np.stack([np.cos(a), np.sin(a)], 1)


def check_kind(G, W, kind, ctx, what):
    n = len(W)
    c = np.asarray(G.coords, dtype=float)
    ctx.state(kind, c)
    dim = 1 if kind == 'line1D' else 3 if kind.endswith('3D') else 2
    if not ctx.check(c.shape == ((n,) if dim == 1 else (n, dim)), f'{what}coordinates of shape {c.shape}', key='shape'):
        return
    if not ctx.check(np.isfinite(c).all(), f'{what}coordinates are not finite', key='finite'):
        return
    if kind in ('line1D', 'line2D', 'ring2D'):
        ctx.close(c, expected(kind, n), what + kind, tol=1e-9, scale=max(1, n), key=kind)
    elif kind.startswith('random'):
        ctx.check((c >= 0).all() and (c < 1).all(), f'{what}random coordinates out of [0, 1)', key='unit')
        ctx.check(n < 2 or len({tuple(r) for r in c}) == n, f'{what}coincident random vertices', key='coincident')
    elif kind == 'spring':
        ctx.check(np.abs(c).max() <= 1 + 1e-9, f'{what}spring layout out of (-1, 1): {np.abs(c).max()}', key='spring-box')
        ctx.close(c.mean(0), np.zeros(2), what + 'spring layout is not centered', tol=1e-9, key='spring-center')
        ctx.check(n < 2 or abs(np.abs(c).max() - 1) < 1e-9, f'{what}spring layout is not rescaled to (-1, 1): {np.abs(c).max()}', key='spring-rescaled')
    else:
        L = ref.laplacian(W, 'combinatorial')
        e = np.linalg.eigvalsh(L)
        sc = max(1., np.abs(L).max())
        ctx.close(L @ c, c * np.sort(np.clip(e, 0, None))[1:dim + 1], what + 'eigenmap: L c = lambda c', tol=1e-6, scale=sc, key='eigenmap')
        ctx.close(c.T @ c, np.eye(dim), what + 'eigenmap: orthonormal', tol=1e-6, key='eigenmap-orthonormal')
        # also to the constant vector when it is the only one of frequency zero
        if n > 1 and e[1] > 1e-8:
            ctx.close(c.sum(0), np.zeros(dim), what + 'eigenmap: orthogonal to constants', tol=1e-6, key='eigenmap-constant')


def possible(W, kind):
    n = len(W)
    if kind.startswith('laplacian'):
        return n > int(kind[-2]) and gen.has_edge(W)
    return True


def run_kinds(case, ctx):
    from pygsp import graphs
    for g in case['graphs'] or [gen.large(case['name'])]:
        W = ref.arr(g)
        n = len(W)
        for state in ('fresh', 'full', 'partial') if n < 30 else ('fresh',):
            for kind in KINDS:
                if kind == 'spring' and n > 150 or kind.startswith('lap') and case.get('name') == 'many':
                    continue
                ctx.prefix = f'W={g if n < 6 else n} {state} {kind} '
                G = graphs.Graph(W.copy())
                G.set_signal(np.arange(n), 's')
                if state == 'full':
                    G.compute_fourier_basis()
                elif state == 'partial':
                    if n < 4 or not gen.has_edge(g):
                        continue
                    G.compute_fourier_basis(2)
                ctx.op()
                ctx.trace()
                if not possible(g, kind):
                    if n <= int(kind[-2]):
                        ctx.raises(lambda: G.set_coordinates(kind), 'eigenmap of too few vertices accepted', key='eigenmap-small')
                    continue
                before = G.W.toarray(), dict(G.signals), repr(G.plotting), G.L.toarray(), None if G._e is None else (G.e.copy(), G.U.copy())
                G.set_coordinates(kind, seed=3)
                check_kind(G, W, kind, ctx, '')
                ctx.close(G.W, before[0], 'weights', tol=0, key='changed')
                ctx.close(G.L, before[3], 'Laplacian', tol=0, key='changed')
                ctx.check(sorted(G.signals) == sorted(before[1]) and repr(G.plotting) == before[2], 'signals or plotting options changed', key='changed')
                if state == 'full':
                    ctx.close(G.e, before[4][0], 'eigenvalues', tol=0, key='changed-basis')
                    ctx.close(G.U, before[4][1], 'eigenvectors', tol=0, key='changed-basis')
                # the coordinates are the user's: moving vertices changes nothing else
                if kind.startswith('lap'):
                    U = G.U.copy()
                    G.coords[...] = 7
                    ctx.close(G.U, U, 'moving a vertex changed the Fourier basis', tol=0, key='aliased')


def run_random(case, ctx):
    from pygsp import graphs
    n, d = case['n'], case['d']
    ex = rng.Explorer(3 if n * d < 9 else 2, 100)
    u = [(2 * j + 1) / (2 * ex.cells) for j in range(ex.cells)]
    seen = {}
    for c, pr in ex.all(lambda: layout(graphs.Graph(gen.full(n)), f'random{d}D', seed=4), 6000):
        ctx.op()
        if isinstance(c, Exception):
            raise c
        c = np.asarray(c)
        ctx.check(c.shape == (n, d), f'shape {c.shape}', key='shape')
        k = tuple(np.round(np.ravel(c), 9))
        seen[k] = seen.get(k, 0) + pr
    ctx.state(n, d, sorted(seen))
    ctx.trace()
    if not ex.complete:
        ctx.check(len(seen) > 0, 'no outcome')
        return
    # uniform and independent: every outcome of the draws is one layout
    want = {tuple(np.round(v, 9)) for v in itertools.product(u, repeat=n * d)}
    ctx.check(set(seen) == want, f'{len(seen)} layouts from {len(want)} outcomes', key='uniform')
    ctx.check(len(set(seen.values())) == 1, 'layouts are not equally likely', key='uniform')
    ctx.check(set(ex.seeds) == {4}, f'generators seeded with {set(ex.seeds)}', key='seed')


def layout(G, kind, **kw):
    G.set_coordinates(kind, **kw)
    return np.array(G.coords)


def run_community(case, ctx):
    from pygsp import graphs
    n = case['n']
    for part in partitions(n):
        for rad in (None, 10.):
            ex = rng.Explorer(2, 100) if n <= 2 else rng.Deviations(rng.POLICIES['spread'], 1, cells=3)

            def f():
                G = graphs.Graph(gen.path(n))
                G.info = dict(node_com=np.array(part))
                if rad:
                    G.info['world_rad'] = rad
                G.set_coordinates('community2D', seed=4)
                return G
            outs = set()
            for G, _ in ex.all(f, 300):
                ctx.op()
                if isinstance(G, Exception):
                    raise G
                ctx.prefix = f'communities {part} world {rad}: '
                c = np.asarray(G.coords)
                check_communities(c, part, rad or np.sqrt(n), ctx)
                outs.add(c.round(9).tobytes())
                ctx.state(part, c)
            ctx.check(n == 0 or len(outs) > 1, 'the coordinates do not depend on the draws', key='random')
            ctx.trace()


def check_communities(c, part, R, ctx):
    n, k = len(part), max(part) + 1
    if not ctx.check(c.shape == (n, 2) and np.isfinite(c).all(), f'coordinates of shape {c.shape}', key='shape'):
        return
    a = 2 * np.pi * np.arange(1, k + 1) / k
    centers = R * np.stack([np.cos(a), np.sin(a)], 1)
    sizes = np.bincount(part, minlength=k)
    r = np.sqrt(((c - centers[part]) ** 2).sum(1))
    ctx.check((r <= np.sqrt(sizes[part]) + 1e-9).all(), f'vertices at distances {r} of the center of their community (radius {np.sqrt(sizes[part])})', key='disc')


def run_families(case, ctx):
    """Families that know their communities, also when some are empty."""
    from pygsp import graphs
    for seed in range(6):
        for Nc, sizes in ((2, None), (3, [5, 1, 6]), (4, [3, 3, 3, 3]), (1, None)):
            G = graphs.Community(12, Nc=Nc, comm_sizes=sizes, seed=seed)
            old = np.array(G.coords)
            G.set_coordinates('community2D', seed=seed + 100)
            ctx.op()
            ctx.prefix = f'Community {Nc} {sizes} seed {seed}: '
            check_communities(np.asarray(G.coords), np.asarray(G.info['node_com']), G.info['world_rad'], ctx)
            check_communities(old, np.asarray(G.info['node_com']), G.info['world_rad'], ctx)
            ctx.state(seed, Nc, G.coords)
    ctx.trace()
    # labels that are not all used (an empty block)
    for part in ([0, 0, 2], [1, 1], [0, 2, 2, 3], [2, 0]):
        G = graphs.Graph(gen.path(len(part)))
        G.info = dict(node_com=np.array(part))
        ctx.prefix = f'labels {part}: '
        ctx.op()
        G.set_coordinates('community2D', seed=1)
        check_communities(np.asarray(G.coords), part, np.sqrt(len(part)), ctx)
    for info in (None, {}, dict(other=1)):
        G = graphs.Graph(gen.path(3))
        if info is not None:
            G.info = info
        ctx.raises(lambda: G.set_coordinates('community2D'), 'community layout without communities accepted', AttributeError, key='no-communities')


def step(A, p, k, fixed, iterations):
    """Fruchterman and Reingold's forces with a linear cooling from 0.1."""
    p = p.copy()
    n = len(p)
    for it in range(iterations):
        t = .1 * (1 - it / (iterations + 1))
        move = np.zeros_like(p)
        for i in range(n):
            if i in fixed:
                continue
            for j in range(n):
                v = p[i] - p[j]
                d = max(np.sqrt((v ** 2).sum()), .01)
                move[i] += v * (k * k / d ** 2 - (d / k if A[i, j] else 0))
        for i in range(n):
            l = np.sqrt((move[i] ** 2).sum())
            p[i] += move[i] * t / (l if l >= .01 else .1)
    return p


def fast_step(A, p, k, fixed, iterations):
    p = p.copy()
    free = np.setdiff1d(np.arange(len(p)), list(fixed))
    for it in range(iterations):
        t = .1 * (1 - it / (iterations + 1))
        v = p[free, None, :] - p[None, :, :]
        d = np.maximum(np.sqrt((v ** 2).sum(2)), .01)
        move = (v * (k * k / d ** 2 - A[free] * d / k)[:, :, None]).sum(1)
        l = np.sqrt((move ** 2).sum(1))
        p[free] += move * (t / np.where(l >= .01, l, .1))[:, None]
    return p


def run_forces(case, ctx):
    """Larger graphs: the same iteration, with and without fixed vertices, relabelled."""
    from pygsp import graphs
    W = ref.arr(gen.large(case['name']) if case.get('name') else case['W'])
    n = len(W)
    A = (W > 0) * 1.
    i = np.arange(n)
    for dim in (2, 3):
        pos = np.stack([np.sqrt(n) * ((.5 + (i + 1) * a) % 1) + b for a, b in ((.7548776662, 1), (.5698402910, -2), (.4142135624, .3))[:dim]], axis=1)
        for fixed in ((), (0,), (n - 1,), tuple(range(0, n, 3)), tuple(range(1, n)), tuple(range(n))):
            for it in (1, 2) if n > 60 else (0, 1, 4):
                ctx.prefix = f'{case.get("name", n)} vertices dim={dim} {len(fixed)} fixed ({fixed[:2]}) iterations={it} '
                ctx.op()
                scale = np.abs(pos).max()
                want = fast_step(A, pos, (scale if fixed else 1) / np.sqrt(n), fixed, it)
                if not fixed:
                    want = want - want.mean(0)
                    want = want / (np.abs(want).max() or 1)
                for f in (list(fixed), fixed) if n < 9 else (list(fixed),):
                    x = layout(graphs.Graph(W.copy()), 'spring', pos=pos.copy(), dim=dim, fixed=f, iterations=it, seed=1)
                    ctx.close(x, want, 'positions', tol=1e-6, scale=scale, key='forces')
                p = np.argsort((i * 7919 + 3) % 104729 % (n + 13), kind='stable')
                inv = np.argsort(p)
                y = layout(graphs.Graph(W[np.ix_(p, p)].copy()), 'spring', pos=pos[p], dim=dim, fixed=[int(inv[v]) for v in fixed], iterations=it, seed=1)
                ctx.close(y, want[p], 'positions of the relabelled graph', tol=1e-6, scale=scale, key='relabel')
                ctx.state(x)
        # random initial positions, drawn from the seed
        for it in (0, 1, 2):
            ctx.op()
            a = layout(graphs.Graph(np.zeros((n, n))), 'random2D' if dim == 2 else 'random3D', seed=5)
            want = fast_step(A, a, 1 / np.sqrt(n), (), it)
            want = want - want.mean(0)
            want /= np.abs(want).max() or 1
            x = layout(graphs.Graph(W.copy()), 'spring', dim=dim, iterations=it, seed=5)
            ctx.close(x, want, f'seeded spring layout in dimension {dim}, {it} iterations', tol=1e-6, key='seeded')
    ctx.trace()


def run_spring(case, ctx):
    from pygsp import graphs
    W = ref.arr(case['W'])
    n = len(W)
    pts = list(itertools.product(case['lattice'], repeat=2))
    for c, pos in enumerate(itertools.permutations(pts, n)):
        if n == 3 and c % 3:
            continue
        pos = np.array(pos)
        for fixed in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
            for it in (1, 3) if c % 4 else (0, 1, 3, 25):
                ctx.prefix = f'W={case["W"]} pos={pos.tolist()} fixed={fixed} iterations={it} '
                ctx.op()
                given = pos.copy()
                k = 1 / np.sqrt(n)
                x = layout(graphs.Graph(W.copy()), 'spring', pos=given, fixed=list(fixed), iterations=it, seed=1, k=k)
                ctx.close(given, pos, 'given positions', tol=0, key='argument')
                y = layout(graphs.Graph(W.copy()), 'spring', pos=pos, fixed=list(fixed), iterations=it, seed=1)
                if not ctx.check(x.shape == y.shape == (n, 2) and np.isfinite(x).all() and np.isfinite(y).all(), 'coordinates are not finite', key='spring-finite'):
                    continue
                if fixed:
                    for z in (x, y):
                        ctx.close(z[list(fixed)], pos[list(fixed)], 'fixed vertices moved', tol=0, key='fixed')
                else:
                    ctx.check(np.abs(x).max() <= 1 + 1e-9 and np.abs(x.mean(0)).max() < 1e-9, f'layout out of the box {np.abs(x).max()}', key='spring-box')
                if it <= 3:
                    want = step(W > 0, pos, k, fixed, it)
                    if not fixed:
                        want = want - want.mean(0)
                        m = np.abs(want).max()
                        want = want / m if m else want
                    ctx.close(x, want, 'positions', tol=1e-6, key='forces')
                ctx.state(x)
        ctx.trace()
    # an edge settles at the distance asked for
    if n == 2:
        for k in (.3, .7, 1.2):
            for a in pts:
                x = layout(graphs.Graph(W.copy()), 'spring', pos=[[.1, .2], np.add(a, .05)], fixed=[0], iterations=200, k=k)
                d = np.sqrt(((x[0] - x[1]) ** 2).sum())
                ctx.op()
                if W.any():
                    ctx.check(abs(d - k) < .01, f'k={k} from {a}: the edge has length {d}', key='edge-length')
                else:
                    ctx.check(d > k, f'k={k} from {a}: vertices without an edge end at distance {d}', key='repulsion')


def run_relabel(case, ctx):
    """The layout does not depend on the names of the vertices, follows translations, and takes any dimension, scale and center."""
    from pygsp import graphs
    W = ref.arr(case['W'])
    n = len(W)
    for dim in (1, 2, 3):
        pos = np.array([[np.cos(1.7 * i + d) + .1 * d for d in range(dim)] for i in range(n)])
        base = layout(graphs.Graph(W.copy()), 'spring', pos=pos, dim=dim, iterations=6)
        ctx.check(base.shape == (n, dim), f'dim={dim}: shape {base.shape}', key='dim')
        for p in itertools.permutations(range(n)) if n <= 4 else [np.roll(np.arange(n), 2), np.arange(n)[::-1]]:
            p = list(p)
            got = layout(graphs.Graph(W[np.ix_(p, p)].copy()), 'spring', pos=pos[p], dim=dim, iterations=6)
            ctx.op()
            ctx.close(got, base[p], f'dim={dim} relabelled by {p}', tol=1e-5, key='relabel')
        got = layout(graphs.Graph(W.copy()), 'spring', pos=pos + 3, dim=dim, iterations=6)
        ctx.close(got, base, f'dim={dim} translated', tol=1e-5, key='translate')
        for scale, c in itertools.product((.5, 1., 20.), (None, 2., -1.)):
            center = None if c is None else np.full((1, dim), c)
            got = layout(graphs.Graph(W.copy()), 'spring', dim=dim, iterations=6, scale=scale, center=center, seed=4)
            ref_ = layout(graphs.Graph(W.copy()), 'spring', dim=dim, iterations=6, seed=4)
            ctx.op(2)
            ctx.close(got, ref_ * scale + (0 if c is None else c), f'dim={dim} scale={scale} center={c}', tol=1e-9, scale=scale + 3, key='scale-center')
            ctx.check(np.abs(got - (0 if c is None else c)).max() <= scale * (1 + 1e-9), f'scale={scale}: coordinates out of the box', key='spring-box')
        ctx.state(dim, base)
        ctx.trace()


def run_custom(case, ctx):
    from pygsp import graphs
    n = case['n']
    shapes = {(n,): True, (n, 1): True, (n, 2): True, (n, 3): True, (n, 4): False, (n, 0): False, (n + 1,): False, (n + 1, 2): False, (n + 1, 3): False, (n - 1, 2): False,
              (n, 2, 2): False, (n, 5): False, (): False, (0,): False, (n + 2,): False, (n + 3, 3): False, (n - 1,): False, (n, 3, 3): False}
    for shape, ok in shapes.items():
        if shape == () and n == 1 or shape == (n - 1, 2) and n == 2:
            ok = None      # one number for one vertex, a row of two for two
        for dt in (float, int, np.float32):
            c = (np.arange(int(np.prod(shape))).reshape(shape) * 3 % 7 + 1).astype(dt)
            for how in ('array', 'list', 'tuple'):
                if how != 'array' and c.ndim == 0:
                    continue
                arg = c if how == 'array' else c.tolist() if how == 'list' else tuple(c.tolist())
                G = graphs.Graph(gen.path(n))
                G.set_coordinates('line2D')
                old = np.array(G.coords)
                ctx.op()
                ctx.trace()
                ctx.prefix = f'{n} vertices, {how} of shape {shape} '
                if ok is None:
                    try:
                        G.set_coordinates(arg)
                    except ValueError:
                        pass
                    else:
                        ctx.check(len(G.coords) == n and np.size(G.coords) == n, f'coordinates of shape {np.shape(G.coords)}', key='custom-shape')
                elif ok:
                    try:
                        G.set_coordinates(arg)
                    except Exception as e:
                        ctx.check(False, f'rejected: {type(e).__name__}: {e}', key='custom-rejected')
                        continue
                    want = np.asarray(c, dtype=float)
                    want = want[:, 0] if shape == (n, 1) else want
                    ctx.close(np.asarray(G.coords, dtype=float), want, 'coordinates', tol=0, key='custom-values')
                    ctx.close(c, (np.arange(int(np.prod(shape))).reshape(shape) * 3 % 7 + 1), 'argument', tol=0, key='argument')
                else:
                    ctx.raises(lambda: G.set_coordinates(arg), 'accepted', ValueError, key='custom-accepted')
                    ctx.close(G.coords, old, 'a rejected call changed the coordinates', tol=0, key='custom-atomic')
                ctx.state(n, shape, how)


def run_sequence(case, ctx):
    """Every layout gives the same coordinates whatever was called before."""
    from pygsp import graphs
    W = gen.weighted(gen.grid(2, 3))
    fresh = {}
    for kind in KINDS:
        fresh[kind] = layout(graphs.Graph(W), kind, seed=3)
    for seq in itertools.product(KINDS, repeat=case['depth'] - 1):
        G = graphs.Graph(W)
        before = snapshot(G)
        for kind in (case['first'],) + seq:
            c = layout(G, kind, seed=3)
            ctx.op()
            w = fresh[kind]
            ctx.prefix = f'{case["first"]} {seq}: '
            if kind.startswith('lap'):
                c, w = np.abs(c), np.abs(w)
            ctx.close(c, w, f'{kind} depends on what was called before', tol=1e-5, key='history')
        after = snapshot(G)
        for k in ('W', 'L', 'd', 'dw', 'N', 'Ne'):
            ctx.close(np.asarray(after[k], dtype=float), np.asarray(before[k], dtype=float), k, tol=1e-9, key='changed')
        ctx.trace()
        ctx.state(seq)


def run_unknown(case, ctx):
    from pygsp import graphs
    G = graphs.Graph(gen.path(4))
    before = snapshot(G)
    for kind in ('', 'circle', 'random', 'random4D', 'SPRING', 'ring', 'line3D', 'laplacian_eigenmap', 'community3D'):
        ctx.op()
        ctx.raises(lambda: G.set_coordinates(kind), f'layout {kind!r} accepted', ValueError, key='unknown')
        same(before, snapshot(G), ctx, f'unknown layout {kind!r}')
        ctx.state(kind)
    ctx.trace()
