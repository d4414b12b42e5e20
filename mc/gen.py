"""Exhaustive generators of small graphs (weight matrices as nested lists)."""
import itertools
from functools import lru_cache


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def undirected(n, weights=(0, 1), loops=None):
    """All labelled symmetric matrices with off-diagonal entries in `weights`
    (and diagonal entries in `loops`)."""
    ps = pairs(n)
    for vals in itertools.product(weights, repeat=len(ps)):
        for diag in (itertools.product(loops, repeat=n) if loops else [(0,) * n]):
            W = [[0] * n for _ in range(n)]
            for (i, j), v in zip(ps, vals):
                W[i][j] = W[j][i] = v
            for i, v in enumerate(diag):
                W[i][i] = v
            yield W


def directed(n, weights=(0, 1), loops=None):
    ps = [(i, j) for i in range(n) for j in range(n) if i != j]
    for vals in itertools.product(weights, repeat=len(ps)):
        for diag in (itertools.product(loops, repeat=n) if loops else [(0,) * n]):
            W = [[0] * n for _ in range(n)]
            for (i, j), v in zip(ps, vals):
                W[i][j] = v
            for i, v in enumerate(diag):
                W[i][i] = v
            yield W


def canon(W):
    n = len(W)
    best = None
    for p in itertools.permutations(range(n)):
        t = tuple(W[p[i]][p[j]] for i in range(n) for j in range(n))
        if best is None or t > best:
            best = t
    return best


@lru_cache(None)
def iso_classes(n, weights=(0, 1), loops=None, kind='undirected'):
    """One representative per isomorphism class (the canonical labelling)."""
    seen = {}
    g = undirected if kind == 'undirected' else directed
    if kind == 'undirected' and not loops and len(weights) ** (n * (n - 1) // 2) > 5000:
        return _iso_fast(n, weights)
    for W in g(n, weights, loops):
        c = canon(W)
        if c not in seen:
            seen[c] = [list(c[i * n:(i + 1) * n]) for i in range(n)]
    return list(seen.values())


def _iso_fast(n, weights):
    """Grow classes vertex by vertex: every graph on n vertices is a graph on
    n-1 vertices plus one vertex, so extending each class in all ways and
    canonicalising covers every class."""
    seen = {}
    for B in iso_classes(n - 1, weights):
        for vals in itertools.product(weights, repeat=n - 1):
            W = [row[:] + [v] for row, v in zip(B, vals)] + [list(vals) + [0]]
            c = canon(W)
            if c not in seen:
                seen[c] = [list(c[i * n:(i + 1) * n]) for i in range(n)]
    return list(seen.values())


def connected(W):
    n = len(W)
    seen, st = {0}, [0]
    while st:
        v = st.pop()
        for u in range(n):
            if (W[v][u] or W[u][v]) and u not in seen:
                seen.add(u)
                st.append(u)
    return len(seen) == n


def has_edge(W):
    n = len(W)
    return any(W[i][j] for i in range(n) for j in range(n) if i != j)


def is_sym(W):
    n = len(W)
    return all(W[i][j] == W[j][i] for i in range(n) for j in range(i))


def relabel(W, p):
    n = len(W)
    return [[W[p[i]][p[j]] for j in range(n)] for i in range(n)]


# named larger graphs (beyond the enumerable sizes), by construction formulas of our own
def path(n, w=1):
    return [[w if abs(i - j) == 1 else 0 for j in range(n)] for i in range(n)]


def ring(n, w=1):
    return [[w if (i - j) % n in (1, n - 1) and i != j else 0 for j in range(n)] for i in range(n)]


def star(n):
    return [[1 if (i == 0) != (j == 0) else 0 for j in range(n)] for i in range(n)]


def full(n, w=1):
    return [[w if i != j else 0 for j in range(n)] for i in range(n)]


def grid(a, b):
    n = a * b
    W = [[0] * n for _ in range(n)]
    for i in range(a):
        for j in range(b):
            for (x, y) in ((i + 1, j), (i, j + 1)):
                if x < a and y < b:
                    W[i * b + j][x * b + y] = W[x * b + y][i * b + j] = 1
    return W


def scaled(W, f):
    return [[float(v) * f for v in r] for r in W]


def weighted(W):
    """Deterministic distinct irrational-looking weights on the edges of W."""
    n = len(W)
    k = 0
    V = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if W[i][j]:
                k += 1
                V[i][j] = V[j][i] = round(0.35 + ((k * 0.6180339887) % 1) * 2, 6)
    return V


def blocks(*Ws):
    n = sum(len(W) for W in Ws)
    M = [[0] * n for _ in range(n)]
    o = 0
    for W in Ws:
        for i, r in enumerate(W):
            for j, v in enumerate(r):
                M[o + i][o + j] = v
        o += len(W)
    return M


def medium():
    """Named graphs with 8..24 vertices used on top of the exhaustive small ones."""
    yield 'path12', path(12)
    yield 'ring11', ring(11)
    yield 'star9', star(9)
    yield 'full8', full(8)
    yield 'grid4x5', grid(4, 5)
    yield 'wgrid3x4', weighted(grid(3, 4))
    yield 'wfull9', weighted(full(9))
    yield 'two-comp', blocks(ring(5), path(6))
    yield 'iso+ring', blocks(ring(7), [[0]], path(3))
    yield 'six-tri', blocks(*[full(3)] * 6)
    yield 'wblocks', blocks(weighted(full(5)), weighted(ring(6)), weighted(path(4)))


def large(name):
    """Structured graphs beyond the sizes at which implementations switch algorithms."""
    import numpy as np

    def quasi(n, k, directed=False, loops=False):
        # deterministic, irregular and connected; weights in (0.1, 3)
        W = np.zeros((n, n))
        for i in range(1, n):
            W[i, (i * i + 3 * i) % i] = 0.1 + (7 * i % 29) / 10
        for t in range(k * n):
            i, j = (t * t + 5 * t) % n, (7 * t + t // 3) % n
            if i != j:
                W[i, j] = 0.1 + (11 * t % 23) / 8
        if not directed:
            W = np.maximum(W, W.T)
        if loops:
            W[np.arange(0, n, 5), np.arange(0, n, 5)] = 1.5
        return W
    def distinct(n):
        # a hub, chords and a cycle, with weights that repeat no eigenvalue
        W = np.zeros((n, n))
        for i in range(1, n):
            W[0, i] = W[i, 0] = 0.1 + 3 * i / n
            W[i - 1, i] = W[i, i - 1] = 0.2 + (37 * i % 101) / 50
        return W
    f = dict(path130=lambda: path(130), ring65=lambda: ring(65), star70=lambda: star(70), grid11x13=lambda: weighted(grid(11, 13)), full40=lambda: full(40, 2.5),
             many=lambda: blocks(*([full(2)] * 40 + [[[0]]] * 15 + [weighted(path(4))] * 8)), quasi90=lambda: quasi(90, 1), quasi260=lambda: quasi(260, 2),
             dir60=lambda: quasi(60, 1, True), dirloops110=lambda: quasi(110, 1, True, True), loops75=lambda: quasi(75, 1, False, True), dense120=lambda: quasi(120, 40), quasi1100=lambda: quasi(1100, 1), distinct1100=lambda: distinct(1100), distinct520=lambda: distinct(520), dirloops1100=lambda: quasi(1100, 1, True, True),
             dirdense48=lambda: np.array([[(.5 + (3 * i + 5 * j) % 7) * (i > j or (i + 2 * j) % 5 == 0) * (i != j) for j in range(48)] for i in range(48)]))
    return np.asarray(f[name](), dtype=float)


LARGE = ['path130', 'ring65', 'star70', 'grid11x13', 'full40', 'many', 'quasi90', 'quasi260', 'dir60', 'dirloops110', 'loops75', 'dense120', 'dirdense48']
HUGE = ['quasi1100', 'dirloops1100']
LARGE_U = [n for n in LARGE if not n.startswith('dir')]
