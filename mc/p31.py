"""P31: a graph obtained from other graphs is a graph like any other."""
import copy
import io  # noqa: F401
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import gen, obs, ref
from .core import Skip, fingerprint

BOUNDS = dict(
    quick='14 graphs x all sequences of <=2 of 30 operations (19 that make a graph out of another, 12 that change the state of a graph), and of 3 on two of them (one in three): complete observation of the final graph against its weights, its signals, '
          'coordinates and options, and of every graph on the way',
    thorough='all sequences of 3 on 14 graphs, every third one of 4 on two graphs')
CHUNK = 1
ASSUMPTIONS = ['every graph on the way has an edge between two vertices', 'coordinates and options are kept where the operation documents or has always kept them']


class Model:
    """What a user knows about a graph."""

    def __init__(self, W, lt='combinatorial', coords=None, signals=None, vsize=None):
        self.W, self.lt, self.coords, self.signals, self.vsize = W, lt, coords, dict(signals or {}), vsize

    def but(self, **kw):
        m = Model(self.W, self.lt, self.coords, self.signals, self.vsize)
        for k, v in kw.items():
            setattr(m, k, v)
        return m


def pick(m, ix):
    return m.but(W=m.W[np.ix_(ix, ix)], coords=None if m.coords is None else m.coords[ix], signals={k: v[ix] for k, v in m.signals.items()})


def schur(W, ix):
    L = ref.laplacian(W)
    r = np.setdiff1d(np.arange(len(W)), ix)
    K = L[np.ix_(ix, ix)] - L[np.ix_(ix, r)] @ np.linalg.solve(L[np.ix_(r, r)], L[np.ix_(r, ix)])
    V = np.diag(np.diag(K)) - K
    return np.where(abs(V) < 1e-12 * abs(L).max(), 0, V)


def undirected(m):
    return not ref.is_directed(m.W)


def clean(m):
    return undirected(m) and m.lt == 'combinatorial'


def connected(m):
    return len(ref.components(m.W)) == 1


def flat(m):
    return all(v.ndim == 1 for v in m.signals.values())


def kept(m):
    n = len(m.W)
    ix = list(range(0, n, 2))
    return ix if all(set(c) & set(ix) for c in ref.components(m.W)) and len(ix) > 1 else None


def temp(f):
    d = tempfile.mkdtemp(prefix='vp-p31-')
    try:
        return f(os.path.join(d, 'graph'))
    finally:
        shutil.rmtree(d)


def operations():
    """name -> (makes a new graph?, possible?, operation, model of its result)."""
    from pygsp import filters, graphs, reduction, utils
    o = {}

    def op(name, new, able, f, model):
        o[name] = (new, able, f, model)
    n_ = lambda m: len(m.W)  # noqa: E731
    bare = lambda m: m.but(lt='combinatorial', coords=None, vsize=None)  # noqa: E731
    stack = lambda m: bare(m)  # noqa: E731
    op('drop', 1, lambda m: n_(m) > 2, lambda G: G.subgraph(list(range(1, G.N))), lambda m: pick(m, list(range(1, n_(m)))))
    op('reverse', 1, lambda m: True, lambda G: G.subgraph(np.arange(G.N)[::-1]), lambda m: pick(m, list(range(n_(m)))[::-1]))
    op('mask', 1, lambda m: n_(m) > 3, lambda G: G.subgraph(np.arange(G.N) % 4 != 2), lambda m: pick(m, [i for i in range(n_(m)) if i % 4 != 2]))
    op('component', 1, undirected, lambda G: max(G.extract_components(), key=lambda H: H.N), lambda m: pick(m, max(ref.components(m.W), key=len)))
    op('networkx', 1, flat, lambda G: graphs.Graph.from_networkx(G.to_networkx()), bare)
    op('graphtool', 1, flat, lambda G: graphs.Graph.from_graphtool(G.to_graphtool()), bare)

    def saved(fmt, backend):
        def f(path):
            G.save(path, fmt, backend)
            return graphs.Graph.load(path, fmt, backend)
        return lambda G_: temp(lambda path: (G_.save(path, fmt, backend), graphs.Graph.load(path, fmt, backend))[1])
    op('graphml', 1, flat, saved('graphml', 'networkx'), bare)
    op('gexf', 1, flat, saved('gexf', 'networkx'), bare)
    op('graphml-gt', 1, flat, saved('graphml', 'graph-tool'), bare)
    op('copy', 1, lambda m: True, copy.deepcopy, lambda m: m)
    op('pickle', 1, lambda m: True, lambda G: pickle.loads(pickle.dumps(G)), lambda m: m)
    op('kron', 1, lambda m: clean(m) and kept(m) is not None, lambda G: reduction.kron_reduction(G, kept(Model(G.W.toarray()))), lambda m: pick(m, kept(m)).but(W=schur(m.W, kept(m)), signals={}))
    op('line', 1, lambda m: np.count_nonzero(m.W) < 26, lambda G: graphs.LineGraph(G), line)
    op('symmetric', 1, lambda m: True, lambda G: graphs.Graph(utils.symmetrize(G.W, 'maximum'), G.lap_type), lambda m: bare(m).but(W=np.maximum(m.W, m.W.T), lt=m.lt, signals={}))
    op('again', 1, lambda m: True, lambda G: graphs.Graph(G.W, G.lap_type, copy.deepcopy(getattr(G, 'coords', None)), G.plotting), lambda m: m.but(signals={}))
    op('binary', 1, lambda m: True, lambda G: graphs.Graph(G.A), lambda m: bare(m).but(W=(m.W != 0) * 1., signals={}))
    op('transposed', 1, lambda m: True, lambda G: graphs.Graph(G.W.T, G.lap_type), lambda m: bare(m).but(W=m.W.T.copy(), lt=m.lt, signals={}))
    op('level', 1, lambda m: clean(m) and connected(m) and n_(m) > 3, lambda G: reduction.graph_multiresolution(G, 1, sparsify=False, compute_full_eigen=True)[1], 'level')
    op('sparse', 1, lambda m: clean(m) and connected(m) and n_(m) > 4, lambda G: reduction.graph_sparsify(G, .7, seed=3), 'sparse')
    # changes of state
    op('normalized', 0, lambda m: True, lambda G: G.compute_laplacian('normalized'), lambda m: m.but(lt='normalized'))
    op('combinatorial', 0, lambda m: True, lambda G: G.compute_laplacian('combinatorial'), lambda m: m.but(lt='combinatorial'))
    op('basis', 0, lambda m: True, lambda G: G.compute_fourier_basis(), lambda m: m)
    op('lmax', 0, lambda m: True, lambda G: G.estimate_lmax(), lambda m: m)
    op('bounds', 0, lambda m: True, lambda G: G.estimate_lmax('bounds'), lambda m: m)
    op('reads', 0, lambda m: True, lambda G: (G.D, G.d, G.dw, G.A, G.is_connected(), G.is_directed()), lambda m: m)
    op('signal', 0, lambda m: True, lambda G: G.set_signal(np.sin(np.arange(G.N) * 1.3), 'sine'), lambda m: m.but(signals=dict(m.signals, sine=np.sin(np.arange(n_(m)) * 1.3))))
    op('signals', 0, lambda m: True, lambda G: G.set_signal(np.arange(3. * G.N).reshape(-1, 3), 'several'), lambda m: m.but(signals=dict(m.signals, several=np.arange(3. * n_(m)).reshape(-1, 3))))
    op('layout', 0, lambda m: True, lambda G: G.set_coordinates('ring2D'), lambda m: m.but(coords=np.stack([np.cos(np.arange(n_(m)) * 2 * np.pi / n_(m)), np.sin(np.arange(n_(m)) * 2 * np.pi / n_(m))], 1)))
    op('filter', 0, lambda m: True, lambda G: filters.Heat(G, 3).filter(np.ones(G.N)), lambda m: m)
    op('edit', 0, lambda m: True, edit, lambda m: m.but(coords=None if m.coords is None else m.coords * 2 + 1, signals={k: v * 2 + 1 for k, v in m.signals.items()}))
    op('options', 0, lambda m: True, lambda G: G.plotting.update(vertex_size=61), lambda m: m.but(vsize=61))
    return o


def edit(G):
    """A user changes the numbers of one graph in place."""
    for v in list(G.signals.values()) + ([G.coords] if getattr(G, 'coords', None) is not None else []):
        v *= 2
        v += 1


def line(m):
    E = ref.edges(m.W)
    W = np.array([[1. if i != j and {E[i][0], E[i][1]} & {E[j][0], E[j][1]} else 0. for j in range(len(E))] for i in range(len(E))]).reshape(len(E), len(E))
    return Model(W, 'combinatorial', None if m.coords is None else np.array([(m.coords[a] + m.coords[b]) / 2 for a, b, _ in E]), {}, m.vsize)


def starts():
    g = [gen.path(3), gen.weighted(gen.ring(5)), gen.blocks(gen.weighted(gen.path(3)), gen.full(3, 2.5)), gen.star(5), gen.weighted(gen.grid(2, 3)), gen.weighted(gen.full(5)),
         [[1.5, 1, 0, 0], [1, 0, 2, 0], [0, 2, .5, 1], [0, 0, 1, 0]], [[0, 1, 0, 0], [0, 0, 2.5, 0], [1, 0, 0, 1], [0, 0, 0, 0]], [[0, 1, 0], [1, 0, 3], [0, 0, 0]], gen.blocks(gen.ring(4), [[0]]), gen.weighted(gen.ring(8)), gen.path(7), gen.full(4, .25), [[.5, 1, 0, 0, 2], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0], [1, 0, 0, 0, 1], [0, 1, 0, 0, 0]]]
    return g


NAMES = ['drop', 'reverse', 'mask', 'component', 'networkx', 'graphtool', 'graphml', 'gexf', 'graphml-gt', 'copy', 'pickle', 'kron', 'line', 'symmetric', 'again', 'binary', 'transposed', 'level', 'sparse',
         'normalized', 'combinatorial', 'basis', 'lmax', 'bounds', 'reads', 'signal', 'signals', 'layout', 'filter', 'edit', 'options']


def cases(tier):
    t = tier == 'thorough'
    S = starts()
    for k in range(len(S)):
        for first in NAMES:
            yield dict(W=S[k], first=first, depth=3 if t else 2, step=1, id=f'{k}-{first}')
    for k in (2, 4):
        for first in NAMES:
            yield dict(W=S[k], first=first, depth=4 if t else 3, step=3, id=f'deep-{k}-{first}')


def state(G):
    """What no operation on another graph may change: all but what is computed when first read."""
    return {k: fingerprint(v) for k, v in vars(G).items() if k not in ('logger', 'mr') and v is not None}


def same(G, before):
    now = state(G)
    return all(now.get(k) == v for k, v in before.items()) and not set(now) - set(before) & {'signals', 'coords', 'plotting'}


def compare(G, m, ctx):
    """Everything a user can read in G is what the model says."""
    n = len(m.W)
    if not ctx.check(G.N == n, f'{G.N} vertices instead of {n}', key='size'):
        return False
    coords = getattr(G, 'coords', None)
    if m.coords is not None:
        ctx.check(coords is not None, 'coordinates are lost', key='coords')
    if m.coords is not None and coords is not None:
        ctx.close(np.asarray(coords, dtype=float), m.coords, 'coordinates', tol=1e-12, key='coords')
    if m.vsize is not None:
        ctx.check(G.plotting.get('vertex_size') == m.vsize, f'plotting options {G.plotting}', key='plotting')
    ctx.check(sorted(G.signals) == sorted(m.signals), f'signals {sorted(G.signals)} instead of {sorted(m.signals)}', key='signals')
    for k in m.signals:
        if k in G.signals:
            ctx.close(np.asarray(G.signals[k]), m.signals[k], f'signal {k}', tol=0, key='signals')
    obs.observe(G, m.W, m.lt, ctx)
    return True


def usable(m):
    W = m.W - np.diag(np.diag(m.W))
    return len(W) > 1 and W.any()


def run(case, ctx):
    from pygsp import graphs
    ops = operations()
    W = ref.arr(case['W'])
    n = len(W)
    count = -1
    for d in range(case['depth']):
        if case['id'].startswith('deep') and d < case['depth'] - 1:
            continue
        for rest in itertools.product(NAMES, repeat=d):
            count += 1
            if case['step'] > 1 and count % case['step']:
                continue
            h = (case['first'],) + rest
            # only sequences that make a graph, and that do not end with a change of a graph never derived
            if not any(ops[o][0] for o in h):
                continue
            m = Model(W, 'combinatorial', np.stack([np.arange(n) * 1., np.arange(n) ** 2 * .5], 1), dict(s=np.arange(n) * 1.5 - 1), 43)
            ctx.prefix = f'{case["W"]} {"+".join(h)}: '
            G = graphs.Graph(W, coords=m.coords.copy(), plotting=dict(vertex_size=43))
            G.set_signal(m.signals['s'].copy(), 's')
            chain = []
            ok = True
            for o in h:
                new, able, f, model = ops[o]
                if not able(m):
                    ok = False
                    break
                if new:
                    before = state(G) if o != 'level' else None
                ctx.op()
                H = f(G)
                if isinstance(model, str):
                    m2 = derived(model, G, H, m, ctx)
                else:
                    m2 = model(m)
                if not usable(m2):
                    ok = False
                    break
                if new:
                    ctx.check(before is None or same(G, before), f'{o} changed the graph it was given', key='parent')
                    chain.append((G, m, state(G)))
                    G = H
                    if m2.vsize is None:
                        m2 = m2.but(vsize=None)
                m = m2
                if new and (o in ('kron', 'level')):
                    # numbers computed by the reduction are the new weights, to the last digit
                    ctx.close(G.W, m.W, f'{o}: weights', tol=1e-9, key='reduced')
                    m = m.but(W=G.W.toarray())
                    if not np.array_equal(m.W, m.W.T):
                        ctx.check(False, f'{o}: directed', key='reduced')
                        ok = False
                        break
                if m.coords is None and getattr(G, 'coords', None) is not None:
                    m = m.but(coords=np.array(G.coords, dtype=float))
            if not ok:
                continue
            ctx.state(case['W'], h)
            ctx.trace()
            compare(G, m, ctx)
            for K, mk, s in chain:
                ctx.check(same(K, s), f'a later operation changed the graph {K!r} it comes from', key='ancestor')
            if chain and d:
                ctx.prefix += 'origin: '
                compare(chain[0][0], chain[0][1], ctx)


def derived(kind, G, H, m, ctx):
    if kind == 'sparse':
        V = H.W.toarray()
        ctx.check(V.shape == m.W.shape and not (V[m.W == 0] > 0).any() and (V >= 0).all(), 'sparsified graph with other edges', key='sparse')
        return Model(V)
    ix = np.asarray(H.mr['idx'])
    return pick(m, ix).but(W=schur(m.W, ix), signals={})
