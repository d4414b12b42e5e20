"""P16: subgraphs and connected components keep exactly the selected part of the graph."""
import itertools

import numpy as np

from . import gen, obs, ref

BOUNDS = dict(
    quick='classes N<=3 {0,1,2.5} x loops, a third of the directed classes N=3, 0/1 classes N=4, 10 directed classes N=4: every ordered selection of '
          'distinct vertices and every boolean indicator; components of all labelled N=4 {0,1,2.5}, N=5 {0,1}, classes N=6 and medium graphs; '
          'every selection of a selection of a 4-vertex graph; weights from 1e-100 to 1e12; parents in every state after <=2 operations; large named graphs (see DESIGN.md)',
    thorough='all classes N=3,4 directed and undirected, 0/1 classes N=5, components of all labelled N=6 {0,1}, three nested selections')
CHUNK = 4
ASSUMPTIONS = ['non-negative weights', 'at least one vertex is kept']
OPS = ['compute_laplacian_n', 'compute_fourier_basis', 'compute_differential_operator', 'is_connected', 'estimate_lmax', 'A', 'dw']


def cases(tier):
    g = []
    for n in (1, 2, 3):
        g += gen.iso_classes(n, (0, 1, 2.5), (0, 1.5))
    g += gen.iso_classes(3, (0, 1, 2.5), None, 'directed')[::3] + gen.iso_classes(4, (0, 1)) + gen.iso_classes(4, (0, 1), None, 'directed')[::24]
    g += [gen.weighted(gen.full(4))]
    if tier == 'thorough':
        g += gen.iso_classes(5, (0, 1)) + gen.iso_classes(4, (0, 1, 2.5)) + gen.iso_classes(3, (0, 1, 2.5), None, 'directed') + gen.iso_classes(4, (0, 1), None, 'directed')
    for k in range(0, len(g), 5):
        yield dict(kind='sub', graphs=g[k:k + 5])
    c = list(gen.undirected(4, (0, 1, 2.5))) + list(gen.undirected(5, (0, 1))) + gen.iso_classes(6, (0, 1))
    c += list(gen.undirected(3, (0, 1), (0, 1.5)))
    if tier == 'thorough':
        c += list(gen.undirected(6, (0, 1)))
    light = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1e-13, 1))] + [[[v * f for v in r] for r in W] for W in gen.iso_classes(4, (0, 1, 2.5))[::3] for f in (1e-9, 1e-30, 1e-100, 1e12)]
    light += [gen.scaled(W, f) for _, W in gen.medium() for f in (1e-20, 1e9)]
    for k in range(0, len(light), 40):
        yield dict(kind='comp', graphs=light[k:k + 40], id=f'light-comp-{k}')
    yield dict(kind='sub', graphs=[[[0, 1e-13, 0], [1e-13, 0, 1], [0, 1, 0]], gen.scaled(gen.weighted(gen.full(3)), 1e-30), gen.scaled(gen.weighted(gen.path(3)), 1e12)], id='light-sub')
    for k in range(0, len(c), 100):
        yield dict(kind='comp', graphs=c[k:k + 100])
    for name, W in gen.medium():
        yield dict(kind='comp', graphs=[W, gen.relabel(W, [(5 * i + 2) % len(W) if len(W) % 5 else (7 * i + 3) % len(W) for i in range(len(W))])], id='comp-' + name)
        yield dict(kind='sub', graphs=[W], id='sub-' + name)
    for name in gen.LARGE + gen.HUGE:
        if not name.startswith('dir'):
            yield dict(kind='comp', name=name, id='large-comp-' + name)
        if name not in ('quasi260', 'dense120'):
            yield dict(kind='sub', name=name, id='large-sub-' + name)
    for i in range(len(OPS)):
        yield dict(kind='state', first=i, id=f'state-{i}')
    yield dict(kind='chain', depth=3 if tier == 'thorough' else 2, id='chain')


def position(i, kind):
    i = np.array(i)
    return {False: lambda: None, True: lambda: np.stack([i * 1., i ** 2.], 1), 1: lambda: i * 3., 'line': lambda: i * 3., 3: lambda: np.stack([i * 1., -i * 1., i ** 2.], 1)}[kind]()


def make(W, lt='combinatorial', coords=True, sparse_zero=False):
    from pygsp import graphs
    n = len(W)
    c = position(np.arange(n), coords)
    G = graphs.Graph(W.copy(), lap_type=lt, coords=c, plotting=dict(vertex_size=7, title='t'))
    G.set_signal(np.arange(n) * 10 + 1, 'i')
    G.set_signal(np.stack([np.arange(n) + .5, -np.arange(n) - .5], 1), 'x')
    return G


def check_sub(S, W, idx, lt, coords, ctx, what):
    idx = list(idx)
    from pygsp import graphs
    V = W[np.ix_(idx, idx)]
    ctx.check(isinstance(S, graphs.Graph), f'{what}: {type(S).__name__}')
    ctx.close(S.W, V, f'{what}: weights', tol=0)
    ctx.check(S.N == len(idx) and S.n_vertices == len(idx), f'{what}: N={S.N}')
    ctx.check(S.Ne == len(ref.edges(V)), f'{what}: Ne={S.Ne}')
    ctx.check(S.lap_type == lt, f'{what}: lap_type {S.lap_type}')
    ctx.close(S.L, ref.laplacian(V, lt), f'{what}: Laplacian', tol=1e-12)
    ctx.check(bool(S.is_directed()) == ref.is_directed(V), f'{what}: is_directed')
    if coords:
        ctx.close(getattr(S, 'coords', np.zeros(0)), position(idx, coords), f'{what}: coords', tol=0)
    else:
        ctx.check(not hasattr(S, 'coords') or S.coords is None, f'{what}: coords invented')
    ctx.check(sorted(S.signals) == ['i', 'x'], f'{what}: signals {sorted(S.signals)}')
    ctx.close(S.signals['i'], np.array(idx) * 10 + 1, f'{what}: signal', tol=0)
    ctx.close(S.signals['x'], np.stack([np.array(idx) + .5, -np.array(idx) - .5], 1), f'{what}: signal 2-D', tol=0)
    ctx.check(S.plotting['vertex_size'] == 7 and S.plotting.get('title') == 't', f'{what}: plotting options lost')


def selections(n):
    if n <= 4:
        for k in range(1, n + 1):
            for p in itertools.permutations(range(n), k):
                yield p
    else:
        for k in range(0, n, 1 if n < 30 else n // 6):
            yield (k,)
            yield tuple(range(k, n))
            yield tuple(range(k, -1, -1))
            yield tuple((k + 2 * i) % n for i in range((n + 1) // 2))


def run_sub(W, ctx):
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        for coords in (True, False, 'line', 3) if lt == 'combinatorial' else (True,):
            if coords in ('line', 3) and coords is not True and n > 3 and W.sum() % 2:
                continue
            G = make(W, lt, coords)
            before = G.W.toarray()
            for j, p in enumerate(selections(n)):
                forms = [list(p)] if j % 4 or not coords else [np.array(p)]
                for f in forms:
                    S = ctx.safe(lambda: G.subgraph(f), f'subgraph({f!r})')
                    ctx.op()
                    if S is not None:
                        check_sub(S, W, p, lt, coords, ctx, f'subgraph({p})')
                        ctx.state(S.W, lt)
                if p == tuple(sorted(p)):
                    m = np.zeros(n, bool)
                    m[list(p)] = True
                    for f in (m, m.tolist()):
                        S = ctx.safe(lambda: G.subgraph(f), f'subgraph(indicator {m.astype(int).tolist()})')
                        ctx.op()
                        if S is not None:
                            check_sub(S, W, p, lt, coords, ctx, f'subgraph(indicator {m.astype(int).tolist()})')
                ctx.trace()
            check_sub(G, W, range(n), lt, coords, ctx, 'the graph itself afterwards')
            ctx.close(G.W, before, 'weights of the graph itself', tol=0)
            S = G.subgraph(list(range(n)))
            S.signals['i'][:] = -1
            S.signals['new'] = np.zeros(n)
            if coords:
                S.coords[:] = -1
            S.plotting['vertex_size'] = 99
            S.W.data[:] = 5
            check_sub(G, W, range(n), lt, coords, ctx, 'the graph itself after the subgraph changed')


def run_comp(W, ctx):
    n = len(W)
    want = ref.components(W)
    for lt in ('combinatorial', 'normalized'):
        G = make(W, lt)
        cs = G.extract_components()
        ctx.op()
        ctx.trace()
        if not ctx.check(isinstance(cs, list) and len(cs) == len(want), f'{len(cs)} components, want {len(want)}'):
            continue
        got = [list(map(int, c.info['orig_idx'])) for c in cs]
        ctx.check(sorted(map(sorted, got)) == sorted(want), f'components {got}, want {want}')
        for c, idx in zip(cs, got):
            check_sub(c, W, idx, lt, True, ctx, f'component {idx}')
            ctx.check(bool(c.is_connected()), f'component {idx} is not connected')
        ctx.check((len(cs) == 1) == bool(G.is_connected()), 'one component but not connected, or the converse')
        ctx.check(sum(c.Ne for c in cs) == G.Ne, 'edges lost or invented')
        check_sub(G, W, range(n), lt, True, ctx, 'the graph itself afterwards')
        ctx.state(got, lt)


def act(G, o):
    if o == 'compute_laplacian_n':
        G.compute_laplacian('normalized' if G.lap_type == 'combinatorial' else 'combinatorial')
    elif o in ('A', 'dw'):
        getattr(G, o)
    else:
        getattr(G, o)()


def run_state(first, ctx):
    """Whatever was computed on the parent does not leak into the part."""
    for W in (gen.weighted(gen.path(4)), gen.blocks(gen.weighted(gen.ring(3)), gen.path(2)), [[0, 1, 0], [0, 0, 2.5], [1, 0, 0]]):
        W = ref.arr(W)
        for second in [None] + OPS:
            G = make(W)
            act(G, OPS[first])
            if second:
                act(G, second)
            ctx.op(3)
            ctx.trace()
            ctx.prefix = f'{OPS[first]}, {second}, then '
            parts = [(p, G.subgraph(list(p))) for p in ((0, 1), (2, 0), tuple(range(len(W))))]
            if not ref.is_directed(W):
                parts += [(c.info['orig_idx'], c) for c in G.extract_components()]
            for p, S in parts:
                check_sub(S, W, p, G.lap_type, True, ctx, f'part {list(p)}')
                V = W[np.ix_(list(p), list(p))]
                if V.any():
                    obs.observe(S, V, G.lap_type, ctx, deep=len(p) > 2)
                ctx.state(S)


def run_chain(depth, ctx):
    W = ref.arr(gen.weighted(gen.full(4)))
    W[0, 3] = W[3, 0] = 0

    def rec(G, idx, d):
        if not d:
            return
        n = len(idx)
        for k in range(1, n + 1):
            for p in itertools.permutations(range(n), k):
                S = G.subgraph(list(p))
                sub = [idx[i] for i in p]
                ctx.op()
                ctx.trace()
                check_sub(S, W, sub, 'combinatorial', True, ctx, f'selection of a selection {sub}')
                ctx.state(sub)
                if k > 1:
                    rec(S, sub, d - 1)
    rec(make(W), list(range(4)), depth)


def run(case, ctx):
    if case['kind'] == 'state':
        return run_state(case['first'], ctx)
    if case['kind'] == 'chain':
        return run_chain(case['depth'], ctx)
    for W in [gen.large(case['name'])] if 'name' in case else case['graphs']:
        W = ref.arr(W)
        ctx.prefix = f'W={W.tolist() if len(W) < 8 else len(W)} '
        (run_sub if case['kind'] == 'sub' else run_comp)(W, ctx)
