"""P14: NetworkX / graph-tool exchange keeps the graph, its weights and its signals."""
import itertools

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='all undirected W with N<=3 over {0,1,2.5} x diagonal {0,1.5}, N=4 {0,1}; all directed N<=3 {0,1,2.5} and N=2 with loops; '
          'medium graphs; 6 numeric types; 13 signal sets (1-D, 2..12 columns, names with underscores, bool/int/float, NaN); '
          'external graphs: every multigraph with <=4 edges over 3 vertices (directed and not), every pattern of missing attributes; large named graphs (see DESIGN.md)',
    thorough='quick plus undirected N=4 {0,2.5,1}, directed N=3 with loops, multigraphs with <=5 edges')
CHUNK = 4
B = 20
ASSUMPTIONS = ['signals are numeric, 1-D or 2-D with at least two columns, and their names are not of the form produced when a 2-D signal is broken (x_0, x_1, ...)']


def backends():
    out = ['networkx']
    try:
        import graph_tool  # noqa
        out.append('graph-tool')
    except ImportError:
        pass
    return out


def cases(tier):
    g = []
    for n in (1, 2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5)))
    g += list(gen.undirected(4, (0, 1))) + list(gen.directed(3, (0, 1, 2.5))) + list(gen.directed(2, (0, 1, 2.5), (0, 1.5)))
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + list(gen.directed(3, (0, 1), (0, 1)))
    for b in backends():
        for k in range(0, len(g), B):
            yield dict(kind='round', backend=b, graphs=g[k:k + B])
        for name, W in gen.medium():
            yield dict(kind='round', backend=b, graphs=[W], id=f'{b}-{name}')
        for name in gen.LARGE + gen.HUGE:
            if name != 'dense120':
                yield dict(kind='large', backend=b, name=name, id=f'large-{b}-{name}')
        yield dict(kind='dtypes', backend=b, id='dtypes-' + b)
        yield dict(kind='signals', backend=b, id='signals-' + b)
        for directed in (False, True):
            for first in range(6):
                yield dict(kind='multi', backend=b, directed=directed, first=first, top=5 if tier == 'thorough' else 4,
                           id=f'multi-{b}-{directed}-{first}')
        yield dict(kind='attrs', backend=b, id='attrs-' + b)
        yield dict(kind='lifetime', backend=b, id='lifetime-' + b)


def export(G, b):
    return G.to_networkx() if b == 'networkx' else G.to_graphtool()


def load(H, b, **kw):
    from pygsp import graphs
    return graphs.Graph.from_networkx(H, **kw) if b == 'networkx' else graphs.Graph.from_graphtool(H, **kw)


def view(H, b):
    """(n, directed, sorted edge triples, vertex attributes) of an external graph."""
    if b == 'networkx':
        nodes = list(H.nodes)
        at = {}
        for i, v in enumerate(nodes):
            for k, val in H.nodes[v].items():
                at.setdefault(k, [None] * len(nodes))[i] = val
        pos = {v: i for i, v in enumerate(nodes)}
        ed = [(pos[u], pos[v], d['weight']) for u, v, d in H.edges(data=True)]
        return nodes, H.is_directed(), ed, at
    n = H.num_vertices()
    w = H.edge_properties['weight']
    return list(range(n)), H.is_directed(), [(int(e.source()), int(e.target()), w[e]) for e in H.edges()], \
        {k: [p[v] for v in H.vertices()] for k, p in H.vertex_properties.items()}


def norm(edges, directed):
    return sorted((u, v, float(w)) if directed or u <= v else (v, u, float(w)) for u, v, w in edges)


def check_export(H, b, W, signals, ctx):
    nodes, directed, ed, at = view(H, b)
    ctx.op()
    ctx.check(nodes == list(range(len(W))), f'{b}: vertices {nodes}')
    ctx.check(directed == ref.is_directed(W), f'{b}: directed={directed}')
    ctx.check(norm(ed, directed) == norm(ref.edges(W), directed), lambda: f'{b}: edges {str(ed)[:200]}')
    want = {}
    for k, s in signals.items():
        if s.ndim == 2:
            for i in range(s.shape[1]):
                want[f'{k}_{i}'] = s[:, i]
        else:
            want[k] = s
    ctx.check(sorted(at) == sorted(want), f'{b}: attributes {sorted(at)}, want {sorted(want)}')
    for k in want:
        if k in at:
            ctx.close(np.array([float(v) for v in at[k]]), want[k].astype(float), f'{b}: attribute {k}', tol=0)
            if b == 'networkx':
                kind = int if want[k].dtype.kind in 'iub' else float
                ctx.check(all(type(v) is kind for v in at[k]), f'{b}: attribute {k} of types {[type(v) for v in at[k]]}')


def check_import(G2, W, signals, ctx, what):
    ctx.close(G2.W, W, f'{what}: weights', tol=0)
    ctx.check(bool(G2.is_directed()) == ref.is_directed(W), f'{what}: directedness')
    ctx.check(sorted(G2.signals) == sorted(signals), f'{what}: signals {sorted(G2.signals)}, want {sorted(signals)}')
    for k, s in signals.items():
        if k in G2.signals:
            ctx.close(np.asarray(G2.signals[k]).astype(float), s.astype(float), f'{what}: signal {k}', tol=0)


def round_trip(W, dtype, signals, b, ctx):
    from pygsp import graphs
    n = len(W)
    G = graphs.Graph(W.astype(dtype))
    for k, s in signals.items():
        G.set_signal(s.copy(), k)
    H = export(G, b)
    ctx.op(2)
    ctx.trace()
    check_export(H, b, W, signals, ctx)
    ctx.close(G.W, W, 'exporting changed the weights', tol=0)
    ctx.check(sorted(G.signals) == sorted(signals), f'exporting changed the signals to {sorted(G.signals)}')
    for k, s in signals.items():
        if k in G.signals:
            ctx.close(G.signals[k].astype(float), s.astype(float), 'exporting changed a signal', tol=0)
    G2 = load(H, b)
    check_import(G2, W, signals, ctx, f'{b} round trip')
    H2 = export(G2, b)          # a second trip changes nothing more
    G3 = load(H2, b)
    ctx.op(3)
    check_import(G3, W, signals, ctx, f'{b} second round trip')
    ctx.check(norm(view(H, b)[2], view(H, b)[1]) == norm(view(H2, b)[2], view(H2, b)[1]), 'second export differs')
    ctx.state(G2.W, b, sorted(signals))


def sigs(n):
    c = np.cos(np.arange(n) * 1.3) * 7
    yield {}
    yield dict(a=c)
    yield dict(a=np.arange(n), b=c < 0)
    yield dict(x=np.stack([c, -c], 1))
    yield dict(x=np.arange(3. * n).reshape(n, 3), y=c)
    yield dict(z=np.arange(12. * n).reshape(n, 12))
    yield dict(w=np.arange(11 * n).reshape(n, 11), x=np.stack([c, c * 2], 1))
    yield dict(temp_min=c, temp_max=c + 1)
    yield dict(a_b_c=c, a_b=2 * c, a=np.stack([c, -c], 1))
    yield {'x_y': np.arange(2. * n).reshape(n, 2), 'x_1': c}
    yield dict(v=np.where(np.arange(n) % 2, np.nan, c))
    yield dict(f=c.astype(np.float32), i=np.arange(n, dtype=np.int16), u=np.arange(n, dtype=np.uint8))
    yield dict(weight=c, name=2 * c)
    yield dict(s_1=c, s_3=2 * c, t_a=c, t_0=-c)


def run(case, ctx):
    from pygsp import graphs
    b = case['backend']
    if case['kind'] == 'round':
        for g in case['graphs']:
            W = ref.arr(g)
            n = len(W)
            ctx.prefix = f'{b} W={g if n < 7 else n} '
            round_trip(W, float, dict(a=np.arange(n) * 1.5, x=np.stack([np.arange(n), np.ones(n)], 1)), b, ctx)
    elif case['kind'] == 'large':
        W = gen.large(case['name'])
        n = len(W)
        c = np.cos(np.arange(n) * 1.3) * 7
        for s in ({}, dict(a=np.arange(n) * 1.5, x=np.stack([np.arange(n), np.ones(n)], 1)), dict(many=np.cos(np.arange(n * 104.)).reshape(n, 104), b=c < 0, i=np.arange(n) * 1000 + 2 ** 20),
                  {f'sig_{k}_name': c * k for k in range(12, 0, -1)}):
            ctx.prefix = f'{b} {case["name"]} signals {sorted(s)} '
            round_trip(W, float, s, b, ctx)
        if b == 'networkx':
            import networkx as nx
            for perm in (np.arange(n)[::-1], (np.arange(n) * 7 + 3) % n if n % 7 else np.roll(np.arange(n), 5)):
                H = nx.DiGraph() if ref.is_directed(W) else nx.Graph()
                H.add_nodes_from(int(v) for v in perm)
                for i, j, w in ref.edges(W):
                    H.add_edge(i, j, weight=w)
                for v in range(0, n, 3):
                    H.nodes[v]['s'] = v * 0.5 + 1
                ctx.op()
                ctx.trace()
                G = load(H, b)
                ctx.close(G.W, W[np.ix_(perm, perm)], 'imported weights in node order', tol=0)
                ctx.close(G.signals['s'], np.array([v * 0.5 + 1 if v % 3 == 0 else np.nan for v in perm]), 'partial signal', tol=0)
    elif case['kind'] == 'lifetime':
        run_lifetime(b, ctx)
    elif case['kind'] == 'dtypes':
        for dt in (bool, np.uint8, np.int32, np.int64, np.float32, np.float64):
            for g in (gen.path(4), [[0, 1, 0], [0, 0, 1], [1, 0, 1]], [[0, 0], [0, 0]], gen.blocks(gen.ring(3), [[0]])):
                ctx.prefix = f'{b} {np.dtype(dt)} W={g} '
                W = ref.arr(g) * (1 if dt is bool else 3)
                round_trip(W, dt, {}, b, ctx)
    elif case['kind'] == 'signals':
        for g in (gen.path(4), [[0, 1, 0], [0, 0, 2.5], [0, 0, 0]], gen.blocks(gen.ring(3), [[0]]), [[0]], gen.grid(4, 5)):
            W = ref.arr(g)
            for s in sigs(len(W)):
                ctx.prefix = f'{b} W={g if len(W) < 7 else len(W)} signals {[(k, v.shape, str(v.dtype)) for k, v in s.items()]} '
                round_trip(W, float, s, b, ctx)
    elif case['kind'] == 'multi':
        run_multi(case, b, ctx)
    else:
        run_attrs(b, ctx)


def run_multi(case, b, ctx):
    """Graphs built by the other library: multi-edges add up, loops count once, order is that of the vertices."""
    directed, n = case['directed'], 3
    arcs = [(i, j) for i in range(n) for j in range(n) if directed or i <= j]
    if case['first'] >= len(arcs):
        return
    for size in range(1, case['top'] + 1):
        for rest in itertools.combinations_with_replacement(range(case['first'], len(arcs)), size - 1):
            sel = [arcs[case['first']]] + [arcs[i] for i in rest]
            for weighted in (True, False):
                ctx.prefix = f'{b} directed={directed} edges={sel} weighted={weighted} '
                ctx.trace()
                W = np.zeros((n, n))
                ws = [1.5 + k for k in range(size)] if weighted else [1.] * size
                for (i, j), w in zip(sel, ws):
                    W[i, j] += w
                    if not directed and i != j:
                        W[j, i] += w
                if b == 'networkx':
                    import networkx as nx
                    simple = len(set(sel)) == size
                    H = (nx.DiGraph() if directed else nx.Graph()) if simple else (nx.MultiDiGraph() if directed else nx.MultiGraph())
                    H.add_nodes_from('cab')
                    for (i, j), w in zip(sel, ws):
                        H.add_edge('cab'[i], 'cab'[j], **(dict(weight=w, cost=2 * w) if weighted else {}))
                else:
                    import graph_tool as gt
                    H = gt.Graph(directed=directed)
                    H.add_vertex(n)
                    p, q = H.new_edge_property('double'), H.new_edge_property('double')
                    for (i, j), w in zip(sel, ws):
                        e = H.add_edge(i, j)
                        p[e], q[e] = w, 2 * w
                    if weighted:
                        H.edge_properties['weight'] = p
                        H.edge_properties['cost'] = q
                ctx.op()
                G = load(H, b)
                ctx.close(G.W, W, 'imported weights', tol=1e-12)
                ctx.state(G.W)
                if weighted:
                    ctx.op(2)
                    ctx.close(load(H, b, weight='cost').W, 2 * W, 'imported from another attribute', tol=1e-12)
                    U = np.zeros((n, n))
                    for i, j in sel:
                        U[i, j] += 1
                        if not directed and i != j:
                            U[j, i] += 1
                    ctx.close(load(H, b, weight='missing').W, U, 'imported without weights', tol=1e-12)
                    ctx.close(load(H, b, weight=None).W, U, 'imported ignoring weights', tol=1e-12)


def run_attrs(b, ctx):
    """Vertex attributes set on any subset of the vertices, in any vertex order."""
    from pygsp import graphs  # noqa
    n = 4
    W = ref.arr(gen.weighted(gen.path(n)))
    if b == 'networkx':
        import networkx as nx
        for perm in itertools.permutations(range(n)):
            for m1 in range(1 << n):
                m2 = (m1 * 7 + 3) % (1 << n)
                H = nx.Graph()
                H.add_nodes_from(perm)
                for i in range(n):
                    for j in range(i + 1, n):
                        if W[i, j]:
                            H.add_edge(i, j, weight=W[i, j])
                want = {}
                for name, m in (('s', m1), ('t', m2)):
                    for v in range(n):
                        if m >> v & 1:
                            H.nodes[v][name] = v * 1.5 + 1
                    if m:
                        want[name] = np.array([v * 1.5 + 1 if m >> v & 1 else np.nan for v in perm])
                ctx.prefix = f'nodes {perm} attributes {m1:04b} {m2:04b} '
                ctx.op()
                ctx.trace()
                G = load(H, b)
                ctx.close(G.W, W[np.ix_(perm, perm)], 'imported weights', tol=0)
                ctx.check(sorted(G.signals) == sorted(want), f'signals {sorted(G.signals)}')
                for k in want:
                    ctx.close(G.signals.get(k, np.zeros(0)), want[k], f'signal {k}', tol=0)
                ctx.state(perm, m1)
        return
    import graph_tool as gt
    for kind in ('double', 'int', 'bool', 'int16_t', 'long'):
        for m in range(1 << n):
            H = gt.Graph(directed=False)
            H.add_vertex(n)
            w = H.new_edge_property('double')
            for i in range(n):
                for j in range(i + 1, n):
                    if W[i, j]:
                        w[H.add_edge(i, j)] = W[i, j]
            H.edge_properties['weight'] = w
            p = H.new_vertex_property(kind)
            for v in range(n):
                p[v] = m >> v & 1
            H.vertex_properties['s'] = p
            ctx.op()
            ctx.trace()
            G = load(H, b)
            ctx.close(G.W, W, 'imported weights', tol=0)
            ctx.close(np.asarray(G.signals['s']).astype(float), np.array([float(m >> v & 1) for v in range(n)]), f'{kind} property', tol=0)
            ctx.state(kind, m)


def run_lifetime(b, ctx):
    """The two graphs are independent: freeing or modifying the one does not change the other."""
    import gc
    from pygsp import graphs
    for n in (1, 2, 3, 6, 40):
        for dt in (float, np.float32, int, np.int16, np.uint8, bool):
            for nsig in (1, 2):
                G = graphs.Graph(gen.weighted(gen.path(n)))
                x = (np.arange(n) * 3 % 7).astype(dt)
                sig = [x, x[::-1].copy()][:nsig]
                for i, y in enumerate(sig):
                    G.set_signal(y.copy(), f's{i}')
                for how in ('freed', 'modified', 'original'):
                    ctx.op()
                    ctx.trace()
                    ctx.state(n, np.dtype(dt).str, nsig, how)
                    what = f'{n} vertices {np.dtype(dt)} {how}'
                    if how == 'original':
                        H = export(G, b)
                        for y in G.signals.values():
                            y[:] = 1
                        K = load(H, b)
                        for i, y in enumerate(sig):
                            G.set_signal(y.copy(), f's{i}')
                    elif how == 'freed':
                        K = load(export(G, b), b)
                        gc.collect()
                        junk = [np.full(k, 7, np.uint8) for k in range(1, 200)]  # likely to reuse the memory
                        del junk
                    else:
                        H = export(G, b)
                        K = load(H, b)
                        if b == 'networkx':
                            for v in H:
                                for i in range(nsig):
                                    H.nodes[v][f's{i}'] = 1
                            for u, v in H.edges:
                                H.edges[u, v]['weight'] = 99.
                        else:
                            for i in range(nsig):
                                H.vertex_properties[f's{i}'].a[:] = 1
                            H.edge_properties['weight'].a[:] = 99
                    ctx.close(K.W, G.W, f'{what}: weights', tol=0)
                    for i, y in enumerate(sig):
                        ctx.close(np.asarray(K.signals[f's{i}']).astype(float), y.astype(float), f'{what}: signal {i}', tol=0)
