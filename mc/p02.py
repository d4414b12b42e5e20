"""P02: the Laplacian is the documented function of the weights, for every graph."""
import itertools

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='all labelled symmetric W: N<=3 over {0,1,2.5} x diagonal {0,1.5}, N=4 over {0,1,2.5}, N=5 over {0,1}; '
          'all labelled directed W: N<=3 over {0,1,2.5}, N=3 {0,1} x diagonal {0,1.5}; '
          'weights over {0,1e-9,1,1e9} on N=3; every relabelling of N<=4 classes; 11 medium graphs; large named graphs (see DESIGN.md)',
    thorough='quick plus N=5 over {0,1,2.5}, N=6 {0,1}, directed N=4 {0,1}, directed N=3 {0,1,2.5} with loops')
CHUNK = 20
B = 30


def families(tier):
    f = [('u', 1, (0,), (0, 1.5)), ('u', 2, (0, 1, 2.5), (0, 1.5)), ('u', 3, (0, 1, 2.5), (0, 1.5)),
         ('d', 2, (0, 1, 2.5), (0, 1.5)), ('d', 3, (0, 1, 2.5), None), ('d', 3, (0, 1), (0, 1.5)),
         ('u', 4, (0, 1, 2.5), None), ('u', 5, (0, 1), None),
         ('u', 3, (0, 1e-9, 1, 1e9), (0, 1)), ('d', 3, (0, 1e-9, 1e9), None)]
    if tier == 'thorough':
        f += [('u', 5, (0, 1, 2.5), None), ('u', 6, (0, 1), None), ('d', 4, (0, 1), None),
              ('d', 3, (0, 1, 2.5), (0, 1.5))]
    return f


def all_graphs(tier):
    for kind, n, w, loops in families(tier):
        yield from (gen.undirected if kind == 'u' else gen.directed)(n, w, loops)


def cases(tier):
    g = list(all_graphs(tier))
    for k in range(0, len(g), B):
        yield dict(kind='graphs', graphs=g[k:k + B])
    for name, W in gen.medium():
        yield dict(kind='graphs', graphs=[W], id=name)
        yield dict(kind='graphs', graphs=[[[v * (1 + (j > i)) for j, v in enumerate(r)]
                                           for i, r in enumerate(W)]], id='dir-' + name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='large', name=name, id='large-' + name)
    reps = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1, 2))]
    for k in range(0, len(reps), 10):
        yield dict(kind='relabel', graphs=reps[k:k + 10])


def run(case, ctx):
    from pygsp import graphs
    if case['kind'] == 'relabel':
        for g in case['graphs']:
            W = ref.arr(g)
            G = graphs.Graph(W)
            base = {}
            for lt in ('combinatorial', 'normalized'):
                G.compute_laplacian(lt)
                base[lt] = G.L.toarray()
            for p in itertools.permutations(range(len(W))):
                ctx.trace()
                P = W[np.ix_(p, p)]
                for lt in base:
                    ctx.op()
                    ctx.prefix = f'W={g} perm={p} {lt} '
                    ctx.close(graphs.Graph(P, lap_type=lt).L, base[lt][np.ix_(p, p)], 'relabelling changes L')
            ctx.state(W)
        return
    for g in [gen.large(case['name'])] if case['kind'] == 'large' else case['graphs']:
        W = ref.arr(g)
        n = len(W)
        sc = max(1e-300, np.abs(W).max())
        ctx.prefix = f'W={g} ' if n < 6 else ''
        ctx.trace()
        G = graphs.Graph(W.copy())
        for lt in ('combinatorial', 'normalized', 'combinatorial', 'combinatorial'):
            G.compute_laplacian(lt)
            ctx.op()
            s = sc if lt == 'combinatorial' else 1
            want = ref.laplacian(W, lt)
            ctx.check(G.lap_type == lt, 'lap_type attribute')
            if not ctx.close(G.L, want, f'{lt} L', tol=1e-12, scale=s):
                continue
            L = G.L.toarray()
            ctx.close(L, L.T, f'{lt} L symmetric', tol=1e-13, scale=s)
            if lt == 'combinatorial':
                ctx.close(L.sum(1), np.zeros(n), 'rows of L sum to 0', tol=1e-12, scale=s)
            e = np.linalg.eigvalsh(L / s)
            ctx.check(e[0] > -1e-9, f'{lt} L has a negative eigenvalue {e[0]}')
            if lt == 'normalized':
                ctx.check(e[-1] < 2 + 1e-9, f'normalized spectrum exceeds 2: {e[-1]}')
                iso = ref.dw(W) == 0
                ctx.check(not L[iso].any() and not L[:, iso].any(), 'disconnected vertex has non-zero L')
            ctx.state(G.L, lt)
        ctx.op(3)
        ctx.close(graphs.Graph(W, lap_type='normalized').L, ref.laplacian(W, 'normalized'), 'constructor normalized L',
                  tol=1e-12)
        ctx.close(graphs.Graph(W.T.copy()).L, ref.laplacian(W), 'L depends on edge orientation', tol=1e-12, scale=sc)
        if W.diagonal().any():
            ctx.close(graphs.Graph(W - np.diag(W.diagonal())).L, G.L, 'self-loops seen by combinatorial L',
                      tol=1e-12, scale=sc)
        # the edge-pattern attributes are not disturbed by computing Laplacians
        ctx.close(G.W, W, 'W after compute_laplacian', tol=0)
