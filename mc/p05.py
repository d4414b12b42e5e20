"""P05: the largest eigenvalue in use is never below the true one."""
import numpy as np

from . import gen, ref
from .core import Arpack, Skip

BOUNDS = dict(
    quick='graphs with >=1 edge: all labelled symmetric N<=3 {0,1,2.5} x diagonal {0,1.5}, N=4 {0,1,2.5}, '
          'all 0/1 classes N=5,6, classes over {0,1e-6,1,1e6} N<=4, all directed N<=3 {0,1,2.5}; both Laplacians; '
          'every sequence of length <=3 over {estimate lanczos, estimate bounds, full basis, partial basis, '
          'switch Laplacian, read}; large named graphs (see DESIGN.md)',
    thorough='quick plus N=5 {0,1} labelled, N=5 {0,1,2} classes, N=7 classes, sequences of length 4')
CHUNK = 10
B = 24
ASSUMPTIONS = ['graphs with at least one non-loop edge', 'ARPACK starting vectors: a fixed generic one, and for two larger graphs an enumerated alphabet of 64']
OPS = ['lanczos', 'bounds', 'full', 'partial', 'switch', 'read']


def cases(tier):
    import itertools
    g = []
    for n in (2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5)))
        g += list(gen.directed(n, (0, 1, 2.5)))
    g += list(gen.undirected(4, (0, 1, 2.5)))
    g += gen.iso_classes(5, (0, 1)) + gen.iso_classes(6, (0, 1))
    g += gen.iso_classes(3, (0, 1e-6, 1, 1e6)) + gen.iso_classes(4, (0, 1e-6, 1, 1e6))
    if tier == 'thorough':
        g += list(gen.undirected(5, (0, 1))) + gen.iso_classes(5, (0, 1, 2)) + gen.iso_classes(7, (0, 1))
        g += gen.iso_classes(4, (0, 1), None, 'directed')
    g = [W for W in g if gen.has_edge(W)]
    for k in range(0, len(g), B):
        yield dict(kind='graphs', graphs=g[k:k + B])
    for name, W in list(gen.medium()) + [('full7x1000', gen.full(7, 1000.)), ('grid6x6', gen.grid(6, 6)),
                                         ('path40', gen.path(40)), ('wgrid7x5', gen.weighted(gen.grid(7, 5)))]:
        yield dict(kind='graphs', graphs=[W], id=name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='graphs', name=name, id='large-' + name)
    for name, W in [('path12', gen.path(12)), ('grid6x6', gen.grid(6, 6))]:
        for lt in ('combinatorial', 'normalized'):
            for a in range(0, 64, 16):
                yield dict(kind='start', W=W, lt=lt, seeds=list(range(a, a + 16)), id=f'start-{name}-{lt}-{a}')
    reps = [W for n in (2, 3) for W in gen.iso_classes(n, (0, 1, 2.5)) if gen.has_edge(W)] + \
        [gen.star(5), gen.full(4), gen.blocks(gen.full(3), gen.path(2)), gen.weighted(gen.ring(5))]
    depth = 4 if tier == 'thorough' else 3
    seqs = [s for d in range(1, depth + 1) for s in itertools.product(OPS, repeat=d)]
    for W in reps:
        for k in range(0, len(seqs), 60):
            yield dict(kind='seqs', W=W, seqs=seqs[k:k + 60])


def true_lmax(W, lt):
    return float(np.linalg.eigvalsh(ref.laplacian(W, lt))[-1])


def judge(lm, W, lt, how, ctx):
    t = true_lmax(W, lt)
    if not ctx.check(isinstance(lm, (int, float, np.number)) and np.isfinite(lm), f'lmax is {lm!r} after {how}'):
        return
    ctx.check(lm >= t * (1 - 1e-9), f'lmax {lm!r} below the true value {t!r} after {how}', key=f'below-true-{how}-{lt}' if len(W) > 50 else None)
    if how == 'lanczos':
        ctx.check(lm <= t * 1.0101, f'lanczos lmax {lm!r} far above the true value {t!r}')
        ctx.check(lm >= t * 1.004, f'lanczos lmax {lm!r} without its 1% margin over {t!r}', key=f'margin-{how}-{lt}' if len(W) > 50 else None)
    elif how == 'full':
        ctx.close(lm, t, 'lmax after the full basis', tol=1e-9, scale=t)
    elif how == 'bounds':
        if lt == 'normalized':
            ctx.close(lm, 2., 'normalized bound', tol=1e-9)
        else:
            S = (W + W.T) / 2
            d = S.sum(1)
            ctx.check(lm <= 2 * d.max() * (1 + 1e-9), f'bound {lm} looser than twice the max degree {2 * d.max()}')
            ctx.check(lm <= len(W) * max(W.max(), 0) * (1 + 1e-9), f'bound {lm} looser than N max(W)')


def run(case, ctx):
    from pygsp import graphs
    other = dict(combinatorial='normalized', normalized='combinatorial')
    if case['kind'] == 'graphs':
        for g in [gen.large(case['name'])] if 'name' in case else case['graphs']:
            W = ref.arr(g)
            for lt in other:
                ctx.prefix = f'W={g} {lt} ' if len(g) < 7 else f'{lt} '
                for how in ('lanczos', 'bounds', 'full', 'default'):
                    ctx.trace()
                    ctx.op(2)
                    G = graphs.Graph(W.copy(), lap_type=lt)
                    if how == 'full':
                        G.compute_fourier_basis()
                    elif how != 'default':
                        G.estimate_lmax(how)
                    judge(G.lmax, W, lt, how if how != 'default' else 'lanczos', ctx)
                    ctx.state(G.lmax)
        return
    W = ref.arr(case['W'])
    if case['kind'] == 'start':
        t = true_lmax(W, case['lt'])
        for seed in case['seeds']:
            ctx.trace()
            ctx.op(2)
            G = graphs.Graph(W.copy(), lap_type=case['lt'])
            Arpack.start, Arpack.hits = seed, 0
            try:
                G.estimate_lmax()
            finally:
                Arpack.start = 0
            if not Arpack.hits:
                raise Skip('the starting vector of the eigensolver is not observable')
            ctx.state(round(G.lmax / t, 4), case['lt'])
            ctx.check(G.lmax >= t * (1 - 1e-9), f'starting vector {seed}: lmax {G.lmax!r} below the true value {t!r}',
                      key=f'start-{seed}')
        return
    for seq in case['seqs']:
        G = graphs.Graph(W.copy())
        lt = 'combinatorial'
        last = None           # last estimation that was effective
        full = False
        ctx.trace()
        ctx.prefix = f'W={case["W"]} ops={list(seq)} '
        for o in seq:
            ctx.op()
            if o in ('lanczos', 'bounds'):
                G.estimate_lmax(o)
                last = o
            elif o == 'full':
                G.compute_fourier_basis()
                last = None if full else 'full'
                full = True
            elif o == 'partial':
                G.compute_fourier_basis(1)
            elif o == 'switch':
                lt = other[lt]
                G.compute_laplacian(lt)
                last, full = 'none', False
            elif o == 'read':
                lm = G.lmax
                judge(lm, W, lt, last if last not in (None, 'none') else 'read', ctx)
        judge(G.lmax, W, lt, last if last not in (None, 'none') else 'read', ctx)
        ctx.state(G.lmax, lt)
