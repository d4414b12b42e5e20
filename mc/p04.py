"""P04: the Fourier basis diagonalizes the Laplacian and the GFT is unitary."""
import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='all labelled symmetric W: N<=3 over {0,1,2.5} x diagonal {0,1.5}, N=4 {0,1,2.5}; all 0/1 classes N=5,6; '
          'directed N<=3 {0,1,2.5}; weights {1e-6,1e6}; 11 medium graphs; both Laplacians; every partial basis size; '
          'every order partial->partial->full up to length 3 (N<=4 classes); large named graphs (see DESIGN.md)',
    thorough='quick plus all labelled N=5 {0,1}, N=5 {0,1,2} classes, N=7 classes, directed N=4 {0,1} classes')
CHUNK = 10
B = 20
ASSUMPTIONS = ['partial bases: graphs with at least one edge, one fixed generic ARPACK starting vector']


def cases(tier):
    g = []
    for n in (1, 2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5)))
    g += list(gen.undirected(4, (0, 1, 2.5)))
    g += list(gen.directed(2, (0, 1, 2.5))) + list(gen.directed(3, (0, 1, 2.5)))
    g += gen.iso_classes(5, (0, 1)) + gen.iso_classes(6, (0, 1))
    g += gen.iso_classes(4, (0, 1e-6, 1e6)) + gen.iso_classes(3, (0, 1e-9, 1e9))
    if tier == 'thorough':
        g += list(gen.undirected(5, (0, 1))) + gen.iso_classes(5, (0, 1, 2)) + gen.iso_classes(7, (0, 1))
        g += gen.iso_classes(4, (0, 1), None, 'directed')
    for k in range(0, len(g), B):
        yield dict(kind='full', graphs=g[k:k + B])
    for name, W in gen.medium():
        yield dict(kind='full', graphs=[W], id=name)
        yield dict(kind='partial', graphs=[W], id='partial-' + name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='full', name=name, id='large-' + name)
    for name in gen.LARGE + ['distinct1100']:
        for lt in ('combinatorial', 'normalized'):
            yield dict(kind='partial', name=name, lts=[lt], id=f'large-partial-{name}' + '-n' * (lt == 'normalized'))
    reps = [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1))] + gen.iso_classes(5, (0, 1)) \
        + gen.iso_classes(4, (0, 1, 2.5))
    if tier == 'thorough':
        reps += gen.iso_classes(6, (0, 1)) + gen.iso_classes(5, (0, 1, 2))
    reps = [W for W in reps if gen.has_edge(W)]
    for k in range(0, len(reps), 6):
        yield dict(kind='partial', graphs=reps[k:k + 6])


def check_full(G, W, lt, ctx):
    n = len(W)
    L = ref.laplacian(W, lt)
    sc = max(1.0, np.abs(L).max()) if lt == 'combinatorial' else 1.0
    U, e = G.U, G.e
    ctx.op(2)
    if not (ctx.check(U.shape == (n, n), f'U shape {U.shape}') and ctx.check(e.shape == (n,), f'e shape {e.shape}')):
        return
    ctx.close(U.conj().T @ U, np.eye(n), 'U orthonormal', tol=1e-9)
    ctx.close((U * e) @ U.conj().T, L, 'L == U diag(e) U*', tol=1e-9, scale=sc)
    ctx.check((np.diff(e) >= 0).all(), f'eigenvalues not ascending {e}')
    ctx.check(e[0] == 0, f'smallest eigenvalue {e[0]} is not zero')
    ctx.check((e >= -1e-300).all(), f'negative eigenvalue {e.min()}')
    ctx.close(e, np.clip(np.linalg.eigvalsh(L), 0, None), 'spectrum', tol=1e-9, scale=sc)
    ctx.close(G.coherence, np.abs(U).max(), 'coherence', tol=1e-12)
    ctx.check(1 / np.sqrt(n) - 1e-9 <= G.coherence <= 1 + 1e-9, f'coherence {G.coherence} out of range')


def check_gft(G, n, ctx):
    U = G.U
    I = np.eye(n)
    x3 = np.arange(n * 6, dtype=float).reshape(n, 2, 3) - 4
    ctx.op(6)
    H = G.gft(I)
    ctx.close(H, U.conj().T, 'gft of deltas', tol=1e-12)
    ctx.close(G.igft(H), I, 'igft(gft(x)) == x', tol=1e-9)
    ctx.close(G.gft(G.igft(I)), I, 'gft(igft(x)) == x', tol=1e-9)
    h3 = G.gft(x3)
    ctx.close(h3.shape, x3.shape, 'gft keeps the shape')
    ctx.close(G.igft(h3), x3, 'igft(gft(x)) 3-D', tol=1e-9, scale=x3.max())
    ctx.close((np.abs(h3) ** 2).sum(0), (x3 ** 2).sum(0), 'Parseval', tol=1e-9, scale=max(1, (x3 ** 2).sum()))
    for shape in ((n, 1), (n, n), (n, n + 1), (n, 2 * n), (n, 1, 1), (n, 1, n), (n, n, 1), (n, n, n), (n, 2, n), (n, n, 2), (n, n, n, 1), (n, 2, 1, n)) if n < 60 else ((n, n), (n, 2, n)):
        x = np.sin(np.arange(np.prod(shape)) * 1.3).reshape(shape)
        ctx.op(2)
        ctx.close(G.gft(x), np.tensordot(U.conj().T, x, ([1], [0])), f'gft of a signal of shape {[("N" if v == n else v) for v in shape]}', tol=1e-10, scale=n)
        ctx.close(G.igft(x), np.tensordot(U, x, ([1], [0])), f'igft of a signal of shape {[("N" if v == n else v) for v in shape]}', tol=1e-10, scale=n)
    x = [1] * n
    for im in (1, 1e-3, 1e-9, 1e-13):
        z = np.cos(np.arange(n) * 1.1) + 1j * im * np.sin(1 + np.arange(n) * 2.3)
        for part, scale in ((np.real, 1), (np.imag, im)):
            ctx.close(part(G.gft(z)), part(U.conj().T @ z), f'gft of a signal with an imaginary part of {im}', tol=1e-12, scale=scale * n)
            ctx.close(part(G.igft(z)), part(U @ z), f'igft of a signal with an imaginary part of {im}', tol=1e-12, scale=scale * n)
    ctx.close(G.gft(x), U.conj().T @ np.ones(n), 'gft of a list', tol=1e-12)
    ctx.close(G.igft(x), U @ np.ones(n), 'igft of a list', tol=1e-12)
    ctx.raises(lambda: G.gft(np.zeros(n + 1)), 'gft of wrong length accepted', ValueError)
    ctx.raises(lambda: G.igft(np.zeros(n + 1)), 'igft of wrong length accepted', ValueError)


def check_partial(G, W, lt, k, ctx, key=None):
    """After asking for k vectors: the stored basis spans an exact low-frequency space."""
    n = len(W)
    L = ref.laplacian(W, lt)
    sc = max(1.0, np.abs(L).max())
    U, e = G.U, G.e
    ctx.op(2)
    m = len(e)
    if not ctx.check(m >= k and U.shape == (n, m), f'partial basis has {m} values, U {U.shape}, asked {k}'):
        return
    ctx.close(U.T @ U, np.eye(m), 'partial U orthonormal', tol=1e-7)
    ctx.close(L @ U, U * e, 'L U == U diag(e)', tol=1e-7, scale=sc)
    ctx.check((np.diff(e) >= 0).all() and e[0] == 0, f'partial e not ascending from 0: {e}')
    ctx.close(e, np.clip(np.linalg.eigvalsh(L)[:m], 0, None), 'partial spectrum is not the lowest part', tol=1e-7, scale=sc, key=key)
    x = np.arange(n * 2, dtype=float).reshape(n, 2)
    ctx.close(G.gft(x), U.T @ x, 'gft with partial basis', tol=1e-9, scale=x.max())


def run(case, ctx):
    from pygsp import graphs
    for g in [gen.large(case['name'])] if 'name' in case else case['graphs']:
        W = ref.arr(g)
        n = len(W)
        for lt in case.get('lts', ('combinatorial', 'normalized')):
            ctx.prefix = f'W={g} {lt} ' if n < 7 else lt + ' '
            if case['kind'] == 'full':
                ctx.trace()
                G = graphs.Graph(W.copy(), lap_type=lt)
                G.compute_fourier_basis()
                ctx.op(2)
                check_full(G, W, lt, ctx)
                ctx.close(G.lmax, G.e[-1], 'lmax is the largest eigenvalue', tol=1e-12)
                check_gft(G, n, ctx)
                U0, e0 = G.U.copy(), G.e.copy()
                G.compute_fourier_basis()
                if n > 1:
                    G.compute_fourier_basis(1)
                ctx.op(2)
                ctx.close(G.U, U0, 'recomputing changes U', tol=0)
                ctx.close(G.e, e0, 'recomputing changes e', tol=0)
                ctx.state(e0, lt)
                H = graphs.Graph(W.copy(), lap_type=lt)     # implicit computation
                check_full(H, W, lt, ctx)
            else:
                small = n <= 5
                seqs = [(k,) for k in range(1, n)] if n < 30 else [(k,) for k in (1, 2, 6, 11, 21, n // 2, n - 1)] + [(5, 24), (12, 3)]
                if n > 1000:
                    seqs = [(6,), (21,), (5, 24)]
                if small:
                    seqs += [(k, m) for k in range(1, n) for m in list(range(1, n)) + [None] if m != k]
                if n <= 3:
                    seqs += [(k, m, None) for k in range(1, n) for m in range(1, n)]
                elif n < 1000:
                    seqs += [(k, None) for k in (1, n // 2, n - 1)]
                for seq in seqs:
                    ctx.prefix = f'W={g if n < 7 else n} {lt} sizes={seq} '
                    ctx.trace()
                    G = graphs.Graph(W.copy(), lap_type=lt)
                    for k in seq:
                        G.compute_fourier_basis(k)
                        ctx.op()
                        if k is None:
                            check_full(G, W, lt, ctx)
                            ctx.close(G.lmax, G.e[-1], 'lmax after the full basis', tol=1e-12)
                        else:
                            check_partial(G, W, lt, k, ctx, key='multiplicity-missed' if case.get('name') == 'many' else None)
                    ctx.state(G.e, lt, seq)
