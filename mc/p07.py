"""P07: a call that fails leaves the graph exactly as usable as before."""
import collections
import copy
import itertools
import os
import tempfile

import numpy as np

from . import gen, ref
from .core import Arpack, fingerprint
from .obs import observe, same, snapshot

BOUNDS = dict(
    quick='every failing call of a 47-entry fault alphabet (bad arguments, a kernel of the caller raising, sparse or dense eigensolver not converging, memory exhausted) injected in '
          'every state reachable within 3 preparatory operations, alone and in pairs from the initial states; 3 graphs',
    thorough='states within 4 operations, pairs everywhere, 6 graphs')
CHUNK = 1
PREP = ['lap_n', 'lap_c', 'lmax_l', 'lmax_b', 'basis', 'basis_k', 'diff', 'coords']


def prep_ops(n):
    from .p06 import ops
    t = ops(n)
    d = {k: t[k] for k in PREP if k in t}
    d['coords'] = lambda G: G.set_coordinates('line2D')
    return d


def arpack_fails():
    from scipy.sparse.linalg import ArpackNoConvergence
    return ArpackNoConvergence('No convergence (injected)', np.zeros(0), np.zeros((0, 0)))


def no_convergence(f):
    def g(G, n):
        Arpack.fail = arpack_fails()
        try:
            return f(G, n)
        finally:
            Arpack.fail = None
    return g


def dense_fails(exc, f):
    """The dense eigensolvers of SciPy and NumPy raise (LAPACK does not converge, or memory runs out)."""
    def solver(*a, **kw):
        raise exc('injected')

    def g(G, n):
        import scipy.linalg
        held = [(m, k, getattr(m, k)) for m in (scipy.linalg, np.linalg) for k in ('eigh', 'eigvalsh', 'eig', 'svd')]
        for m, k, _ in held:
            setattr(m, k, solver)
        try:
            return f(G, n)
        finally:
            for m, k, v in held:
                setattr(m, k, v)
    return g


def raising_kernel(x):
    raise RuntimeError('a kernel of the caller fails')


def _bank(G, n, call, *a, **kw):
    from pygsp import filters
    return getattr(filters.Filter(G, [lambda v: np.exp(-v), raising_kernel]), call)(*a, **kw)


def _filter(G, n, sig, **kw):
    from pygsp import filters
    f = filters.Filter(G, [lambda v: np.exp(-v), lambda v: v])
    return f.filter(sig, **kw)


def _learn(G, n, **kw):
    from pygsp import learning
    return learning.classification_tikhonov_simplex(G, **kw)


def _save(G, n, **kw):
    with tempfile.TemporaryDirectory() as d:
        return G.save(os.path.join(d, kw.pop('name', 'g.graphml')), **kw)


def _red(G, n, f, *a, **kw):
    from pygsp import reduction
    return getattr(reduction, f)(G, *a, **kw)


FAULTS = collections.OrderedDict(
    lap_bad=(lambda G, n: G.compute_laplacian('nope'), 1),
    lmax_bad=(lambda G, n: G.estimate_lmax('nope'), 1),
    lmax_noconv=(no_convergence(lambda G, n: G.estimate_lmax('lanczos')), 0),
    basis_noconv=(no_convergence(lambda G, n: G.compute_fourier_basis(n - 1)), 0),
    read_noconv=(no_convergence(lambda G, n: G.lmax), 0),
    basis_big=(lambda G, n: G.compute_fourier_basis(n + 3), 1),
    signal_short=(lambda G, n: G.set_signal(np.zeros(n - 1), 'bad'), 1),
    signal_long=(lambda G, n: G.set_signal(np.zeros((n + 1, n)), 'kept'), 1),
    set_W=(lambda G, n: setattr(G, 'W', np.ones((n, n))), 1),
    gft_short=(lambda G, n: G.gft(np.zeros(n - 1)), 1),
    igft_long=(lambda G, n: G.igft(np.zeros(n + 1)), 1),
    grad_short=(lambda G, n: G.grad(np.zeros(n - 1)), 1),
    div_long=(lambda G, n: G.div(np.zeros(G.n_edges + 1)), 1),
    energy_short=(lambda G, n: G.dirichlet_energy(np.zeros(n - 1)), 1),
    coords_name=(lambda G, n: G.set_coordinates('nope'), 1),
    coords_shape=(lambda G, n: G.set_coordinates(np.zeros((n + 1, 2))), 1),
    coords_dim=(lambda G, n: G.set_coordinates(np.zeros((n, 4))), 1),
    coords_comm=(lambda G, n: G.set_coordinates('community2D'), 1),
    spring_kw=(lambda G, n: G.set_coordinates('spring', nosuch=1), 1),
    sub_range=(lambda G, n: G.subgraph([0, n + 5]), 1),
    filt_short=(lambda G, n: _filter(G, n, np.zeros(n - 1)), 1),
    filt_nf=(lambda G, n: _filter(G, n, np.zeros((n, 1, 3))), 1),
    filt_dim=(lambda G, n: _filter(G, n, np.zeros((n, 1, 2, 1))), 1),
    filt_method=(lambda G, n: _filter(G, n, np.zeros(n), method='nope'), 1),
    learn_tau=(lambda G, n: _learn(G, n, y=np.arange(n) % 2, M=np.ones(n, bool), tau=0), 1),
    save_fmt=(lambda G, n: _save(G, n, fmt='nope'), 1),
    save_ext=(lambda G, n: _save(G, n, name='g.nope'), 1),
    save_backend=(lambda G, n: _save(G, n, backend='nope'), 1),
    plot_arg=(lambda G, n: G.plot(vertex_color=np.zeros((n, 2, 2))), 1),
    plot_backend=(lambda G, n: G.plot(backend='nope'), 1),
    basis_lapack=(dense_fails(np.linalg.LinAlgError, lambda G, n: G.compute_fourier_basis()), 0),
    basis_memory=(dense_fails(MemoryError, lambda G, n: G.compute_fourier_basis()), 0),
    read_lapack=(dense_fails(np.linalg.LinAlgError, lambda G, n: (G.U, G.e, G.coherence)), 0),
    gft_memory=(dense_fails(MemoryError, lambda G, n: G.gft(np.arange(n))), 0),
    exact_lapack=(dense_fails(np.linalg.LinAlgError, lambda G, n: _filter(G, n, np.zeros(n), method='exact')), 0),
    eigenmap_noconv=(no_convergence(lambda G, n: G.set_coordinates('laplacian_eigenmap2D')), 0),
    levels_noconv=(no_convergence(lambda G, n: _red(G, n, 'graph_multiresolution', 1)), 0),
    kernel_filter=(lambda G, n: _bank(G, n, 'filter', np.arange(n)), 1),
    kernel_frame=(lambda G, n: _bank(G, n, 'compute_frame'), 1),
    kernel_bounds=(lambda G, n: _bank(G, n, 'estimate_frame_bounds'), 1),
    kernel_plot=(lambda G, n: _bank(G, n, 'plot'), 1),
    save_folder=(lambda G, n: _save(G, n, name='missing/folder/g.graphml'), 1),
    save_gml_folder=(lambda G, n: _save(G, n, name='missing/folder/g.gml', backend='networkx'), 1),
    kron_range=(lambda G, n: _red(G, n, 'kron_reduction', [0, n + 4]), 1),
    sparsify_eps=(lambda G, n: _red(G, n, 'graph_sparsify', 1.5), 1),
    plot_bad_mid=(lambda G, n: G.plot(vertex_color=np.zeros(n), vertex_size=np.zeros(n + 1)), 1),
    plot_highlight=(lambda G, n: G.plot(highlight=[n + 3]), 0),
)


def cases(tier):
    gs = [gen.path(5), gen.weighted(gen.full(4)), [[0, 1, 0, 2], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0]]]
    if tier == 'thorough':
        gs += [gen.blocks(gen.full(3), [[0]]), gen.weighted(gen.star(5)), gen.ring(6)]
    depth = 4 if tier == 'thorough' else 3
    names = list(FAULTS)
    for W in gs:
        for a in range(0, len(names), 4):
            yield dict(kind='single', W=W, depth=depth, faults=names[a:a + 4])
        for a in range(0, len(names), 4):
            yield dict(kind='pairs', W=W, depth=1 if tier == 'quick' else 2, faults=names[a:a + 4])


def inject(H, fault, n, ctx):
    f, must = FAULTS[fault]
    ctx.op()
    try:
        f(H, n)
    except Exception:
        return True
    if must:
        ctx.check(False, f'{fault}: the invalid call was accepted')
    return False


def run(case, ctx):
    from pygsp import graphs
    import matplotlib.pyplot as plt
    W = ref.arr(case['W'])
    n = len(W)
    root = graphs.Graph(W.copy())
    root.set_signal(np.arange(n), 'kept')
    signals = {'kept': np.arange(n)}
    table = prep_ops(n)
    seen = {fingerprint(root)}
    frontier = [(root, [], 'combinatorial')]
    for d in range(case['depth'] + 1):
        nxt = []
        for G, hist, lt in frontier:
            ctx.prefix = f'after {hist} '
            before = snapshot(G)
            seqs = [(f,) for f in case['faults']] if case['kind'] == 'single' else \
                [(f, g) for f in case['faults'] for g in FAULTS]
            for fs in seqs:
                H = copy.deepcopy(G)
                ctx.trace()
                failed = True
                for f in fs:
                    ctx.prefix = f'after {hist}, failing call {fs} '
                    failed &= inject(H, f, n, ctx)
                if failed:
                    same(before, snapshot(H), ctx, 'the failed call')
                    if d <= 1 and len(fs) == 1:
                        observe(H, W, lt, ctx, signals, deep=d == 0)
                    # and the operations still work from here
                    if d == 0 and len(fs) == 1:
                        for o, op in table.items():
                            K = copy.deepcopy(H)
                            ctx.prefix = f'after {hist}, failing call {fs}, then {o} '
                            op(K)
                            ctx.op()
                            lt2 = dict(lap_n='normalized', lap_c='combinatorial').get(o, lt)
                            observe(K, W, lt2, ctx, signals, deep=False)
                plt.close('all')
            ctx.states.add(fingerprint(G))
            if d < case['depth']:
                for o, op in table.items():
                    H = copy.deepcopy(G)
                    op(H)
                    ctx.op()
                    k = fingerprint(H)
                    if k not in seen:
                        seen.add(k)
                        nxt.append((H, hist + [o], dict(lap_n='normalized', lap_c='combinatorial').get(o, lt)))
        frontier = nxt
