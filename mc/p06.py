"""P06: every answer depends on the graph and its current Laplacian, not on the call history."""
import collections
import copy
import itertools

import numpy as np

from . import gen, ref
from .core import fingerprint
from .obs import OTHER, observe

BOUNDS = dict(
    quick='all reachable states (BFS to closure, de-duplicated on the whole object state) of 6 graphs under 15 '
          'operations; all interleavings of length <=3 of 7 operations on two graphs of equal size; all sequences of length <=4 of '
          '11 operations on a long-lived filter bank and its graph',
    thorough='closure for 40 graphs (every class N<=4 with an edge, directed and looped ones), interleavings of length 4, filter histories of length 5')
CHUNK = 1
ASSUMPTIONS = ['ARPACK starts from one fixed vector', 'graphs with at least one edge']
X = None


def x_of(n):
    return np.sin(np.arange(1, n + 1) * 2.3)


# operation -> (callable(G, n) -> value, expected value from the model or None)
def _chk(fn):
    return fn


def ops(n):
    x = x_of(n)
    return collections.OrderedDict(
        lap_c=lambda G: G.compute_laplacian('combinatorial'),
        lap_n=lambda G: G.compute_laplacian('normalized'),
        lmax_l=lambda G: G.estimate_lmax('lanczos'),
        lmax_b=lambda G: G.estimate_lmax('bounds'),
        read_lmax=lambda G: G.lmax,
        basis=lambda G: G.compute_fourier_basis(),
        basis_k=lambda G: G.compute_fourier_basis(max(1, n - 2)),
        read_U=lambda G: G.U,
        diff=lambda G: G.compute_differential_operator(),
        grad=lambda G: G.grad(x),
        gft=lambda G: G.gft(x),
        energy=lambda G: G.dirichlet_energy(x),
        stats=lambda G: (G.A, G.d, G.dw, G.is_connected()),
        heat=lambda G: _heat(G, x),
        coh=lambda G: G.coherence,
        regress=lambda G: _regress(G, x),
    )


def _heat(G, x):
    from pygsp import filters
    return filters.Heat(G, 3).filter(x, method='chebyshev', order=20)


def _regress(G, x):
    from pygsp import learning
    m = np.zeros(len(x), dtype=bool)
    m[0] = True
    return learning.regression_tikhonov(G, x, m, tau=1.5)


def judge(op, v, W, lt, ctx):
    """The value returned by an operation, against the model."""
    n = len(W)
    x = x_of(n)
    L = ref.laplacian(W, lt)
    if op == 'energy':
        ctx.close(v, x @ L @ x, 'returned energy', tol=1e-9)
    elif op == 'grad':
        ctx.close((np.asarray(v) ** 2).sum(), x @ L @ x, 'returned gradient', tol=1e-9)
    elif op == 'read_lmax':
        t = float(np.linalg.eigvalsh(L)[-1])
        ctx.check(v is not None and v >= t * (1 - 1e-9), f'returned lmax {v!r} below {t}')
    elif op == 'gft':
        if len(v) == n:
            ctx.close((v ** 2).sum(), (x ** 2).sum(), 'returned gft norm', tol=1e-9)
    elif op == 'regress':
        M = np.zeros((n, n))
        M[0, 0] = 1
        if np.linalg.cond(M + 1.5 * L) < 1e8:
            ctx.close(v, np.linalg.solve(M + 1.5 * L, M @ x), 'returned regression', tol=1e-7)
    elif op == 'stats':
        ctx.close(np.ravel(v[2]), ref.dw(W), 'returned dw')
        ctx.check(bool(v[3]) == ref.strongly_connected(W), 'returned connectivity')


def graphs_for(tier):
    g = [gen.path(4), gen.weighted(gen.full(4)), [[0, 1, 0, 2], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0]],
         [[1, 2, 0, 0], [2, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 1]], gen.weighted(gen.star(5)),
         gen.blocks(gen.full(3), [[0]])]
    if tier == 'thorough':
        g += [W for n in (2, 3, 4) for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W)]
        g += [W for W in gen.iso_classes(3, (0, 1), None, 'directed') if gen.has_edge(W)]
        g += [gen.ring(7), gen.weighted(gen.grid(2, 4))]
    return g


PAIR_OPS = ['lap_n', 'lmax_b', 'read_lmax', 'basis', 'grad', 'heat', 'stats']


def cases(tier):
    for W in graphs_for(tier):
        for lt in OTHER:
            for first in ([None] if tier == 'quick' else [None]):
                yield dict(kind='closure', W=W, lt=lt)
    A, B = gen.weighted(gen.path(4)), gen.weighted(gen.full(4))
    alpha = [(g, o) for g in (0, 1) for o in PAIR_OPS]
    seqs = [list(s) for d in range(1, (5 if tier == 'thorough' else 4)) for s in itertools.product(alpha, repeat=d)
            if len({g for g, _ in s}) == 2 or d == 1]
    for k in range(0, len(seqs), 100):
        yield dict(kind='pair', A=A, B=B, seqs=seqs[k:k + 100])
    seqs = [list(s) for d in range(1, (6 if tier == 'thorough' else 5)) for s in itertools.product(BANK_OPS, repeat=d)]
    seqs = [s for s in seqs if s[-1] in BANK_USES]
    for k in range(0, len(seqs), 150):
        yield dict(kind='bank', W=gen.weighted(gen.path(4)) if k // 150 % 2 else [[0, 1, 0, 2], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0]],
                   seqs=seqs[k:k + 150])


BANK_USES = ['exact', 'cheby', 'frame', 'local', 'bounds', 'other', 'synth']
BANK_OPS = ['lap_n', 'lap_c', 'basis', 'lmax_b'] + BANK_USES


def run_bank(case, ctx):
    """One filter bank that lives through the history of its graph (and is lent to another graph)."""
    from pygsp import filters, graphs
    W = ref.arr(case['W'])
    V = 2 * ref.arr(gen.weighted(gen.full(4)))
    n = len(W)
    ks = [lambda v: 1 / (1 + v), lambda v: v * v - 3 * v]
    x = x_of(n)
    x2 = np.stack([x, x ** 2], 1)
    F = {(w, lt): [ref.fun(ref.laplacian(M, lt), k) for k in ks] for w, M in (('W', W), ('V', V)) for lt in OTHER}
    E = {lt: np.linalg.eigvalsh(ref.laplacian(W, lt)) for lt in OTHER}
    for seq in case['seqs']:
        G = graphs.Graph(W.copy())
        H = graphs.Graph(V.copy())
        bank = filters.Filter(G, list(ks))
        lt = 'combinatorial'
        ctx.trace()
        ctx.prefix = f'bank history {seq} '
        for o in seq:
            ctx.op()
            f = F['W', lt]
            if o in ('lap_n', 'lap_c'):
                lt = dict(lap_c='combinatorial', lap_n='normalized')[o]
                G.compute_laplacian(lt)
            elif o == 'basis':
                G.compute_fourier_basis()
            elif o == 'lmax_b':
                G.estimate_lmax('bounds')
            elif o == 'exact':
                ctx.close(bank.filter(x, method='exact'), np.stack([a @ x for a in f], 1), 'exact', tol=1e-8)
            elif o == 'cheby':
                ctx.close(bank.filter(x, order=30)[:, 1], f[1] @ x, 'chebyshev', tol=1e-8)
                ctx.close(bank.filter(x, order=30)[:, 0], f[0] @ x, 'chebyshev', tol=1e-3)
            elif o == 'frame':
                ctx.close(bank.compute_frame(method='exact'), np.concatenate(f), 'frame', tol=1e-8)
            elif o == 'local':
                ctx.close(bank.localize(1, method='exact'), np.stack([a[:, 1] * np.sqrt(n) for a in f], 1), 'localize', tol=1e-8)
            elif o == 'bounds':
                r = sum(k(E[lt]) ** 2 for k in ks)
                ctx.close(bank.estimate_frame_bounds(E[lt]), [r.min(), r.max()], 'frame bounds', tol=1e-8)
            elif o == 'other':
                ctx.close(bank(H).filter(x, method='exact'), np.stack([a @ x for a in F['V', 'combinatorial']], 1), 'bank on another graph', tol=1e-8)
            elif o == 'synth':
                ctx.close(bank.synthesize(x2, method='exact'), f[0] @ x2[:, 0] + f[1] @ x2[:, 1], 'synthesis', tol=1e-8)
        ctx.state(G, lt)


def run(case, ctx):
    from pygsp import graphs
    if case['kind'] == 'bank':
        return run_bank(case, ctx)
    if case['kind'] == 'pair':
        Ws = [ref.arr(case['A']), ref.arr(case['B'])]
        table = ops(len(Ws[0]))
        for seq in case['seqs']:
            Gs = [graphs.Graph(W.copy()) for W in Ws]
            lts = ['combinatorial', 'combinatorial']
            ctx.trace()
            ctx.prefix = f'interleaving {seq} '
            for g, o in seq:
                v = table[o](Gs[g])
                ctx.op()
                if o == 'lap_n':
                    lts[g] = 'normalized'
                judge(o, v, Ws[g], lts[g], ctx)
            for g in (0, 1):
                ctx.state(Gs[g])
                observe(Gs[g], Ws[g], lts[g], ctx, signals={}, deep=len(seq) < 3)
        return
    W = ref.arr(case['W'])
    table = ops(len(W))
    root = graphs.Graph(W.copy(), lap_type=case['lt'])
    root.set_signal(np.arange(len(W)), 'kept')
    signals = {'kept': np.arange(len(W))}
    seen = {fingerprint(root)}
    queue = collections.deque([(root, [], case['lt'])])
    ctx.prefix = 'initial '
    observe(root, W, case['lt'], ctx, signals)
    cap = 4000
    while queue:
        G, hist, lt = queue.popleft()
        for o, f in table.items():
            H = copy.deepcopy(G)
            h2 = hist + [o]
            ctx.prefix = f'history {h2} '
            ctx.op()
            v = f(H)
            lt2 = dict(lap_c='combinatorial', lap_n='normalized').get(o, lt)
            judge(o, v, W, lt2, ctx)
            k = fingerprint(H)
            if k not in seen:
                seen.add(k)
                ctx.trace()
                observe(H, W, lt2, ctx, signals)
                if len(seen) < cap and not ctx.problems:
                    queue.append((H, h2, lt2))
    ctx.states |= seen
