"""P29: the matrix and geometry helpers compute what they document, whatever the container and type of the numbers."""
import itertools
import logging

import numpy as np
from scipy import sparse

from . import gen, ref

BOUNDS = dict(
    quick='symmetrization: all matrices of size <=2 and a fixed slice of those of size 3 over 3-letter alphabets of 8 number types x 14 containers x 5 methods, medium and large graphs; distances: all point sets of <=3 points '
          'on lattices in 1 to 3 dimensions x 7 number types; scales: all pairs of a 9-letter alphabet of bounds x numbers of scales; all non-square shapes up to 4',
    thorough='a fifth of all matrices of size 3')
CHUNK = 2
ASSUMPTIONS = ['filling zeros is for non-negative matrices', 'data to rescale is not constant']
METHODS = ('average', 'maximum', 'fill', 'tril', 'triu')
TYPES = dict(bool=(0, 1), uint8=(0, 200, 255), int8=(0, 100, 127), uint16=(0, 60000, 3), int32=(0, 1, 2), int64=(0, 2, 5), float64=(0, .5, 2), float32=(0, .5, 2), negative=(0, -1.5, 2), scales=(0, 1e-9, 1e9), tiny=(0, 1e-300, 3e-300))
FORMS = ('dense', 'fortran', 'csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'dia', 'csr_array', 'csc_array', 'coo_array', 'lil_array', 'strided')


def build(A, form):
    if form == 'dense':
        return np.array(A)
    if form == 'fortran':
        return np.asfortranarray(A)
    if form == 'strided':
        return np.repeat(np.repeat(A, 2, 0), 2, 1)[::2, ::2]
    f = getattr(sparse, form if form.endswith('_array') else form + '_matrix')
    return f(A)


def symmetric(A, method):
    """By the definitions, entry by entry."""
    A = np.asarray(A, dtype=float)
    n = len(A)
    B = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a, b = A[i, j], A[j, i]
            if method == 'average':
                B[i, j] = (a + b) / 2
            elif method == 'maximum':
                B[i, j] = max(a, b)
            elif method == 'fill':
                B[i, j] = (a + b) / 2 if a > 0 and b > 0 else max(a, b)
            elif method == 'tril':
                B[i, j] = A[max(i, j), min(i, j)]
            else:
                B[i, j] = A[min(i, j), max(i, j)]
    return B


def cases(tier):
    t = tier == 'thorough'
    for ty in TYPES:
        for form in FORMS:
            yield dict(kind='symmetrize', type=ty, form=form, step=5 if t else 211, id=f'symmetrize-{ty}-{form}')
    for name, W in gen.medium():
        yield dict(kind='graphs', W=W, id='graphs-' + name)
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='graphs', name=name, id='graphs-' + name)
    for ty in ('uint8', 'int8', 'int64', 'float64', 'float32', 'bool', 'uint16'):
        for d in (1, 2, 3):
            yield dict(kind='distances', type=ty, d=d, id=f'distances-{ty}-{d}')
    yield dict(kind='rescale', id='rescale')
    yield dict(kind='scales', id='scales')
    yield dict(kind='reject', id='reject')
    yield dict(kind='logger', id='logger')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def dense(M):
    return M.toarray() if sparse.issparse(M) else np.asarray(M)


def one(A, form, m, ctx, what):
    from pygsp import utils
    X = build(A, form)
    was = dense(X).copy()
    ctx.op()
    ctx.prefix = f'{what} {form} {m}: '
    r = utils.symmetrize(X, m)
    if not ctx.check(sparse.issparse(r) == sparse.issparse(X), f'result of type {type(r).__name__}', key='container'):
        return
    r = dense(r)
    w = symmetric(A, m)
    if not ctx.close(np.asarray(r, dtype=float), w, 'symmetrized', tol=1e-6 if A.dtype == np.float32 else 1e-14, scale=max(1, np.abs(w).max(initial=0)), key='value'):
        return
    ctx.check((np.abs(r - w) <= 1e-6 * np.abs(w)).all(), f'{r.tolist() if len(r) < 4 else "an entry"} is far from {w.tolist() if len(r) < 4 else "its value"}, relatively', key='relative')
    ctx.check((r == r.T).all(), 'the result is not symmetric', key='symmetric')
    ctx.check((dense(X) == was).all(), 'the argument changed', key='argument')
    again = dense(utils.symmetrize(build(r, form), m))
    ctx.close(np.asarray(again, dtype=float), w, 'symmetrized again', tol=1e-6 if A.dtype == np.float32 else 1e-14, scale=max(1, np.abs(w).max(initial=0)), key='idempotent')


def run_symmetrize(case, ctx):
    ty = case['type']
    vals = TYPES[ty]
    dt = float if ty in ('negative', 'scales', 'tiny') else np.dtype(ty)
    for n in (1, 2, 3):
        for v in itertools.islice(itertools.product(vals, repeat=n * n), 0, None, case['step'] if n == 3 and len(vals) > 2 else 1 if n < 3 else 5):
            A = np.array(v, dtype=dt).reshape(n, n)
            for m in METHODS:
                if m != 'fill' or ty != 'negative':
                    one(A, case['form'], m, ctx, A.tolist())
            ctx.state(v)
        ctx.trace()


def run_graphs(case, ctx):
    W = ref.arr(gen.large(case['name']) if case.get('name') else case['W'])
    n = len(W)
    half = W * ((np.add.outer(np.arange(n) * 3, np.arange(n) * 5) % 7) != 2) * np.where(np.add.outer(np.arange(n), 2 * np.arange(n)) % 3 == 0, 1, 2.5)
    for A in (W, half) + ((half.astype(int),) if n < 50 else ()):
        for form in ('dense', 'csr', 'csc', 'coo') + (('lil', 'dok') if n < 50 else ()):
            for m in METHODS:
                one(A, form, m, ctx, f'{n} vertices')
    ctx.state(half)
    ctx.trace()


def run_distances(case, ctx):
    from pygsp import utils
    d, dt = case['d'], np.dtype(case['type'])
    vals = dict(bool=(0, 1), uint8=(0, 3, 250), int8=(-120, 0, 100), uint16=(0, 60000), int64=(-3, 0, 70000), float64=(-1.5, 0, 2.25), float32=(-1.5, 0, 2.25))[case['type']]
    pts = list(itertools.product(vals, repeat=d))
    if len(pts) > 9:
        pts = pts[::3]
    tol = 1e-3 if dt == np.float32 else 2e-6      # sqrt of the cancellation error
    for a, b in itertools.product((1, 2, 3), repeat=2):
        for k, (p, q) in enumerate(itertools.product(itertools.product(pts, repeat=a), itertools.product(pts[::-1], repeat=b))):
            if a + b > 2 and k % (3 if a + b < 4 else 101):
                continue
            X, Y = np.array(p, dtype=dt).T.reshape(d, a), np.array(q, dtype=dt).T.reshape(d, b)
            want = np.sqrt(((X[:, :, None].astype(float) - Y[:, None, :].astype(float)) ** 2).sum(0))
            sc = max(1, np.abs(X.astype(float)).max(), np.abs(Y.astype(float)).max()) * 2
            ctx.prefix = f'{dt} {X.tolist()} {Y.tolist()}: '
            ctx.op(2)
            was = X.copy(), Y.copy()
            ctx.close(utils.distanz(X, Y), want, 'distances', tol=tol, scale=sc, key='distance')
            ctx.check((X == was[0]).all() and (Y == was[1]).all() and X.shape == was[0].shape, 'the points changed', key='argument')
            if a == b and k % 5 == 0:
                want = np.sqrt(((X[:, :, None].astype(float) - X[:, None, :].astype(float)) ** 2).sum(0))
                ctx.close(utils.distanz(X), want, 'distances within', tol=tol, scale=sc, key='within')
            if d == 1:
                want = np.abs(X.astype(float).ravel()[:, None] - Y.astype(float).ravel()[None])
                for x, y in ((X.ravel(), Y.ravel()), (X, Y.ravel()), (X.ravel(), Y)):
                    ctx.op()
                    ctx.close(utils.distanz(x, y), want, 'distances of numbers', tol=tol, scale=sc, key='vector')
        ctx.state(a, b)
        ctx.trace()


def run_rescale(case, ctx):
    from pygsp import utils
    for d, n in itertools.product((1, 2, 3), (2, 3, 4)):
        for v in itertools.product((-2, 0, 1.5, 7), repeat=d * n) if d * n <= 4 else itertools.islice(itertools.product((-2, 0, 1.5, 7), repeat=d * n), 1, None, 4 ** (d * n - 4) - 1):
            X = np.array(v).reshape(d, n)
            c = X - X.mean(1, keepdims=True)
            if c.max() < 1e-9:
                continue
            ctx.op()
            for Y in (X, np.asfortranarray(X)) + ((X.astype(int),) if (X == X.astype(int)).all() else ()):
                was = Y.copy()
                ctx.close(utils.rescale_center(Y), c / c.max(), f'{v}: rescaled', tol=1e-12, key='rescale')
                ctx.check((Y == was).all() and Y.dtype == was.dtype, f'{v}: the points to rescale changed', key='argument')
            ctx.state(v)
        ctx.trace()


def run_scales(case, ctx):
    from pygsp import utils
    A = (1e-6, 1e-3, .1, .5, 1, 2, 10, 1e3, 1e6)
    for lo, hi in itertools.product(A, A):
        for n in (1, 2, 3, 6, 30):
            for t1, t2 in ((1, 2), (.5, 1), (2, 2), (3, .1)):
                s = utils.compute_log_scales(lo, hi, n, t1, t2) if (t1, t2) != (1, 2) else utils.compute_log_scales(lo, hi, n)
                ctx.op()
                ctx.prefix = f'{lo} {hi} {n} {t1} {t2}: '
                a, b = t2 / lo, t1 / hi
                want = np.array([a * (b / a) ** (i / (n - 1)) for i in range(n)]) if n > 1 else np.array([a])
                if ctx.check(np.shape(s) == (n,), f'shape {np.shape(s)}', key='scales'):
                    ctx.close(np.asarray(s) / want, np.ones(n), 'scales', tol=1e-9, key='scales')
        ctx.state(lo, hi)
    ctx.trace()


def run_reject(case, ctx):
    from pygsp import utils
    for a, b in itertools.product(range(1, 5), repeat=2):
        for f in FORMS:
            for m in METHODS:
                if a != b:
                    ctx.raises(lambda: utils.symmetrize(build(np.ones((a, b)), f), m), f'{a}x{b} {f} {m}: not square, accepted', ValueError, key='square')
                ctx.op()
        if a != b:
            for k in (1, 3):
                ctx.op()
                ctx.raises(lambda: utils.distanz(np.ones((a, k)), np.ones((b, k))), f'points of dimensions {a} and {b} accepted', ValueError, key='dimensions')
    for m in ('', 'mean', 'max', 'Average', 'tri', None, 3):
        for f in FORMS:
            ctx.op()
            ctx.raises(lambda: utils.symmetrize(build(np.eye(2), f), m), f'method {m!r} accepted', ValueError, key='method')
    ctx.trace()
    ctx.state('reject')


def run_logger(case, ctx):
    """One message is written once, however many loggers of that name were asked for."""
    from pygsp import utils
    for k in (1, 2, 5):
        name = f'verif.check.{k}'
        ls = [utils.build_logger(name) for _ in range(k)]
        ctx.op(k)
        ctx.check(all(l is ls[0] for l in ls) and len(ls[0].handlers) == 1, f'{k} requests: {len(ls[0].handlers)} handlers', key='handlers')
        ls[0].handlers.clear()
        logging.Logger.manager.loggerDict.pop(name, None)
    ctx.trace()
    ctx.state('logger')
