"""P15: a graph saved to a file and loaded back is the same graph."""
import os
import shutil
import tempfile

import numpy as np

from . import gen, ref
from .p14 import sigs, check_import

BOUNDS = dict(
    quick='5 format x backend pairs x all undirected W with N<=3 over {0,1,2.5} x diagonal {0,1.5}, 0/1 N=4 (classes), directed N<=3 {0,1}, '
          'medium graphs; 8 numeric types; 14 signal sets; 16 extreme weights; every sequence of <=3 saves/loads over 2 graphs and 2 files; large named graphs (see DESIGN.md)',
    thorough='quick plus undirected N=4 {0,1,2.5}, directed N=3 {0,1,2.5}, sequences to depth 4')
CHUNK = 4
B = 12
ASSUMPTIONS = ['the same backend saves and loads; GML through graph-tool keeps six digits (documented)',
               'signal names are valid attribute names of the format (letters, digits, underscores, not id/label)']


def pairs():
    out = [('networkx', f) for f in ('graphml', 'gml', 'gexf')]
    try:
        import graph_tool  # noqa
        out += [('graph-tool', f) for f in ('graphml', 'gml')]
    except ImportError:
        pass
    return out


def cases(tier):
    g = []
    for n in (1, 2, 3):
        g += list(gen.undirected(n, (0, 1, 2.5), (0, 1.5) if n < 3 else None))
    g += gen.iso_classes(3, (0, 1), (0, 1.5)) + gen.iso_classes(4, (0, 1)) + list(gen.directed(3, (0, 1))) + list(gen.directed(2, (0, 1, 2.5), (0, 1.5)))
    if tier == 'thorough':
        g += list(gen.undirected(4, (0, 1, 2.5))) + list(gen.directed(3, (0, 1, 2.5)))
    for b, f in pairs():
        for k in range(0, len(g), B):
            yield dict(kind='round', backend=b, fmt=f, graphs=g[k:k + B])
        for name, W in gen.medium():
            yield dict(kind='round', backend=b, fmt=f, graphs=[W], id=f'{b}-{f}-{name}')
        for name in ('path130', 'quasi90', 'many', 'dirloops110', 'distinct1100') + (('quasi260', 'grid11x13') if tier == 'thorough' else ()):
            yield dict(kind='large', backend=b, fmt=f, name=name, id=f'large-{b}-{f}-{name}')
        for k in ('signals', 'values', 'dtypes'):
            yield dict(kind=k, backend=b, fmt=f, id=f'{k}-{b}-{f}')
        yield dict(kind='history', backend=b, fmt=f, depth=4 if tier == 'thorough' else 3, id=f'history-{b}-{f}')
    yield dict(kind='args', id='args')


def lossy(b, f):
    return b == 'graph-tool' and f == 'gml'


def six(x):
    """The six significant digits graph-tool writes in GML files."""
    x = np.asarray(x, dtype=float)
    return np.array([float('%.6g' % v) for v in x.ravel()]).reshape(x.shape)


def trip(G, b, f, path, ctx, W, signals, what, style=0):
    """Save and load in one of the equivalent ways of giving format and backend."""
    from pygsp import graphs
    ctx.op(2)
    ctx.trace()
    p = f'{path}.{f}'
    if style == 0:
        G.save(p, backend=b)
        G2 = graphs.Graph.load(p, backend=b)
    elif style == 1:
        G.save(path, fmt=f, backend=b)
        G2 = graphs.Graph.load(path, fmt=f, backend=b)
    else:
        G.save(p, f, b)
        G2 = graphs.Graph.load(p, f, b)
    check(G2, W, signals, b, f, ctx, what)
    check(G, W, signals, b, f, ctx, what + ': the saved graph', exact=True)
    return G2


def check(G2, W, signals, b, f, ctx, what, exact=False):
    from pygsp import graphs
    ctx.check(isinstance(G2, graphs.Graph), f'{what}: {type(G2).__name__} loaded')
    if lossy(b, f) and not exact:
        ctx.close(six(G2.W.toarray()), six(W), f'{what}: weights', tol=1e-9)
        ctx.check(sorted(G2.signals) == sorted(signals), f'{what}: signals {sorted(G2.signals)}, want {sorted(signals)}')
        for k, s in signals.items():
            if k in G2.signals:
                ctx.close(six(G2.signals[k]), six(s), f'{what}: signal {k}', tol=1e-9)
    else:
        check_import(G2, np.asarray(W, dtype=float), signals, ctx, what)


def make(W, signals, dtype=float):
    from pygsp import graphs
    G = graphs.Graph(np.array(W).astype(dtype))
    for k, s in signals.items():
        G.set_signal(s.copy(), k)
    return G


def run(case, ctx):
    d = tempfile.mkdtemp(prefix='mc15')
    try:
        _run(case, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(case, ctx, d):
    path = os.path.join(d, 'graph')
    b, f = case.get('backend'), case.get('fmt')
    if case['kind'] == 'round':
        for k, W in enumerate(case['graphs']):
            W = ref.arr(W)
            n = len(W)
            c = np.cos(np.arange(n) * 1.3) * 7
            ctx.prefix = f'W={W.tolist() if n < 8 else n} {b} {f} '
            for signals in ({}, dict(a=c, x=np.stack([c, -c, c * c], 1))):
                G = make(W, signals)
                G2 = trip(G, b, f, path, ctx, W, signals, 'round trip', style=k % 3)
                if signals:
                    trip(G2, b, f, path, ctx, G2.W.toarray(), {s: np.asarray(G2.signals[s]) for s in G2.signals}, 'second round trip')
                ctx.state(G2.W, b, f)
    elif case['kind'] == 'large':
        W = gen.large(case['name'])
        n = len(W)
        c = np.cos(np.arange(n) * 1.3) * 7
        for k, signals in enumerate((dict(a=c, x=np.stack([c, -c, c * c], 1)), dict(many=np.cos(np.arange(n * 23.)).reshape(n, 23), i=np.arange(n) * 1000 + 2 ** 20))):
            ctx.prefix = f'{case["name"]} {b} {f} '
            G2 = trip(make(W, signals), b, f, path, ctx, W, signals, 'round trip', style=k % 3)
            ctx.state(G2.W, b, f)
    elif case['kind'] == 'signals':
        for n in (1, 2, 4):
            W = ref.arr(gen.weighted(gen.path(n)))
            for i, signals in enumerate(sigs(n)):
                ctx.prefix = f'n={n} signals {sorted(signals)} {b} {f} '
                if f == 'gml' and 'v' in signals:
                    continue            # GML has no representation of NaN
                if f == 'gexf':
                    signals = {k: v for k, v in signals.items() if k not in ('weight', 'name')}
                G2 = trip(make(W, signals), b, f, path, ctx, W, signals, 'round trip', style=i % 3)
                ctx.state(sorted(signals), n, b, f)
    elif case['kind'] == 'values':
        vals = [1e-3, 1 / 3, 0.1 + 0.2, 1e-7, 123456.789, 2 ** 0.5, 1e5, 99999.999999] + \
            ([] if lossy(b, f) else [1e-300, 1e300, 5e-324, 1.7976931348623157e308, 2.0 ** 53 + 2, 1e16, 1e-5, 12345678.9])
        for v in vals:
            for n in (2, 3):
                W = ref.arr(gen.full(n, v))
                W[0, 1] = W[1, 0] = 1.
                ctx.prefix = f'value {v!r} {b} {f} '
                s = dict(a=np.array([v, -v, 1.])[:n], z=np.array([-0.25, 0, v])[:n])
                if v >= 1e300:
                    W = ref.arr(gen.path(n))
                trip(make(W, s), b, f, path, ctx, W, s, 'round trip')
                ctx.state(v, n)
    elif case['kind'] == 'dtypes':
        for dt in ('bool', 'int8', 'uint8', 'int32', 'int64', 'float32', 'float64', 'int16'):
            for W in (gen.path(3), [[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[1, 1], [1, 0]]):
                W = ref.arr(W) * (1 if dt == 'bool' else 3)
                n = len(W)
                s = dict(a=np.arange(n).astype(dt), b=np.array([[1, 0], [0, 1], [1, 1]])[:n].astype(dt))
                ctx.prefix = f'{dt} {b} {f} '
                trip(make(W, s, dt), b, f, path, ctx, W, s, 'round trip')
                ctx.state(dt, W)
    elif case['kind'] == 'history':
        history(case, ctx, d)
    else:
        args(ctx, d)


def history(case, ctx, d):
    """All sequences of saves and loads of two graphs and two files."""
    import itertools
    from pygsp import graphs
    b, f = case['backend'], case['fmt']
    A = ref.arr(gen.weighted(gen.path(4)))
    A = np.round(A, 3)
    C = ref.arr([[0, 2, 0], [0, 0, 1.5], [0, 0, 1]])
    models = [(A, dict(a=np.array([1., -2, 3, .5]))), (C, dict(x=np.array([[1., 2], [3, 4], [5, 6]])))]
    ops = [('save', g, p) for g in (0, 1) for p in (0, 1)] + [('load', g, p) for g in (0, 1) for p in (0, 1)]
    for seq in itertools.product(ops, repeat=case['depth']):
        objs = [make(*m) for m in models]
        cur = list(models)
        files = [None, None]
        ctx.prefix = f'{b} {f} {seq} '
        ctx.trace()
        for op, g, p in seq:
            path = os.path.join(d, f'f{p}.{f}')
            ctx.op()
            if op == 'save':
                objs[g].save(path, backend=b)
                files[p] = cur[g]
            elif files[p] is None:
                break
            else:
                objs[g] = graphs.Graph.load(path, backend=b)
                cur[g] = files[p]
        for g in (0, 1):
            check(objs[g], *cur[g], b, f, ctx, f'graph {g}')
        ctx.state([len(c[0]) for c in cur], [None if x is None else len(x[0]) for x in files])
        for p in (0, 1):
            path = os.path.join(d, f'f{p}.{f}')
            if os.path.exists(path):
                os.remove(path)


def args(ctx, d):
    from pygsp import graphs
    W = ref.arr(gen.weighted(gen.path(4)))
    s = dict(a=np.arange(4.))
    G = make(W, s)
    for ext in ('', '.txt', '.graphm', '.GML', '.npz', '.dot'):
        p = os.path.join(d, 'x' + ext)
        ctx.raises(lambda: G.save(p), f'saved to {ext!r}')
        ctx.check(not os.path.exists(p), f'a file was left behind for {ext!r}')
        with open(p, 'w') as fh:
            fh.write('nothing')
        ctx.raises(lambda: graphs.Graph.load(p), f'loaded from {ext!r}')
    for f in ('graphml', 'gml', 'gexf'):
        p = os.path.join(d, 'y.' + f)
        ctx.raises(lambda: G.save(p, fmt='pickle'), 'saved in an unknown format')
        ctx.raises(lambda: G.save(p, backend='igraph'), 'saved with an unknown backend')
        ctx.check(not os.path.exists(p), 'a file was left behind')
        ctx.raises(lambda: graphs.Graph.load(p), 'loaded a missing file')
        G.save(p)                          # automatic backend
        for q in (p, os.path.join(d, 'no_extension')):
            G.save(q, fmt=f)
            check_import(graphs.Graph.load(q, fmt=f), W, s, ctx, f'automatic backend {f}')
            check_import(graphs.Graph.load(q, f, 'networkx'), W, s, ctx, f'automatic backend is networkx {f}')
        with open(p) as fh:
            before = fh.read()
        ctx.raises(lambda: graphs.Graph.load(p, fmt='pickle'), 'loaded an unknown format')
        ctx.raises(lambda: graphs.Graph.load(p, backend='igraph'), 'loaded with an unknown backend')
        with open(p) as fh:
            ctx.check(fh.read() == before, 'loading changed the file')
        ctx.op(10)
        ctx.trace()
        ctx.state(f)
    ctx.check(np.array_equal(G.W.toarray(), W) and sorted(G.signals) == ['a'], 'the graph changed')
