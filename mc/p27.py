"""P27: plots show the data: every vertex, edge, value and response where and as documented."""
import itertools
import os
import subprocess
import sys

import numpy as np

from . import gen, ref
from .core import REPO, ROOT, Skip
from .obs import same, snapshot

BOUNDS = dict(
    quick='all pairs of values of 12 plotting options (59 values) on 3 graphs; all graphs with <=3 vertices (loops, directed) and 4 vertices up to isomorphism, large graphs; '
          'all 0/1/2 signals on 4 vertices as color, size, edge color and width; 1-D plots; all wrong lengths; all pairs of plotting defaults; '
          '36 filter banks x options; pyqtgraph items in a child process',
    thorough='all triples of options, 5-vertex graphs, all 0/1/2/3 signals on 5 vertices')
CHUNK = 2
ASSUMPTIONS = ['matplotlib draws the artists it is given', 'signals that cannot be read as a color (a list of 3 or 4 numbers in [0, 1] is a color)', '1-D plots need a signal and have no indices']


def plt():
    os.environ['MPLBACKEND'] = 'agg'
    try:
        import matplotlib
        matplotlib.use('agg')
        from matplotlib import pyplot
        pyplot.figure
    except Exception:
        raise Skip('no matplotlib')
    return pyplot


# option values; functions take the numbers of vertices and edges
def sig(n, k=0):
    return np.array([(3 * i + k) % 7 * 1.25 - 2.5 for i in range(n)])


OPTIONS = dict(
    vertex_color=[None, 'red', (.1, .2, .3), (.1, .2, .3, .9), '#00ff00', lambda n, m: sig(n), lambda n, m: sig(n).tolist(), lambda n, m: np.arange(n) + 40, lambda n, m: -np.arange(n) * .01 - 5,
                  lambda n, m: np.full(n, 2.), lambda n, m: sig(n) * 1e-10, lambda n, m: sig(n)[:, None], lambda n, m: np.arange(n) % 2 == 0, lambda n, m: ['blue', 'C1', 'k', 'red', '0.5'][:n] + ['g'] * (n - 5), lambda n, m: np.linspace(.1, .9, 4 * n).reshape(n, 4)],
    vertex_size=[None, 30, 2.5, lambda n, m: sig(n, 1), lambda n, m: sig(n, 1) * 1e-11, lambda n, m: np.full(n, 3), lambda n, m: sig(n, 2).tolist(), lambda n, m: np.arange(n)[None] if n > 1 else np.arange(n)],
    highlight=[[], 0, np.int64(1), [1], [0, 2], (1,), (0, 1), (2, 0, 1), lambda n, m: range(n), lambda n, m: np.array([2, 0]), [1, 1]],
    edges=[None, True, False],
    edge_color=[None, 'k', (.4, .3, .2), lambda n, m: sig(m, 3), lambda n, m: sig(m, 3) * 1e-9, lambda n, m: np.full(m, 2.), lambda n, m: np.linspace(0, 1, 4 * m).reshape(m, 4)],
    edge_width=[None, 3, lambda n, m: sig(m, 4), lambda n, m: sig(m, 4) * 1e-12, lambda n, m: np.full(m, 7), lambda n, m: sig(m, 5)[:, None]],
    indices=[False, True], colorbar=[True, False], limits=[None, [-1., 2.], (0, 10), np.array([-3., -1.])], title=[None, 'a title', ''], own_ax=[False, True],
    backend=[None, 'matplotlib'])


def value(v, n, m):
    return v(n, m) if callable(v) else v


def cases(tier):
    t = tier == 'thorough'
    names = list(OPTIONS)
    pick = list(itertools.combinations(names, 3 if t else 2))
    for g, dim in itertools.product(range(3), (2, 3)) if t else [(0, 2), (1, 3), (2, 2)]:
        for k in range(0, len(pick), 3):
            yield dict(kind='options', g=g, dim=dim, pick=pick[k:k + 3], id=f'options-{g}-{dim}-{k}')
    gs = []
    for n in (1, 2, 3):
        gs += list(gen.undirected(n, (0, 1), (0, 1.5))) + (list(gen.directed(n, (0, 1))) if n > 1 else [])
    gs += gen.iso_classes(4, (0, 1)) + (gen.iso_classes(5, (0, 1)) if t else [])
    for k in range(0, len(gs), 12):
        yield dict(kind='graphs', graphs=gs[k:k + 12], id=f'graphs-{k // 12}')
    for name in gen.LARGE + gen.HUGE:
        yield dict(kind='graphs', graphs=[], name=name, id='large-' + name)
    yield dict(kind='many', id='many')
    for dim in (2, 3):
        yield dict(kind='signals', dim=dim, n=5 if t else 4, letters=(0, 1, 2.5, 7) if t else (0, 1, 2.5), id=f'signals-{dim}')
    for n in (1, 2, 3, 4, 6):
        yield dict(kind='line', n=n, id=f'line-{n}')
    yield dict(kind='reject', id='reject')
    for dim in (2, 3):
        for a in list(DEFAULTS)[:-1]:
            yield dict(kind='defaults', dim=dim, a=a, both=t, id=f'defaults-{dim}-{a}')
    yield dict(kind='handles', depth=4 if t else 3, id='handles')
    for k in range(6):
        yield dict(kind='filters', k=k, id=f'filters-{k}')
    for dim in (2, 3):
        yield dict(kind='qt', dim=dim, id=f'qt-{dim}')


def run(case, ctx):
    plt()
    globals()['run_' + case['kind']](case, ctx)
    plt().close('all')
    axes.fig = None


def points(n, dim):
    return np.array([[np.cos(1.3 * i + d) * (1 + i) for d in range(dim)] for i in range(n)])


def graph(W, dim, **kw):
    from pygsp import graphs
    return graphs.Graph(ref.arr(W), coords=points(len(W), dim), **kw)


def axes(dim):
    p = plt()
    if getattr(axes, 'fig', None) is None:
        axes.fig = p.figure()
    axes.fig.clf()
    return axes.fig.add_subplot(111, projection='3d') if dim == 3 else axes.fig.add_subplot(111)


def scatters(ax):
    from matplotlib.collections import PathCollection
    return sorted([c for c in ax.collections if isinstance(c, PathCollection)], key=lambda c: c.get_zorder())


def lines(ax):
    from matplotlib.collections import LineCollection
    return [c for c in ax.collections if isinstance(c, LineCollection)]


def where(c, dim):
    if dim == 3:
        return np.array([np.asarray(v, dtype=float) for v in c._offsets3d]).T.reshape(-1, 3)
    return np.asarray(c.get_offsets(), dtype=float)


def segments(c, dim):
    return np.array(c._segments3d if dim == 3 else c.get_segments(), dtype=float).reshape(-1, 2, dim)


def scaled(x, lo):
    x = np.asarray(x, dtype=float).squeeze()
    x = np.atleast_1d(x)
    p = x.max() - x.min()
    return np.full(len(x), .5) if p == 0 else lo + (1 - lo) * (x - x.min()) / p


def is_signal(v):
    import matplotlib.colors as mc
    if v is None or isinstance(v, str):
        return False
    a = np.asarray(v)
    return a.dtype.kind in 'biuf' and a.squeeze().ndim <= 1 and not mc.is_color_like(v)


def draw(G, opts, dim, ctx, key=''):
    """Plot with the options and compare everything drawn."""
    import matplotlib.colors as mc
    n, m = G.N, G.Ne
    kw = {k: value(v, n, m) for k, v in opts.items() if k != 'own_ax'}
    p = plt()
    figs = len(p.get_fignums())
    ax = None
    if not opts.get('own_ax'):
        ax = kw['ax'] = axes(dim)
        figs = len(p.get_fignums())
    ctx.op()
    call = G.plot_signal if len(opts) % 2 and G.N % 2 else G.plot      # the old name does the same
    if call == G.plot_signal and 'vertex_color' in kw:
        fig, got = call(kw['vertex_color'], **{k: v for k, v in kw.items() if k != 'vertex_color'})
    else:
        fig, got = call(**kw)
    try:
        if ax is None:
            ctx.check(len(p.get_fignums()) == figs + 1, 'no new figure', key='figure')
            ctx.check(hasattr(got, 'get_zlim') == (dim == 3), 'wrong projection', key='figure')
        else:
            ctx.check(got is ax and len(p.get_fignums()) == figs, 'the given axes are not those used', key='figure')
        ctx.check(fig is got.figure, 'figure and axes do not belong together', key='figure')
        ax = got
        P = G.plotting
        sc = scatters(ax)
        coords = np.asarray(G.coords, dtype=float)
        if not ctx.check(len(sc) >= 1, 'no vertices drawn', key='vertices'):
            return
        v = sc[0]
        ctx.close(where(v, dim), coords, 'positions of the vertices', tol=1e-12, scale=10, key='vertices')
        # vertex color
        c = kw.get('vertex_color')
        signal = is_signal(c)
        if signal:
            x = np.atleast_1d(np.asarray(c, dtype=float).squeeze())
            a = v.get_array()
            if ctx.check(a is not None, 'the signal is not shown', key='signal'):
                ctx.close(np.asarray(a, dtype=float), x, 'values of the vertices', tol=0, key='signal')
            lim = kw.get('limits')
            lim = [x.min(), x.max()] if lim is None else lim
            got_lim = v.get_clim()
            if lim[0] == lim[1]:    # matplotlib widens an empty range
                ctx.check(got_lim[0] <= lim[0] <= got_lim[1], f'limits of the colors {got_lim}', key='limits')
            else:
                ctx.close(np.array(got_lim, dtype=float), np.array(lim, dtype=float), 'limits of the colors', tol=1e-12, scale=50, key='limits')
        else:
            ctx.check(v.get_array() is None, 'colors shown as a signal', key='color')
            want = mc.to_rgba_array(P['vertex_color'] if c is None else c)[:, :3]
            have = np.asarray(v.get_facecolors())[:, :3] if dim == 2 else mc.to_rgba_array(v._facecolor3d if hasattr(v, '_facecolor3d') else v.get_facecolors())[:, :3]
            if dim == 3 and len(have) == n - 1 and len(want) == n:
                have, want = have[:n - 1], want[:n - 1]     # until it is drawn, mplot3d leaves out the last one
                ctx.close(have, want, 'colors of the vertices', tol=1e-9, key='color')
            elif len(have) in (1, len(want)) or len(want) == 1:
                ctx.close(have * np.ones((n, 1)), want * np.ones((n, 1)), 'colors of the vertices', tol=1e-9, key='color')
            else:
                ctx.check(False, f'{len(have)} colors for {n} vertices', key='color')
        bar = signal and kw.get('colorbar', True)
        ctx.check(len(ax.figure.axes) == 1 + bool(bar), f'{len(ax.figure.axes) - 1} colorbars', key='colorbar')
        # vertex size
        s = kw.get('vertex_size')
        base = P['vertex_size']
        want = np.full(n, base if s is None else s, dtype=float) if s is None or np.isscalar(s) else base * 4 * scaled(s, P['normalize_intercept']) ** 2
        size = np.asarray(v.get_sizes() if dim == 2 else v._sizes3d, dtype=float) * np.ones(n)
        ctx.close(size, want, 'sizes of the vertices', tol=1e-9, scale=400, key='size')
        # edges
        lc = lines(ax)
        e = kw.get('edges')
        s_, t_, w_ = G.get_edge_list()
        if (m < 10000) if e is None else e:
            if ctx.check(len(lc) == 1, f'{len(lc)} collections of edges', key='edges'):
                seg = segments(lc[0], dim)
                ctx.close(seg, np.stack([coords[s_], coords[t_]], 1).reshape(-1, 2, dim), 'segments of the edges', tol=1e-12, scale=10, key='edges')
                ec = kw.get('edge_color')
                if is_signal(ec) and m:
                    rgb = mc.to_rgba(P['edge_color'])[:3]
                    want = np.array([rgb + (a,) for a in .9 * scaled(ec, P['normalize_intercept'])])
                else:
                    want = mc.to_rgba_array(P['edge_color'] if ec is None else ec)
                have = np.asarray(lc[0].get_colors() if dim == 2 else lc[0]._edgecolor if hasattr(lc[0], '_edgecolor') else lc[0].get_colors())
                have = np.asarray(have)
                if m and ctx.check(len(have) in (1, m), f'{len(have)} colors for {m} edges', key='edge-color'):
                    ctx.close(have * np.ones((m, 1)), want * np.ones((m, 1)), 'colors of the edges', tol=1e-9, key='edge-color')
                ew = kw.get('edge_width')
                want = np.full(m, P['edge_width'] if ew is None else ew, dtype=float) if ew is None or np.isscalar(ew) else P['edge_width'] * 2 * scaled(ew, P['normalize_intercept'])
                have = np.asarray(lc[0].get_linewidths(), dtype=float)
                if m and ctx.check(len(have) in (1, m), f'{len(have)} widths for {m} edges', key='edge-width'):
                    ctx.close(have * np.ones(m), want, 'widths of the edges', tol=1e-9, scale=4, key='edge-width')
                solid = str(P['edge_style']) in ('-', 'solid')
                ls = lc[0].get_linestyles()
                ctx.check(len(ls) == 0 or (ls[0][1] is None) == solid, f'style {ls} of the edges', key='edge-style')
        else:
            ctx.check(len(lc) == 0 or all(len(segments(c, dim)) == 0 for c in lc), 'edges drawn', key='edges')
        # highlights
        hl = kw.get('highlight', [])
        hl = [int(h) for h in (hl if np.ndim(hl) or isinstance(hl, (set, range)) else [hl])]
        hs = [c for c in sc[1:] if len(where(c, dim))]
        have = np.concatenate([where(c, dim) for c in hs]) if hs else np.zeros((0, dim))
        if ctx.check(len(have) == len(hl), f'{len(have)} vertices highlighted instead of {len(hl)}', key='highlight') and hl:
            ctx.close(have, coords[hl], 'positions of the highlights', tol=1e-12, scale=10, key='highlight')
            hsz = np.asarray(hs[0].get_sizes() if dim == 2 else hs[0]._sizes3d, dtype=float) * np.ones(len(hl))
            ctx.check((hsz > size[hl] - 1e-9).all(), 'a highlight is hidden by its vertex', key='highlight-size')
            col = np.asarray(hs[0].get_edgecolors())[:, :3] * np.ones((len(hl), 1))
            ctx.close(col, np.tile(mc.to_rgb(P['highlight_color']), (len(hl), 1)), 'color of the highlights', tol=1e-9, key='highlight-color')
        if dim == 3 and {'elevation', 'azimuth', 'distance'} <= set(P):
            ctx.check((ax.elev, ax.azim) == (P['elevation'], P['azimuth']), f'seen from {ax.elev}, {ax.azim}', key='view')
        # indices
        tx = [t for t in ax.texts if t.get_text() != '']
        if kw.get('indices'):
            if ctx.check([t.get_text() for t in tx] == [str(i) for i in range(n)], f'indices {[t.get_text() for t in tx][:9]}', key='indices'):
                pos = np.array([t.get_position_3d() if dim == 3 else t.get_position() for t in tx], dtype=float).reshape(-1, dim) if dim == 2 or hasattr(tx[0], 'get_position_3d') else coords
                ctx.close(pos, coords, 'positions of the indices', tol=1e-12, scale=10, key='indices')
        else:
            ctx.check(not tx, 'indices drawn', key='indices')
        title = kw.get('title')
        ctx.check(ax.get_title() == (G.__repr__(limit=4) if title is None else title), f'title {ax.get_title()!r}', key='title')
    finally:
        if opts.get('own_ax'):
            p.close(fig)


GRAPHS = [gen.weighted(gen.grid(2, 3)), [[0, 1, 0, 2, 0], [0, .5, 3, 0, 0], [0, 3, 0, 0, 0], [0, 0, 1, 0, 2.5], [0, 0, 0, 0, 0]], gen.weighted(gen.full(7))]


def run_options(case, ctx):
    dim = case['dim']
    G = graph(GRAPHS[case['g']], dim)
    before = snapshot(G)
    for names in case['pick']:
        for vals in itertools.product(*(range(len(OPTIONS[k])) for k in names)):
            opts = {k: OPTIONS[k][v] for k, v in zip(names, vals)}
            args = {k: value(v, G.N, G.Ne) for k, v in opts.items()}
            copies = {k: v.copy() if isinstance(v, (np.ndarray, list)) else v for k, v in args.items()}
            ctx.prefix = f'{G.N} vertices {dim}-D {dict(zip(names, vals))} '
            draw(G, args, dim, ctx)
            for k in args:
                if isinstance(copies[k], (np.ndarray, list)):
                    ctx.check(np.array_equal(np.asarray(args[k], dtype=object), np.asarray(copies[k], dtype=object)), f'{k} was modified', key='argument')
        ctx.trace()
        ctx.state(case['g'], dim, names)
    same(before, snapshot(G), ctx, 'plotting')


def run_graphs(case, ctx):
    for g in case['graphs'] or [gen.large(case['name'])]:
        W = ref.arr(g)
        for dim in (2, 3):
            G = graph(W, dim, **(dict(plotting=dict(elevation=12, azimuth=-75, distance=8)) if len(W) % 2 else {}))
            ctx.prefix = f'W={g if len(W) < 6 else len(W)} {dim}-D '
            n, m = G.N, G.Ne
            before = snapshot(G) if n < 30 and gen.has_edge(W) else None
            draw(G, {}, dim, ctx)
            draw(G, dict(vertex_color=np.arange(n) * 2. + 3, vertex_size=np.arange(n)[::-1], indices=n < 20, highlight=[n - 1]), dim, ctx)
            if m:
                draw(G, dict(edge_color=np.arange(m) + 5., edge_width=np.arange(m) * 1.), dim, ctx)
            if before:
                same(before, snapshot(G), ctx, 'plotting')
            ctx.trace()
            ctx.state(W, dim)


def run_many(case, ctx):
    """Edges are drawn by default below 10,000 only."""
    n = 142
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for m in (9998, 9999, 10000, 10001):
        W = np.zeros((n, n))
        for i, j in pairs[:m]:
            W[i, j] = W[j, i] = 1
        G = graph(W, 2)
        for e in (None, True, False):
            ctx.prefix = f'{m} edges, edges={e} '
            draw(G, dict(edges=e), 2, ctx)
        ctx.state(m)
    ctx.trace()


def run_signals(case, ctx):
    n, dim = case['n'], case['dim']
    G = graph(gen.ring(n), dim)
    for x in itertools.product(case['letters'], repeat=n):
        if max(x) <= 1:
            continue
        ctx.prefix = f'signal {x} {dim}-D '
        x = np.array(x)
        draw(G, dict(vertex_color=x, vertex_size=x, edge_color=x, edge_width=x, colorbar=False), dim, ctx)
        ctx.state(x)
    ctx.trace()


def run_line(case, ctx):
    """One-dimensional coordinates: the signals are curves over the line."""
    from pygsp import graphs
    n = case['n']
    for coords in (np.arange(n), np.arange(n)[::-1] * 1.5 + 2, np.cos(np.arange(n) * 2.)):
        for nm, x in (('one', sig(n)), ('positive', np.arange(n) + 30.), ('constant', np.full(n, 3.)), ('negative', -np.arange(n) - 2.), ('unit', np.arange(n) / max(1, n - 1) * .8 + .1), ('list', sig(n).tolist()),
                      ('two', np.stack([sig(n), np.arange(n)], 1)), ('three', np.linspace(0, 1, 3 * n).reshape(n, 3)), ('four', np.linspace(.2, .7, 4 * n).reshape(n, 4)), ('ints', np.arange(n) * 2)):
            if n == 1 and np.ndim(x) == 2 or n == 1:
                continue
            for hl in ([], [0], 1, [0, n - 1], (1, 0)):
                for lim in (None, [-1, 2]):
                    G = graphs.Graph(gen.path(n))
                    G.set_coordinates(coords)
                    before = snapshot(G)
                    ctx.prefix = f'{n} vertices on a line, signal {nm}, highlight {hl}, limits {lim} '
                    ctx.op()
                    ax = axes(2)
                    fig, got = G.plot(x, highlight=hl, limits=lim, ax=ax)
                    X = np.asarray(x, dtype=float).reshape(n, -1)
                    ls = [l for l in ax.lines if len(l.get_xdata()) == n and not (len(set(l.get_xdata())) == 1 and n > 1)]
                    if ctx.check(len(ls) == X.shape[1], f'{len(ls)} curves for {X.shape[1]} signals', key='curves'):
                        for i, l in enumerate(ls):
                            ctx.close(np.asarray(l.get_xdata(), dtype=float), coords.astype(float), 'coordinates', tol=0, key='curve-x')
                            ctx.close(np.asarray(l.get_ydata(), dtype=float), X[:, i], f'signal {i}', tol=0, key='curve-y')
                    lo, hi = ax.get_ylim()
                    if lim is not None:
                        ctx.close(np.array([lo, hi]), np.array(lim, dtype=float), 'limits', tol=1e-9, key='line-limits')
                    else:
                        ctx.check(lo <= X.min() and X.max() <= hi, f'values from {X.min()} to {X.max()} drawn between {lo} and {hi}', key='line-visible')
                        ctx.check(hi - lo <= 1.5 * max(X.max() - X.min(), .1 * np.abs(X).max()) + 1e-9, f'values from {X.min()} to {X.max()} drawn between {lo} and {hi}', key='line-zoom')
                    at = [float(l.get_xdata()[0]) for l in ax.lines if l not in ls]
                    want = [coords[h] for h in (hl if np.ndim(hl) else [hl])]
                    ctx.check(sorted(at) == sorted(float(w) for w in want), f'highlights at {at}, want {want}', key='line-highlight')
                    same(before, snapshot(G), ctx, '1-D plot')
                    ctx.state(nm, hl, lim)
        ctx.trace()


def run_reject(case, ctx):
    from pygsp import graphs
    for dim in (2, 3):
        for W in GRAPHS:
            G = graph(W, dim)
            n, m = G.N, G.Ne
            before = snapshot(G)
            for name, length in (('vertex_color', n), ('vertex_size', n), ('edge_color', m), ('edge_width', m)):
                for k in range(1, max(n, m) + 4):
                    if k == length or (k == 1 and name in ('vertex_size', 'edge_width')):
                        continue
                    ctx.op()
                    ctx.raises(lambda: G.plot(**{name: np.arange(k) + 2.}, ax=axes(dim)), f'{dim}-D {name} of length {k} accepted for {length}', ValueError, key='length-' + name)
                for bad in (np.ones((length, 2)) * 3, np.ones((2, length)) * 3, np.ones((length, length)) * 3, np.ones((length, 2, 2)) * 3):
                    ctx.op()
                    ctx.raises(lambda: G.plot(**{name: bad}, ax=axes(dim)), f'{dim}-D {name} of shape {bad.shape} accepted for {length}', ValueError, key='shape-' + name)
            for hl in (n, n + 3, [0, n]):
                ctx.raises(lambda: G.plot(highlight=hl, ax=axes(dim)), f'highlight {hl} accepted for {n} vertices', key='highlight-range')
            ctx.raises(lambda: G.plot(backend='none', ax=axes(dim)), 'unknown backend accepted', ValueError, key='backend')
            same(before, snapshot(G), ctx, 'a rejected plot')
            ctx.state(W, dim)
            for bad in (None, np.ones((n, 4)), np.ones((n, 1, 2)), np.ones((n + 1, 2)), np.ones((n - 1, 3)), np.ones((n, 1))):
                H = graphs.Graph(ref.arr(W))
                if bad is not None:
                    H.coords = bad
                ctx.op()
                ctx.raises(lambda: H.plot(), f'coordinates of shape {None if bad is None else bad.shape} accepted', AttributeError, key='coords')
    for k in (2, 3, 5, 7):
        G = graphs.Graph(gen.path(4))
        G.set_coordinates('line1D')
        ctx.raises(lambda: G.plot(np.arange(k) + 2., ax=axes(2)), f'1-D signal of length {k} accepted for 4', ValueError, key='length-1d')
    ctx.trace()


DEFAULTS = dict(vertex_size=[7, 55.5], vertex_color=['g', (.9, .1, .2), (.2, .3, .4, .6)], edge_color=[(.1, .2, .3), (.5, .1, .7, .2)], edge_width=[.5, 9], edge_style=['--', ':'],
                highlight_color=['r', (.3, .2, .1)], normalize_intercept=[0, .5, .9])


def run_defaults(case, ctx):
    """The options of the graph are what a plot uses unless told otherwise."""
    dim = case['dim']
    for a, b in itertools.combinations(DEFAULTS, 2):
        if a == case['a']:
            for c, (x, y) in enumerate(itertools.product(DEFAULTS[a], DEFAULTS[b])):
                for how in ('constructor', 'later') if case['both'] else ('constructor', 'later')[c % 2:][:1]:
                    o = {a: x, b: y}
                    if how == 'constructor':
                        G = graph(GRAPHS[1], dim, plotting=o)
                    else:
                        G = graph(GRAPHS[1], dim)
                        G.plotting.update(o)
                    n, m = G.N, G.Ne
                    ctx.prefix = f'{dim}-D defaults {o} {how} '
                    draw(G, dict(highlight=[2, 0]), dim, ctx)
                    draw(G, dict(vertex_color=sig(n), vertex_size=sig(n, 1), edge_color=sig(m, 2), edge_width=sig(m, 3), highlight=[1]), dim, ctx)
                    draw(G, dict(vertex_color='b', vertex_size=3, edge_color='y', edge_width=1), dim, ctx)
                    ctx.state(dim, o)
    ctx.trace()


def run_handles(case, ctx):
    """Figures are created when needed, kept until closed."""
    from pygsp import filters, graphs, plotting
    p = plt()
    p.close('all')
    plotting.close_all()
    G = graph(gen.ring(5), 2)
    h = filters.Heat(G)
    moves = dict(plot=lambda: G.plot(), filter=lambda: h.plot(), close=lambda: plotting.close(), close_all=lambda: plotting.close_all(), given=lambda: G.plot(ax=other))
    for seq in itertools.product(moves, repeat=case['depth']):
        p.close('all')
        plotting.close_all()
        of, other = p.subplots()
        figs = [of.number]
        mine = []
        ctx.trace()
        ok = True
        for mv in seq:
            ctx.op()
            if mv == 'given' and of.number not in figs:
                break
            r = moves[mv]()
            if mv in ('plot', 'filter'):
                new = [k for k in p.get_fignums() if k not in figs]
                ok = ctx.check(len(new) == 1 and r[0].number == new[0], f'{seq}: {mv} created {len(new)} figures', key='figures')
                figs += new
                mine += new
            elif mv == 'close':
                gone = [k for k in figs if k not in p.get_fignums()]
                ok = ctx.check(len(gone) == min(1, len(figs)) and (not gone or gone[0] == figs[-1]), f'{seq}: close() closed {len(gone)} figures', key='close')
                figs = [k for k in figs if k not in gone]
                mine = [k for k in mine if k not in gone]
            elif mv == 'close_all':
                gone = [k for k in figs if k not in p.get_fignums()]
                ok = ctx.check(set(gone) == set(mine), f'{seq}: close_all() closed {gone}, created {mine}', key='close-all')
                figs = [k for k in figs if k not in gone]
                mine = []
            else:
                ok = ctx.check(p.get_fignums() == sorted(figs), f'{seq}: plotting on given axes changed the figures', key='figures')
            if not ok:
                break
        ctx.state(seq)
    p.close('all')
    plotting.close_all()
    # axes of figures that pyplot does not manage
    from matplotlib.figure import Figure
    for kw in (dict(), dict(vertex_color=sig(5)), dict(vertex_color=sig(5), colorbar=False), dict(vertex_size=sig(5), indices=True)):
        f = Figure()
        ax = f.add_subplot(111)
        r = G.plot(ax=ax, **kw)
        ctx.op()
        ctx.check(r[0] is f and r[1] is ax and not p.get_fignums(), f'plotting {sorted(kw)} on given axes created figures {p.get_fignums()}', key='stray-figure')
        ctx.check(len(f.axes) == 1 + (sorted(kw) == ['vertex_color']), f'{len(f.axes)} axes', key='colorbar')
        p.close('all')


def banks(G):
    from pygsp import filters
    yield 'heat', filters.Heat(G, 3)
    yield 'heats', filters.Heat(G, [1, 5, 20])
    yield 'meyer', filters.Meyer(G, 5)
    yield 'custom', filters.Filter(G, [lambda x: x - 1, lambda x: -2 * x])
    yield 'rectangular', filters.Rectangular(G, band_max=.4)
    yield 'sum', filters.Expwin(G) + filters.Held(G)


def run_filters(case, ctx):
    from matplotlib.collections import LineCollection
    from pygsp import graphs
    W = [gen.path(2), gen.weighted(gen.grid(2, 3)), gen.star(5), gen.ring(8), gen.blocks(gen.path(3), gen.path(2)), gen.weighted(gen.full(4))][case['k']]
    for basis in ('estimated', 'full'):
        G = graphs.Graph(ref.arr(W))
        G.estimate_lmax() if basis == 'estimated' else G.compute_fourier_basis()
        for name, g in banks(G):
            before = snapshot(G)
            for n, ev, sm, lb, title, kw in [(500, None, None, None, None, {})] + [(n, e, s, l, t, k) for n in (30,) for e in (None, True, False) for s in (None, True, False) for l in (None, True, False)
                                                                       for t, k in ([(None, {}), ('name', dict(linewidth=3))][(e is None) + (s is None):][:1] or [(None, {})])]:
                if ev and basis == 'estimated':
                    continue
                ctx.prefix = f'{len(W)} vertices {basis} {name} n={n} eigenvalues={ev} sum={sm} labels={lb} '
                ctx.op()
                ax = axes(2)
                fig, got = g.plot(n, eigenvalues=ev, sum=sm, labels=lb, title=title, ax=ax, **kw)
                ctx.check(got is ax and fig is ax.figure, 'axes', key='figure')
                N = g.n_filters
                want_ev = basis == 'full' if ev is None else ev
                want_sum = N > 1 if sm is None else sm
                want_lab = N > 1 if lb is None else lb
                x = np.linspace(0, G.lmax, n)
                if want_ev:
                    x = np.sort(np.concatenate([x, G.e]))
                curves = [l for l in ax.lines if l.get_linestyle() != 'None']
                dots = [l for l in ax.lines if l.get_linestyle() == 'None']
                ctx.check(len(curves) == N + want_sum, f'{len(curves)} curves', key='curves')
                ctx.check(len(dots) == want_ev * (N + want_sum), f'{len(dots)} series of dots', key='dots')
                for ls, pts in ((curves, x), (dots, G.e if want_ev else None)):
                    if pts is None or len(ls) != N + want_sum:
                        continue
                    y = np.asarray(g.evaluate(pts))
                    y = np.concatenate([y, (y ** 2).sum(0)[None]]) if want_sum else y
                    for i, l in enumerate(ls):
                        ctx.close(np.asarray(l.get_xdata(), dtype=float), pts, f'frequencies of curve {i}', tol=1e-12, scale=10, key='curve-x')
                        ctx.close(np.asarray(l.get_ydata(), dtype=float), y[i], f'response of curve {i}', tol=1e-9, scale=max(1, np.abs(y).max()), key='curve-y')
                        if ls is dots:
                            ctx.check(l.get_color() == curves[i].get_color(), 'dots of another color than their curve', key='dot-color')
                for l in curves if kw else []:
                    ctx.check(l.get_linewidth() == 3, 'options are not passed', key='kwargs')
                bars = [c for c in ax.collections if isinstance(c, LineCollection)]
                ctx.check(bool(bars) == bool(want_ev), 'eigenvalue lines', key='eigenvalues')
                if bars and want_ev:
                    ctx.close(np.array(bars[0].get_segments())[:, 0, 0], G.e, 'positions of the eigenvalues', tol=1e-12, scale=10, key='eigenvalues')
                leg = ax.get_legend()
                if ctx.check((leg is not None) == bool(want_lab), 'legend', key='legend') and leg is not None:
                    texts = [t.get_text() for t in leg.get_texts()]
                    ctx.check(all(rf'$g_{{{i}}}(\lambda)$' in texts for i in range(N)), f'legend {texts}', key='legend')
                ctx.check(ax.get_title() == (repr(g) if title is None else title), f'title {ax.get_title()!r}', key='title')
                ctx.state(name, n, ev, sm, lb)
            same(before, snapshot(G), ctx, 'plotting a filter')
        ctx.trace()


QT = '''
import sys, os
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
sys.path.insert(0, {root!r}); sys.path.insert(0, {repo!r})
import numpy as np
from mc import gen, ref
from mc.p27 import points, sig
import logging; logging.disable(logging.CRITICAL)
try:
    import pyqtgraph as qtg, pyqtgraph.opengl as gl
    app = qtg.mkQApp()
except Exception as e:
    print('UNAVAILABLE', e); raise SystemExit
from pygsp import graphs, plotting
dim = {dim}
count = 0
bad = []
def check(c, what):
    global count
    count += 1
    if not c: bad.append(what)
STOPS = np.array([1, 8, 24, 40, 56, 64.])
for W in [gen.weighted(gen.grid(2, 3)), gen.ring(5), gen.full(4), [[0, 1, 0], [0, 0, 1], [0, 0, 0]]]:
    W = ref.arr(W)
    n = len(W)
    for name, x in [('none', None), ('mixed', sig(n)), ('positive', np.arange(n) + 30.), ('negative', -np.arange(n) * 2. - 5), ('small', np.arange(n) * 1e-3 + 1)]:
        for edges in (True, False):
            for lim in (None, [-4., 50.]) if x is not None else (None,):
                G = graphs.Graph(W, coords=points(n, dim))
                before = G.W.toarray(), np.array(G.coords)
                G.plot(x, edges=edges, limits=lim, backend='pyqtgraph', title='t')
                w = plotting._qtg_widgets[-1]
                what = (n, name, edges, lim)
                if dim == 2:
                    items = [i for i in w.scene().items()]
                    gi = [i for i in items if isinstance(i, qtg.GraphItem)]
                    sc = [i for i in items if isinstance(i, qtg.ScatterPlotItem)]
                    pos = [np.stack([np.asarray(i.data['x'], dtype=float), np.asarray(i.data['y'], dtype=float)], 1) for i in sc]
                    check(any(p.shape == (n, 2) and np.allclose(p, before[1]) for p in pos), what + ('positions',))
                    if edges:
                        s, t, _ = G.get_edge_list()
                        check(any(np.array_equal(np.asarray(i.adjacency), np.stack([s, t], 1)) for i in gi if i.adjacency is not None), what + ('edges',))
                    if x is not None:
                        own = [i for i in sc if not isinstance(i.parentItem(), qtg.GraphItem)]
                        col = [np.array([b.color().getRgb() for b in (d['brush'] if hasattr(d['brush'], 'color') else None for d in i.data)]) for i in own]
                        col = col[0] if col else None
                else:
                    ls = [i for i in w.items if isinstance(i, gl.GLLinePlotItem)]
                    sc = [i for i in w.items if isinstance(i, gl.GLScatterPlotItem)]
                    check(any(np.shape(i.pos) == (n, 3) and np.allclose(i.pos, before[1]) for i in sc), what + ('positions',))
                    s, t, _ = G.get_edge_list()
                    if edges:
                        want = np.stack([before[1][s], before[1][t]], 1).reshape(-1, 3)
                        check(any(np.shape(i.pos) == want.shape and np.allclose(i.pos, want) for i in ls), what + ('edges',))
                    else:
                        check(not ls, what + ('no edges',))
                    col = None
                    if x is not None:
                        c = np.asarray(sc[0].color, dtype=float)
                        col = c * 255 if c.max() <= 1 else c
                if x is not None and col is not None and np.ndim(col) == 2 and len(col) == n:
                    lo, hi = lim or (x.min(), x.max())
                    cm = qtg.ColorMap(STOPS, np.array([[0, 0, 143, 255], [0, 0, 255, 255], [0, 255, 255, 255], [255, 255, 0, 255], [255, 0, 0, 255], [128, 0, 0, 255]]))
                    want = np.asarray(cm.map(1 + 63 * (x - lo) / (hi - lo), 'byte'), dtype=float)
                    check(np.abs(col - want).max() <= 2, what + ('colors', col.round().tolist(), want.tolist()))
                check(np.array_equal(G.W.toarray(), before[0]) and np.array_equal(G.coords, before[1]), what + ('graph changed',))
                plotting.close_all()
                check(plotting._qtg_widgets == [], what + ('still open',))
for bad_ in (dict(vertex_color='r'), dict(vertex_color=np.arange(3.)), dict(vertex_color=(.1, .2, .3))):
    G = graphs.Graph(gen.ring(5), coords=points(5, dim))
    try:
        G.plot(backend='pyqtgraph', **bad_)
    except ValueError:
        count += 1
    else:
        bad.append(('accepted', str(bad_)))
print('CHECKS', count)
for b in bad[:40]: print('BAD', b)
print('END')
sys.stdout.flush()
os._exit(0)
'''


def run_qt(case, ctx):
    code = QT.format(root=ROOT, repo=REPO, dim=case['dim'])
    env = dict(os.environ, QT_QPA_PLATFORM='offscreen', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([sys.executable, '-c', code], cwd=ROOT, env=env, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Skip('the child process takes too long')
    if 'UNAVAILABLE' in p.stdout or p.returncode < 0:
        raise Skip('no Qt here')
    ctx.trace()
    ctx.state(case['dim'])
    if not ctx.check('END' in p.stdout, lambda: f'pyqtgraph plots failed: {p.stderr[-400:]}', key='qt-failed'):
        return
    for l in p.stdout.splitlines():
        if l.startswith('CHECKS'):
            ctx.op(int(l.split()[1]))
        if l.startswith('BAD'):
            ctx.check(False, f'pyqtgraph {case["dim"]}-D: {l[4:300]}', key='qt-' + ('colors' if 'colors' in l else 'plot'))
