"""P30: copies and pickles are faithful and independent; everything prints itself with its parameters."""
import copy
import inspect
import itertools
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
from scipy import sparse

from . import gen, ref
from .core import REPO, ROOT, Skip, fingerprint

BOUNDS = dict(
    quick='20 small graphs and 45 constructions of all graph families x all states reachable with <=2 of 12 operations (one in five of depth two; families: 1) x deep copies and all pickle protocols; every operation afterwards on the copy '
          'or on the original; copies of copies; pickles read in another process; 25 filter banks; the printed form of 100 parametrized designs; the printed form of every construction and of all combinations of its parameters',
    thorough='states of 3 operations, all graphs with <=4 vertices')
CHUNK = 2
ASSUMPTIONS = ['attributes holding callables (an aggregation function) may make pickling impossible']


def ways():
    w = dict(deepcopy=copy.deepcopy)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        w[f'pickle{p}'] = lambda G, p=p: pickle.loads(pickle.dumps(G, protocol=p))
    w['twice'] = lambda G: copy.deepcopy(copy.deepcopy(G))
    w['mixed'] = lambda G: copy.deepcopy(pickle.loads(pickle.dumps(G)))
    return w


def operations(n):
    x = np.sin(np.arange(1, n + 1) * 2.3)

    def layout(k):
        return lambda G: G.set_coordinates(k, seed=1)

    def filt(G):
        from pygsp import filters
        return filters.Heat(G, 2).filter(x, method='chebyshev', order=12)
    return dict(lap_n=lambda G: G.compute_laplacian('normalized'), lap_c=lambda G: G.compute_laplacian('combinatorial'), lmax=lambda G: G.estimate_lmax(), bounds=lambda G: G.estimate_lmax('bounds'),
                basis=lambda G: G.compute_fourier_basis(), partial=lambda G: G.compute_fourier_basis(max(2, n // 2) if n > 3 else None), diff=lambda G: G.compute_differential_operator(), stats=lambda G: (G.A, G.d, G.dw, G.is_connected(), G.is_directed()),
                layout=layout('ring2D'), random=layout('random3D'), signal=lambda G: G.set_signal(x.copy(), 's'), filter=filt)


def small(t):
    g = []
    for n in (2, 3) + ((4,) if t else ()):
        g += [W for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W)]
    g += [W for W in gen.iso_classes(3, (0, 1), None, 'directed') if gen.has_edge(W)][:6]
    g += [gen.weighted(gen.full(4)), gen.weighted(gen.ring(5)), [[.5, 1, 0], [1, 0, 2], [0, 2, 0]], gen.blocks(gen.path(2), gen.full(3)), gen.weighted(gen.grid(2, 3))]
    return g


IMG = np.abs(np.sin(np.arange(16.) * 2)).reshape(4, 4)
PTS = np.array([[np.cos(2.3 * i) * (1 + .13 * i), np.sin(1.1 * i * i) + .07 * i, .3 * i] for i in range(12)])
FAMILIES = dict(
    Airfoil=[{}], BarabasiAlbert=[dict(N=8, seed=1), dict(N=8, m0=2, m=2, seed=1)], Comet=[dict(N=8, k=3)],
    Community=[dict(N=20, seed=1), dict(N=20, comm_density=.47, seed=2), dict(N=20, k_neigh=2, seed=0), dict(N=20, epsilon=1.53, seed=3), dict(N=10, Nc=2, comm_sizes=[4, 6], size_ratio=2.25, world_density=.27, seed=1)],
    Cube=[dict(nb_pts=30, seed=1), dict(nb_pts=30, nb_dim=2, radius=2.58, seed=2)], DavidSensorNet=[dict(N=20, seed=3), dict(N=64), dict(N=500)],
    ErdosRenyi=[dict(N=10, p=.3, seed=1), dict(N=10, p=.5, directed=True, self_loops=True, seed=2), dict(N=8, p=.9, connected=True, seed=3)], FullConnected=[dict(N=4)],
    Grid2d=[dict(N1=3), dict(N1=3, N2=4)], Grid2dImgPatches=[dict(img=IMG, k=3)], ImgPatches=[dict(img=IMG, k=3), dict(img=IMG, patch_shape=(2, 3), k=2)], LineGraph=['line'], Logo=[{}],
    LowStretchTree=[dict(k=2)], Minnesota=[{}, dict(connected=False)],
    NNGraph=[dict(Xin=PTS, k=3), dict(Xin=PTS, NNtype='radius', epsilon=.94), dict(Xin=PTS, k=2, sigma=.125, center=False, rescale=False), dict(Xin=PTS, k=3, dist_type='minkowski', order=3, symmetrize_type='maximum')],
    Path=[dict(N=4), dict(N=4, directed=True)], RandomRegular=[dict(N=8, k=3, seed=1)], RandomRing=[dict(N=8, seed=1), dict(N=4, angles=[0., 1., 2., 3.])], Ring=[dict(N=6), dict(N=6, k=2)],
    Sensor=[dict(N=20, seed=1), dict(N=25, k=3, distributed=True, seed=2)], Sphere=[dict(nb_pts=20, radius=1.37, seed=4)], Star=[dict(N=4)],
    StochasticBlockModel=[dict(N=12, k=3, seed=1), dict(N=12, k=2, p=[.2, .3], seed=2), dict(N=12, k=2, p=1., q=.25, seed=3), dict(N=10, k=2, p=.12, q=.87, self_loops=True, seed=3), dict(N=12, k=2, M=[[.2, .3], [.3, .2]], seed=1), dict(N=6, k=2, z=np.array([0, 0, 0, 1, 1, 1]), directed=True, seed=5)],
    SwissRoll=[dict(N=20, seed=1), dict(N=20, dim=2, noise=True, srtype='classic', thresh=1e-4, s=.57, seed=2)], Torus=[dict(Nv=3), dict(Nv=3, Mv=4)],
    TwoMoons=[{}, dict(moontype='synthesized', N=20, sigmad=.13, distance=.25, sigmag=.07, seed=1)], Bunny=[{}])
BIG = ('Airfoil', 'Logo', 'Minnesota', 'Bunny', 'TwoMoons', 'DavidSensorNet')


def make(name, kw):
    from pygsp import graphs
    if kw == 'line':
        return graphs.LineGraph(graphs.Graph(gen.weighted(gen.grid(2, 3)), coords=np.arange(12.).reshape(6, 2)))
    if not hasattr(graphs, name):
        raise Skip(f'no {name}')
    return getattr(graphs, name)(**copy.deepcopy(kw))


def cases(tier):
    t = tier == 'thorough'
    yield dict(kind='process', id='process')
    for name, l in sorted(FAMILIES.items(), key=lambda x: x[0] not in BIG):
        for i in range(len(l)):
            if name == 'Bunny' and not t:
                continue
            yield dict(kind='states', name=name, i=i, depth=1, tier=tier, id=f'family-{name}-{i}')
        yield dict(kind='repr', name=name, id='repr-' + name)
    for k, W in enumerate(small(t)):
        yield dict(kind='states', W=W, depth=3 if t else 2, id=f'states-{k}')
    yield dict(kind='printed', id='filters-printed')
    for k, W in enumerate([gen.weighted(gen.path(3)), gen.ring(6), gen.weighted(gen.grid(2, 3))]):
        yield dict(kind='filters', W=W, id=f'filters-{k}')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def arrays(x, out, depth=0, seen=None):
    """Every array reachable from an object."""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 6:
        return out
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.size:
            out.append(x)
    elif sparse.issparse(x):
        for v in vars(x).values():
            arrays(v, out, depth + 1, seen)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out, depth + 1, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out, depth + 1, seen)
    elif hasattr(x, 'plotting') and hasattr(x, 'signals'):
        arrays(vars(x), out, depth + 1, seen)
    return out


def fp(G):
    return fingerprint({k: v for k, v in vars(G).items() if k != 'logger'})


def start(case):
    from pygsp import graphs
    if case.get('name'):
        G = make(case['name'], FAMILIES[case['name']][case['i']])
    else:
        W = ref.arr(case['W'])
        G = graphs.Graph(W, coords=np.arange(2. * len(W)).reshape(-1, 2), plotting=dict(vertex_size=17))
    G.set_signal(np.arange(G.N) * .5, 'first')
    return G


def run_states(case, ctx):
    G0 = start(case)
    n = G0.N
    ops = operations(n)
    names = list(ops)
    if n > 400:
        names = ['lap_n', 'bounds', 'diff', 'stats', 'layout', 'signal']
    W = ways()
    family = bool(case.get('name')) and case.get('tier') != 'thorough'
    chosen = list(W) if not family else ['deepcopy', 'pickle5', 'mixed'] if n < 400 else ['deepcopy', 'pickle5']
    c = 0
    for d in range(case['depth'] + 1):
        for h in itertools.product(names, repeat=d):
            def fresh():
                G = start(case)
                for o in h:
                    ops[o](G)
                return G
            G = fresh()
            base, text = fp(G), repr(G)
            for w in chosen:
                c += 1
                if d == 2 and c % 5 or d and n > 400 and family and (w != 'deepcopy' or h[0] not in ('lap_n', 'diff')):
                    continue
                if d == 3 and c % 31:
                    continue
                ctx.prefix = f'{case.get("name") or case["W"]} {"+".join(h)} {w}: '
                ctx.op()
                H = W[w](G)
                ctx.check(type(H) is type(G) and repr(H) == text, f'{H!r} instead of {text}', key='repr')
                ctx.check(fp(H) == base, 'the copy is different', key='different')
                ctx.check(fp(G) == base, 'copying changed the graph', key='changed')
                for a, b in itertools.product(arrays(G, []), arrays(H, [])) if n < 400 else ():
                    if np.may_share_memory(a, b):
                        ctx.check(False, f'an array of shape {a.shape} is shared', key='shared')
                        break
                ctx.check(H.plotting is not G.plotting and H.signals is not G.signals and list(H.signals) == list(G.signals), 'a dictionary is shared', key='shared')
                for k in G.signals:
                    ctx.close(H.signals[k], G.signals[k], f'signal {k}', tol=0, key='signals')
                ctx.close(H.coords, G.coords, 'coordinates', tol=0, key='coords') if hasattr(G, 'coords') else None
                if w in ('deepcopy', 'pickle4') or d < 2:
                    for k, o in enumerate(names):
                        if d == 2 and (k + c) % 4:
                            continue
                        if family and (d or n > 400) and (k + c) % (4 if n < 100 else 6):
                            continue
                        ctx.op(2)
                        # the copy works, and without touching the original
                        H = W[w](G)
                        ops[o](H)
                        ctx.check(fp(G) == base, f'{o} on the copy changed the original', key='leak')
                        K = fresh() if case.get('name') is None else W[w](G)
                        ops[o](K)
                        ctx.check(fp(K) == fp(H), f'{o} on the copy differs from the original', key='behaviour')
                        # and the other way round
                        K = fresh()
                        H = W[w](K)
                        ops[o](K)
                        ctx.check(fp(H) == base, f'{o} on the original changed the copy', key='leak-back')
                H = W[w](G)
                H.plotting['vertex_size'] = -5
                H.signals['first'][0] = 99
                H.signals['more'] = np.zeros(n)
                if getattr(H, 'coords', None) is not None and H.coords.flags.writeable and H.coords.size:
                    H.coords.flat[0] = 77
                ctx.check(fp(G) == base, 'editing signals, coordinates or plotting options of the copy changed the original', key='edit')
                ctx.state(base)
            ctx.trace()


def run_process(case, ctx):
    """Pickles travel between processes."""
    with tempfile.TemporaryDirectory() as d:
        want = {}
        items = {}
        for name, l in FAMILIES.items():
            if name in BIG[:4]:
                continue
            for i, kw in enumerate(l):
                try:
                    G = make(name, kw)
                except Skip:
                    continue
                G.set_signal(np.arange(G.N) * .5, 'first')
                G.estimate_lmax()
                G.compute_differential_operator()
                items[f'{name}-{i}'] = G
                want[f'{name}-{i}'] = (repr(G), fp(G))
        p = os.path.join(d, 'graphs.pickle')
        with open(p, 'wb') as f:
            pickle.dump(items, f)
        code = f'''
import sys; sys.path.insert(0, {ROOT!r}); sys.path.insert(0, {REPO!r})
import pickle, logging; logging.disable(logging.CRITICAL)
from mc import core
from mc.p30 import fp
for k, G in pickle.load(open({p!r}, 'rb')).items():
    print('RESULT', k, fp(G), repr(G))
    G.compute_laplacian('normalized'); G.set_coordinates('ring2D'); G.lmax
'''
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
        try:
            r = subprocess.run([sys.executable, '-c', code], cwd=ROOT, env=env, capture_output=True, text=True, timeout=100)
        except subprocess.TimeoutExpired:
            raise Skip('the child process takes too long')
        got = {}
        for l in r.stdout.splitlines():
            if l.startswith('RESULT'):
                _, k, h, s = l.split(' ', 3)
                got[k] = (s, h)
        ctx.check(r.returncode == 0, f'the other process failed: {r.stderr[-300:]}', key='process')
        for k in want:
            ctx.op()
            ctx.check(got.get(k) == want[k], f'{k}: {got.get(k)} in another process instead of {want[k]}', key='process')
        ctx.trace()
        ctx.state(sorted(want))


def banks(G):
    from pygsp import filters
    G.estimate_lmax()
    out = [filters.Filter(G, lambda x: x * x), filters.Filter(G, [lambda x: 1 - x, np.exp]), filters.Heat(G, [1, 2]), filters.Heat(G, 3, normalize=True), filters.Rectangular(G), filters.Rectangular(G, .25, .75)]
    for name in ('Abspline', 'HalfCosine', 'Held', 'Itersine', 'MexicanHat', 'Meyer', 'Papadakis', 'Regular', 'Simoncelli', 'SimpleTight', 'Expwin'):
        out.append(getattr(filters, name)(G))
    out += [filters.Wave(G, [1, 2], [.5, 1]), filters.MexicanHat(G, Nf=3, normalize=True), filters.Abspline(G, Nf=4)]
    try:
        out += [filters.Gabor(G, lambda x: np.exp(-x)), filters.Modulation(G, lambda x: np.exp(-x))]
    except Exception:
        pass
    out += [out[2] + out[0], out[2][1], out[2].inverse(), filters.Heat(G, [1, 9]).complement()]
    return out


def run_filters(case, ctx):
    from pygsp import graphs
    G = graphs.Graph(ref.arr(case['W']))
    x = np.cos(np.arange(G.N) * 1.3)
    for f in banks(G):
        ctx.prefix = f'{f!r}: '
        lam = np.linspace(0, G.lmax, 23)
        for again in (False, True):
            ctx.op()
            h = copy.deepcopy(f)
            if again:
                h = copy.deepcopy(h)
            ctx.check(type(h) is type(f) and repr(h) == repr(f) and len(h) == len(f), f'copy {h!r}', key='filter-repr')
            ctx.check(h.G is not f.G and fp(h.G) == fp(f.G), 'graph of the copy', key='filter-graph')
            y = f.evaluate(lam)
            ctx.close(h.evaluate(lam), y, 'responses of the copy', tol=1e-13, scale=max(1, np.abs(y).max()), key='filter-response')
            base = fp(f.G)
            # (kernels are functions, which Python does not copy)
            z = h.filter(x, method='chebyshev', order=20)
            ctx.close(z, f.filter(x, method='chebyshev', order=20), 'filtering with the copy', tol=1e-12, scale=max(1, np.abs(y).max()), key='filter-filter')
            h.G.compute_laplacian('normalized')
            h.G.compute_fourier_basis()
            h.G.set_signal(x, 'more')
            ctx.check(fp(f.G) == base, 'using the graph of the copy changed the original', key='filter-leak')
            ctx.close(f.evaluate(lam), y, 'responses after using the copy', tol=1e-13, scale=max(1, np.abs(y).max()), key='filter-response')
            ctx.state(repr(f))
        ctx.check(repr(f).startswith(type(f).__name__ + '(in=1, out=%d' % len(f)) and repr(f).endswith(')'), f'printed as {f!r}', key='filter-repr')
        ctx.trace()


PARAMS = [
    ('Heat', dict(scale=v)) for v in (10, .25, [5, 5, 2], [1, 20, 3.5], (7, 7), list(range(60, 0, -1)))] + [
    ('Heat', dict(scale=[3, 1, 3], normalize=True)), ('Heat', dict(scale=np.array([2.5, .5, 2.5])))] + [
    ('Wave', dict(time=t)) for t in (5, [3, 1], [1, 3], [2, 2, 7], (4, 4), np.array([9., 1.]), list(range(45, 0, -1)))] + [
    ('Wave', dict(time=t, speed=s)) for t, s in (([3, 1], [.5, 1.5]), ([3, 1], [1.5, .5]), (3, [1.9, .2, 1.9]), ([8, 2, 8], .25), ([1, 1], [.7, .7]))] + [
    ('Rectangular', dict(band_min=a, band_max=b)) for a in (None, 0, .25, .9) for b in (None, 0, .1, .75, 1)] + [
    ('Expwin', dict(band_min=a, band_max=b, slope=s)) for a in (None, 0, .25, .9) for b in (None, 0, .1, .75) for s in (1, 7, 40)] + [
    (k, dict(a=a)) for k in ('Held', 'Papadakis', 'Simoncelli') for a in (.25, .5, .875)] + [
    ('Abspline', dict(Nf=5, lpfactor=l)) for l in (2, 12.5, 200)] + [('MexicanHat', dict(Nf=4, lpfactor=l, normalize=n)) for l in (2, 12.5, 200) for n in (False, True)] + [
    ('Itersine', dict(Nf=9, overlap=o)) for o in (2, 3, 4)]


def printed_as(v):
    if v is None or isinstance(v, bool):
        return str(v)
    return '[' + ', '.join(f'{float(x):.2f}' for x in v) + ']' if np.iterable(v) else f'{v:.2f}'


def run_printed(case, ctx):
    """Every parameter of a design is printed with the values given, in their order."""
    from pygsp import filters, graphs
    G = graphs.Ring(9)
    G.compute_fourier_basis()
    for name, kw in PARAMS:
        f = getattr(filters, name)(G, **copy.deepcopy(kw))
        ctx.op()
        ctx.prefix = f'{name} {kw}: '
        text = repr(f)
        got, attrs = shown(text)
        ctx.check(got == name and attrs.get('in') == '1' and attrs.get('out') == str(f.n_filters) and text.endswith(')'), f'printed as {text}', key='filter-repr')
        for k, v in kw.items():
            if k == 'Nf':
                ctx.check(attrs['out'] == str(v), f'printed as {text}', key='filter-repr')
                continue
            many = k in ('scale', 'time', 'speed')
            want = [printed_as(v)] if not many or np.iterable(v) else ['[' + ', '.join([printed_as(v)] * r) + ']' for r in (1, f.n_filters)]
            if k == 'slope':
                want.append(f'{v:.0f}')
            if v is None:
                want.append(None)
            ctx.check(attrs.get(k) in want, f'{k}={attrs.get(k)} is printed but {v} was given: {text}', key='filter-value')
        ctx.state(text)
    ctx.trace()


def shown(text):
    """'Class(a=1, b=[2, 3])' -> class, {a: '1', b: '[2, 3]'} in order"""
    name, _, rest = text.partition('(')
    out, key, val, depth = {}, '', '', 0
    for part in rest[:-1].split(', '):
        if depth == 0 and '=' in part:
            key, _, val = part.partition('=')
        elif depth == 0:
            key, val = part, ''
        else:
            val += ', ' + part
        depth = sum(val.count(a) - val.count(b) for a, b in ('()', '[]', '{}'))
        if depth == 0:
            out[key] = val
    return name, out


def run_repr(case, ctx):
    """The class, the numbers of vertices and edges, then the parameters with the values they were given."""
    for kw in FAMILIES[case['name']]:
        G = make(case['name'], kw)
        args = {} if kw == 'line' else kw
        sig = inspect.signature(type(G).__init__)
        text = repr(G)
        ctx.prefix = f'{case["name"]} {sorted(args)}: '
        name, attrs = shown(text)
        keys = list(attrs)
        ctx.op()
        ctx.check(name == type(G).__name__ and text.endswith(')'), f'printed as {text}', key='repr-class')
        ctx.check(keys[:2] == ['n_vertices', 'n_edges'] and attrs['n_vertices'] == str(G.n_vertices) == str(G.W.shape[0]) and attrs['n_edges'] == str(G.n_edges), f'printed as {text}', key='repr-counts')
        for k, v in attrs.items():
            if k in args or k in sig.parameters:
                given = args.get(k, sig.parameters[k].default if k in sig.parameters else None)
                if given is None or given is inspect.Parameter.empty:
                    continue
                if isinstance(given, (bool, str)) or given is None:
                    ok = v == str(given)
                elif isinstance(given, (int, float)):
                    try:
                        ok = abs(float(v) - given) <= .005 * max(1, abs(given)) + (.0051 if '.' in v else 0)
                    except ValueError:
                        ok = False
                else:
                    ok = v.replace(' ', '') == str(given).replace(' ', '')
                ctx.check(ok, f'{k}={v} is printed but {given} was given: {text}', key='repr-value')
        # shorter forms are made of the first attributes
        for limit in range(2, len(keys) + 3):
            s = G.__repr__(limit=limit)
            ctx.op()
            want = f'{name}({", ".join(f"{k}={attrs[k]}" for k in keys[:limit])}{", ..." if limit < len(keys) else ""})'
            ctx.check(s == want, f'limit={limit}: {s} instead of {want}', key='repr-limit')
        ctx.state(text)
    ctx.trace()
