"""P11: designed kernels follow their formulas; banks compose, index and evaluate consistently."""
import itertools
import math

import numpy as np

from . import gen, ref

BOUNDS = dict(
    quick='14 designs x parameter grids x parameter containers on 12 graphs x 2 Laplacians x 2 lmax estimates, evaluated on the '
          'spectrum, on [0, lmax], on scalars, lists, integers and 2-D arrays; all bank expressions (index, slice, '
          'concatenation, transfer to another graph) to depth 3; large named graphs (see DESIGN.md)',
    thorough='the same on all small graph classes, bank expressions to depth 4')
CHUNK = 1
ASSUMPTIONS = ['graphs with at least one edge']


def cases(tier):
    g = [('edge', gen.path(2)), ('path4', gen.path(4)), ('wring5', gen.weighted(gen.ring(5))), ('directed', [[0, 1, 0], [0, 0, 2.5], [1, 0, 0]]),
         ('two', gen.blocks(gen.full(3), gen.path(2))), ('loop', [[1.5, 1, 0], [1, 0, 2], [0, 2, 0]])]
    g += list(gen.medium())[:6:2] + [('big', gen.full(6, 1000)), ('tiny', gen.path(5, 1e-3))]
    if tier == 'thorough':
        g += [(f'c{i}', W) for i, W in enumerate(W for n in (2, 3, 4, 5) for W in gen.iso_classes(n, (0, 1)) if gen.has_edge(W))]
        g += list(gen.medium())[1:6:2]
    for name, W in g:
        yield dict(kind='design', W=W, id='design-' + name)
        if len(W) < 10:
            yield dict(kind='center', W=W, id='center-' + name)
    yield dict(kind='design', name='quasi90', id='design-quasi90')
    yield dict(kind='center', name='quasi90', id='center-quasi90')
    yield dict(kind='center', name='full40', id='center-full40')
    for first in range(9):
        yield dict(kind='algebra', first=first, depth=4 if tier == 'thorough' else 3, id=f'algebra-{first}')


# ---- scalar reference formulas: (design, kwargs) -> list of functions of the frequency
def vec(f):
    return lambda x: np.array([f(float(v)) for v in np.ravel(x)]).reshape(np.shape(x))


def ref_heat(hi, e, scale=10, normalize=False):
    out = []
    for s in np.ravel(np.array(list(scale) if np.iterable(scale) else [scale], dtype=float)):
        k = lambda x, s=s: min(1., math.exp(-s * x / hi))
        nrm = math.sqrt(sum(k(v) ** 2 for v in e)) if normalize else 1
        out.append(lambda x, k=k, nrm=nrm: k(x) / nrm)
    return out


def ref_wave(hi, e, time=10, speed=1):
    t = [float(v) for v in (time if np.iterable(time) else [time])]
    s = [float(v) for v in (speed if np.iterable(speed) else [speed])]
    n = max(len(t), len(s))
    t, s = t * (n // len(t)), s * (n // len(s))
    return [lambda x, a=a, b=b: math.cos(a * math.acos(1 - b * b * min(x / hi, 1 + 1e-12) / 2)) for a, b in zip(t, s)]


def ref_rect(hi, e, band_min=None, band_max=0.2):
    return [lambda x: float((band_min is None or x / hi >= band_min) and (band_max is None or x / hi <= band_max))]


def ref_expwin(hi, e, band_min=None, band_max=0.2, slope=1):
    def ex(x):
        return 0. if x <= 0 else math.exp(-slope / x)

    def h(x):
        return ex(x) / (ex(x) + ex(1 - x))
    return [lambda x: (1 if band_max is None else h(0.5 - x / hi + band_max)) * (1 if band_min is None else h(0.5 + x / hi - band_min))]


def ref_halfcos(hi, e, Nf=6):
    d = 3 * hi / (Nf - 2)

    def k(x):
        return 0.5 + 0.5 * math.cos(2 * math.pi * (x / d - 0.5)) if 0 <= x <= d else 0.
    return [lambda x, i=i: k(x - d / 3 * (i - 2)) for i in range(Nf)]


def ref_itersine(hi, e, Nf=6, overlap=2):
    s = hi / (Nf - overlap + 1) * overlap

    def k(x):
        return math.sin(0.5 * math.pi * math.cos(math.pi * x) ** 2) if -0.5 <= x <= 0.5 else 0.
    return [lambda x, i=i: math.sqrt(2 / overlap) * k(x / s - (i - overlap / 2) / overlap) for i in range(1, Nf + 1)]


def pair(f):
    return [f, lambda x: math.sqrt(max(0., 1 - f(x) ** 2))]


def ref_held(hi, e, a=2 / 3):
    def f(x):
        u = 2 * x / hi
        if u < a:
            return 1.
        if u >= 2 * a:
            return 0.
        v = u / (8 * a)
        return math.sin(2 * math.pi * (-1 + 24 * v - 144 * v ** 2 + 256 * v ** 3))
    return pair(f)


def ref_papadakis(hi, e, a=0.75):
    def f(x):
        u = 2 * x / hi
        return 1. if u < a else 0. if u >= 5 * a / 3 else math.sqrt((1 - math.sin(1.5 * math.pi * u / a)) / 2)
    return pair(f)


def ref_simoncelli(hi, e, a=2 / 3):
    def f(x):
        u = 2 * x / hi
        return 1. if u < a else 0. if u >= 2 * a else math.cos(math.pi / 2 * math.log2(u / a))
    return pair(f)


def ref_regular(hi, e, degree=3):
    def f(x):
        u = 2 * x / hi
        if degree == 0:
            return math.sin(math.pi / 4 * u)
        o = u - 1
        for _ in range(degree):
            o = math.sin(math.pi / 2 * o)
        return math.sin(math.pi / 4 * (1 + o))
    return pair(f)


def logscales(lmin, lmax, n):
    a, b = math.log(2 / lmin), math.log(1 / lmax)
    return [math.exp(a + (b - a) * i / (n - 1)) if n > 1 else math.exp(a) for i in range(n)]


def ref_mexican(hi, e, Nf=6, lpfactor=20, scales=None, normalize=False):
    sc = logscales(hi / lpfactor, hi, Nf - 1) if scales is None else list(scales)
    out = [lambda x: 1.2 * math.exp(-1) * math.exp(-min((x / (0.4 * hi / lpfactor)) ** 4, 700))]
    for s in sc:
        out.append(lambda x, s=s: (math.sqrt(s) if normalize else 1) * s * x * math.exp(-s * x))
    return out


def abspline_band(u):
    """x^2 up to 1, (x/2)^-2 beyond 2, and the cubic joining them smoothly."""
    if u <= 1:
        return u * u
    if u >= 2:
        return 4 / (u * u)
    t = u - 1          # Hermite cubic: values 1 and 1, slopes 2 and -1
    return (2 * t ** 3 - 3 * t ** 2 + 1) + 2 * (t ** 3 - 2 * t ** 2 + t) + (-2 * t ** 3 + 3 * t ** 2) - (t ** 3 - t ** 2)


def ref_abspline(hi, e, Nf=6, lpfactor=20, scales=None):
    lmin = hi / lpfactor
    sc = logscales(lmin, hi, Nf - 1) if scales is None else list(scales)
    a, b = 1., 2.
    for _ in range(200):                # the top of the band-pass kernel (ternary search)
        u, v = a + (b - a) / 3, b - (b - a) / 3
        a, b = (u, b) if abspline_band(u) < abspline_band(v) else (a, v)
    top = abspline_band(a)
    return [lambda x: top * math.exp(-min((x / (0.6 * lmin)) ** 4, 700))] + [lambda x, s=s: abspline_band(s * x) for s in sc]


def ref_meyer(hi, e, Nf=6, scales=None):
    sc = [4 / (3 * hi) * 2. ** j for j in range(Nf - 2, -1, -1)] if scales is None else list(scales)

    def v(x):
        return x ** 4 * (35 - 84 * x + 70 * x ** 2 - 20 * x ** 3)

    def low(u):
        return 1. if u < 2 / 3 else math.cos(math.pi / 2 * v(1.5 * u - 1)) if u < 4 / 3 else 0.

    def band(u):
        if 2 / 3 <= u < 4 / 3:
            return math.sin(math.pi / 2 * v(1.5 * u - 1))
        return math.cos(math.pi / 2 * v(0.75 * u - 1)) if 4 / 3 <= u < 8 / 3 else 0.
    return [lambda x: low(sc[0] * x)] + [lambda x, s=s: band(s * x) for s in sc]


def ref_simpletight(hi, e, Nf=6, scales=None):
    sc = [1 / (2 * hi) * 2. ** j for j in range(Nf - 2, -1, -1)] if scales is None else list(scales)

    def h(x):
        return math.sin(math.pi * x / 2) ** 2

    def low(u):
        return 1. if u < 0.25 else math.sqrt(max(0, 1 - h(4 * u - 1) ** 2)) if u < 0.5 else 0.

    def band(u):
        if 0.25 <= u < 0.5:
            return h(4 * u - 1)
        return math.sqrt(max(0, 1 - h(2 * u - 1) ** 2)) if 0.5 <= u < 1 else 0.
    return [lambda x: low(sc[0] * x)] + [lambda x, s=s: band(s * x) for s in sc]


REF = dict(Heat=ref_heat, Wave=ref_wave, Rectangular=ref_rect, Expwin=ref_expwin, HalfCosine=ref_halfcos, Itersine=ref_itersine,
           Held=ref_held, Papadakis=ref_papadakis, Simoncelli=ref_simoncelli, Regular=ref_regular, MexicanHat=ref_mexican,
           Abspline=ref_abspline, Meyer=ref_meyer, SimpleTight=ref_simpletight)


def containers(v):
    yield list(v)
    yield tuple(v)
    yield np.array(v)


def params():
    for s in (0, 0.5, 10, 300):
        for nrm in (False, True):
            yield 'Heat', dict(scale=s, normalize=nrm)
    for c in containers([1, 5.5, 20]):
        yield 'Heat', dict(scale=c)
        yield 'Heat', dict(scale=c, normalize=True)
        yield 'Wave', dict(time=c)
        yield 'Wave', dict(time=c, speed=1.5)
        yield 'Wave', dict(time=c, speed=[0, 0.5, 1.9])
    yield 'Heat', dict(scale=range(1, 4))
    for c in ([5.5, 1, 20], [20, 5.5, 1], [3, 3, 1], [0, 7, 0]):
        for d in containers(c):
            yield 'Heat', dict(scale=d)
            yield 'Wave', dict(time=d)
            yield 'Wave', dict(time=d, speed=[1.9, .2, 1.9])
            yield 'Wave', dict(time=4, speed=[v / 12 for v in d])
    for c in containers([0.3, 1, 1.99]):
        yield 'Wave', dict(speed=c)
        yield 'Wave', dict(time=3, speed=c)
        for d in containers([4]):
            yield 'Wave', dict(time=d, speed=c)
    for d in containers([1.2]):
        for c in containers([1, 2, 7]):
            yield 'Wave', dict(time=c, speed=d)
    for t, s in itertools.product((0, 1, 2.5), (0, 1, 1.9)):
        yield 'Wave', dict(time=t, speed=s)
    for a, b in itertools.product((None, 0, 0.3, 0.8, 1), repeat=2):
        yield 'Rectangular', dict(band_min=a, band_max=b)
        for sl in (1, 4, .01, .2, 30):
            yield 'Expwin', dict(band_min=a, band_max=b, slope=sl)
    for nf in (3, 4, 6, 9, 13, 24):
        yield 'HalfCosine', dict(Nf=nf)
    for c in containers([0.5 * i for i in range(1, 26)]):
        yield 'Heat', dict(scale=c)
    for nf in (2, 3, 6, 9, 13, 24):
        yield 'Itersine', dict(Nf=nf)
        yield 'Itersine', dict(Nf=nf + 3, overlap=4)
        yield 'Itersine', dict(Nf=nf + 1, overlap=3)
        yield 'Meyer', dict(Nf=nf)
        yield 'SimpleTight', dict(Nf=nf)
        for lp in (5, 20):
            yield 'MexicanHat', dict(Nf=nf, lpfactor=lp)
            yield 'MexicanHat', dict(Nf=nf, lpfactor=lp, normalize=True)
            yield 'Abspline', dict(Nf=nf, lpfactor=lp)
    for nf in (33, 52):
        for name in ('Itersine', 'HalfCosine', 'Meyer', 'SimpleTight', 'MexicanHat', 'Abspline'):
            yield name, dict(Nf=nf)
        yield 'Itersine', dict(Nf=nf, overlap=4)
        yield 'MexicanHat', dict(Nf=nf, lpfactor=40, normalize=True)
        sc = [9 - .15 * i for i in range(nf - 1)]
        for name in ('Meyer', 'SimpleTight', 'MexicanHat', 'Abspline'):
            yield name, dict(Nf=nf, scales=sc)
        yield 'MexicanHat', dict(Nf=nf, scales=sc, normalize=True)
        yield 'Heat', dict(scale=[.5 * i for i in range(nf, 0, -1)], normalize=True)
        yield 'Wave', dict(time=[.5 * i for i in range(nf, 0, -1)], speed=1.3)
    for c in containers([2.5, 1., 0.2]):
        for name in ('Meyer', 'SimpleTight', 'MexicanHat', 'Abspline'):
            yield name, dict(Nf=4, scales=c)
    for a in (0.3, 0.5, 0.9):
        for name in ('Held', 'Papadakis', 'Simoncelli'):
            yield name, dict(a=a)
    for d in range(7):
        yield 'Regular', dict(degree=d)
    for name in REF:
        yield name, {}


def points(hi, e):
    yield 'spectrum', e
    yield 'grid', np.concatenate([np.linspace(0, hi, 29), [hi * 0.2, hi * 0.8]])
    yield 'list', [0, hi / 7, hi]
    yield '2-D', np.linspace(0, hi, 6).reshape(2, 3)
    yield 'integers', np.arange(int(hi) + 1)
    yield 'scalar', hi / 3
    yield 'fine', hi * np.concatenate([c + s * np.array([1e-5, 1e-4, 1e-3, 5e-3, .02, .07]) for c in (.2, .3, .5, .7, .8) for s in (-1, 1)])


def run_design(W, ctx):
    from pygsp import filters, graphs
    for lt in ('combinatorial', 'normalized'):
        for how in ('lanczos', 'fourier'):
            e = np.clip(np.linalg.eigvalsh(ref.laplacian(W, lt)), 0, None)
            G = graphs.Graph(W.copy(), lap_type=lt)
            for name, kw in params():
                ctx.trace()
                if how == 'fourier' or kw.get('normalize'):
                    G.compute_fourier_basis()
                else:
                    G.estimate_lmax()
                hi = G.lmax
                ctx.prefix = f'{lt} {how} {name} {({k: (type(v).__name__, v) for k, v in kw.items()})} '
                g = getattr(filters, name)(G, **kw)
                ctx.op(2)
                rs = [vec(r) for r in REF[name](hi, G.e if kw.get('normalize') else e, **kw)]
                if not ctx.check(g.n_filters == len(rs) and len(g) == len(rs), f'{g.n_filters} filters, want {len(rs)}'):
                    continue
                repr(g)
                for label, x in points(hi, e):
                    xs = np.asarray(x, dtype=float)
                    if name in ('Rectangular',) and xs.size:
                        r = xs / hi
                        if min(np.abs(r - b).min() for b in (0.2, 0.3, 0.8, 1)) < 1e-9 and label != 'spectrum':
                            xs = x = np.linspace(0.011, 0.977, 23) * hi
                        elif min(np.abs(r - b).min() for b in (0.2, 0.3, 0.8)) < 1e-9 or np.abs(r - 1).min() < 1e-9:
                            continue
                    y = g.evaluate(x)
                    ctx.op()
                    if not ctx.check(np.shape(y) == (len(rs),) + xs.shape, f'{label}: response of shape {np.shape(y)}'):
                        continue
                    for i, r in enumerate(rs):
                        ctx.close(y[i], r(xs), f'{label}: kernel {i}', tol=2e-7 if name in ('Abspline', 'Held', 'Simoncelli', 'Papadakis', 'Regular') else 1e-9)
                    ctx.state(name, i, label, y)
            e1 = lambda k, **kw: ctx.raises(lambda: getattr(filters, k)(G, **kw), f'{k} {kw} accepted', ValueError)
            e1('HalfCosine', Nf=2)
            e1('Wave', speed=2)
            e1('Wave', speed=[1, 2.5])
            e1('Wave', time=[1, 2, 3], speed=[0, 1])
            for k in ('Meyer', 'SimpleTight', 'MexicanHat'):
                e1(k, Nf=4, scales=[1., 2.])
                e1(k, Nf=4, scales=np.array([1., 2., 3., 4.]))


def run_center(W, ctx):
    """Gabor and Modulation: a mother kernel moved to every graph frequency."""
    from pygsp import filters, graphs
    n = len(W)
    for lt in ('combinatorial', 'normalized'):
        L = ref.laplacian(W, lt)
        G = graphs.Graph(W.copy(), lap_type=lt)
        G.compute_fourier_basis()
        U, e = G.U, G.e
        ker = dict(gauss=lambda x: np.exp(-(x / e[-1]) ** 2 * 4), heat=lambda x: np.exp(-3 * x / e[-1]),
                   ramp=lambda x: 1 + x / e[-1])
        for name, k in ker.items():
            ctx.trace()
            ctx.prefix = f'{lt} mother {name} '
            m = filters.Filter(G, k)
            g = filters.Gabor(G, m)
            ctx.op(3)
            ctx.check(g.n_filters == n, 'one Gabor filter per frequency')
            want = np.stack([k(e - e[i]) for i in range(n)])
            ctx.close(g.evaluate(e), want, 'Gabor kernels', tol=1e-9)
            xs = np.linspace(0, e[-1], 7)
            ctx.close(g.evaluate(xs), np.stack([k(xs - e[i]) for i in range(n)]), 'Gabor kernels on a grid', tol=1e-9)
            for s in list(np.eye(n))[::1 if n < 20 else n - 1] + [np.cos(np.arange(n))]:
                got = g.filter(s)
                ctx.op()
                ctx.close(got, np.stack([(U * want[i]) @ (U.T @ s) for i in range(n)], 1).squeeze(), 'Gabor coefficients', tol=1e-8)
            gl = ref.fun(L, lambda x: k(x))
            # localize then modulate: Sf(i, k) = sqrt(N) sum_j s_j (T_i g)_j u_k(j)
            mod = filters.Modulation(G, m)
            ctx.op(2)
            ctx.check(mod.n_filters == n, 'one modulated filter per frequency')
            for s in list(np.eye(n))[::1 if n < 20 else n - 1] + [np.cos(np.arange(n))]:
                got = mod.filter(s)
                ctx.op()
                want2 = np.stack([np.sqrt(n) * U.T @ (s * np.sqrt(n) * gl[:, i]) for i in range(n)])
                ctx.close(got, want2, 'windowed Fourier coefficients', tol=1e-6, scale=n)
            # modulate then localize, defined on the spectrum
            c = np.stack([U.T @ (np.sqrt(n) * U[:, j] * (U @ k(e))) for j in range(n)])     # response of filter j at e
            m1 = filters.Modulation(G, m, modulation_first=True)
            ctx.op(2)
            ctx.close(m1.evaluate(e), c, 'modulated kernels', tol=1e-8, scale=n)
            ctx.close(mod.evaluate(e), c, 'modulated kernels', tol=1e-8, scale=n)
            y = m1.evaluate(np.array([e[-1], -1.234, e[0]]))
            ctx.check(np.isnan(y[:, 1]).all(), 'modulated kernels are undefined off the spectrum')
            for v, got in ((e[-1], y[:, 0]), (e[0], y[:, 2]), (e[n // 2], ctx.safe(lambda: m1.evaluate([e[n // 2]])[:, 0], 'evaluation on a list')),
                           (e[n // 2], ctx.safe(lambda: m1.evaluate(float(e[n // 2])), 'evaluation at a number'))):
                ctx.op()
                ctx.check(got is not None and min(np.abs(c[:, j] - got).max() for j in np.nonzero(e == v)[0]) < 1e-8 * n, 'modulated kernels at chosen eigenvalues')
            for s in (np.eye(n)[0], np.cos(np.arange(n))):
                ctx.op()
                ctx.close(m1.filter(s), np.stack([(U * c[j]) @ (U.T @ s) for j in range(n)], 1).squeeze(), 'modulation coefficients',
                          tol=1e-8, scale=n)
            ctx.state(name, lt, want)
            two = filters.Filter(G, [k, k])
            G2 = graphs.Graph(W.copy(), lap_type=lt)
            for D in (filters.Gabor, filters.Modulation):
                ctx.raises(lambda: D(G, two), f'{D.__name__} of a two-filter mother', ValueError)
                ctx.raises(lambda: D(G2, m), f'{D.__name__} of a mother on another graph', ValueError)
        for name in REF:                # every design as a mother kernel: the shifts reach negative frequencies
            if name == 'Wave':          # an arc cosine: undefined there
                continue
            rs = [vec(r) for r in REF[name](G.lmax, G.e)]
            bank = getattr(filters, name)(G)
            for i in sorted({0, 1, len(rs) - 1} & set(range(len(rs)))):
                ctx.prefix = f'{lt} mother {name}[{i}] '
                ctx.trace()
                # memory that is not initialized would hold these
                junk = [np.full(s, 7.) for s in (n, (1, n)) for _ in range(50)]
                del junk
                g = filters.Gabor(G, bank[i])
                ctx.op(2)
                x = (e[None] - e[:, None]).reshape(-1)
                if name == 'Rectangular':       # a jump: either side within the rounding error
                    near = min(np.abs(x / G.lmax - b).min() for b in (.2,)) < 1e-9
                    if near:
                        continue
                ctx.close(g.evaluate(e).reshape(-1), rs[i](x), 'Gabor kernels', tol=2e-7)


KID = [lambda x: 1 / (1 + x), lambda x: x, lambda x: x * x - 1, lambda x: np.exp(-x), lambda x: 0 * x + 2]
OPS = [('idx', 0), ('idx', -1), ('idx', 1), ('slice', (0, 2, 1)), ('slice', (None, None, -1)), ('slice', (1, None, 1)),
       ('cat', (3,)), ('cat', (4, 0)), ('self', None), ('graph', None)]


def run_algebra(case, ctx):
    from pygsp import filters, graphs
    W1, W2 = ref.arr(gen.path(4)), ref.arr(gen.weighted(gen.full(5)))
    Gs = [graphs.Graph(W1.copy()), graphs.Graph(W2.copy())]
    Ls = [ref.laplacian(W1), ref.laplacian(W2)]
    for G in Gs:
        G.compute_fourier_basis()
    starts = [(0,), (1, 2), (0, 1, 3)]
    for start in starts:
        for seq in itertools.product(range(len(OPS)), repeat=case['depth'] - 1):
            seq = (case['first'],) + seq
            f = filters.Filter(Gs[0], [KID[i] for i in start] if len(start) > 1 else KID[start[0]])
            model, gi = list(start), 0
            keep = []
            ctx.trace()
            ok = True
            for o in seq:
                kind, a = OPS[o]
                ctx.prefix = f'{start} {[OPS[i] for i in seq]} at {kind} {a}: '
                ctx.op()
                if kind == 'idx':
                    if not -len(model) <= a < len(model):
                        ctx.raises(lambda: f[a], 'index out of range', IndexError)
                        continue
                    new, m2 = f[a], [model[a]]
                elif kind == 'slice':
                    m2 = model[slice(*a)]
                    if not m2:
                        continue
                    new = f[slice(*a)]
                elif kind == 'cat':
                    new, m2 = f + filters.Filter(Gs[gi], [KID[i] for i in a]), model + list(a)
                elif kind == 'self':
                    if len(model) > 12:
                        continue
                    new, m2 = f + f, model + model
                else:
                    gi = 1 - gi
                    new, m2 = f(Gs[gi]), model
                keep.append((f, list(model), f.G))
                f, model = new, m2
                x = np.array([0, 0.7, 3.1])
                ok = ctx.check(f.n_filters == len(model) and len(f) == len(model) and f.Nf == len(model), f'{f.n_filters} filters')
                ctx.check(f.G is Gs[gi], 'the bank is bound to another graph')
                if ok:
                    ctx.close(f.evaluate(x), np.stack([KID[i](x) for i in model]), 'responses', tol=1e-12)
                    ctx.close(f(x), np.stack([KID[i](x) for i in model]), 'call', tol=1e-12)
                else:
                    break
            if not ok:
                continue
            for g, m, G in keep:       # operands unchanged
                ctx.check(g.n_filters == len(m) and g.G is G, 'an operand was modified')
                ctx.close(g.evaluate(np.array([1.3])), np.stack([KID[i](np.array([1.3])) for i in m]), 'operand modified')
            n = len(Ls[gi])
            s = np.cos(np.arange(n))
            want = np.stack([ref.fun(Ls[gi], KID[i]) @ s for i in model], 1).squeeze()
            ctx.op(2)
            ctx.close(f.filter(s, method='exact'), want, 'filtering', tol=1e-8, scale=100)
            ctx.close(f @ s, f.filter(s), 'matrix product', tol=1e-12)
            ctx.close([h.evaluate(np.array([0.7]))[0, 0] for h in f], [KID[i](0.7) for i in model], 'iteration')
            ctx.state(model, gi)
    f = filters.Filter(Gs[0], KID[:2])
    ctx.raises(lambda: f + 3, 'bank + number', TypeError)
    ctx.close(f.toarray(), f.compute_frame(), 'toarray', tol=1e-12)


def run(case, ctx):
    if case['kind'] == 'design':
        run_design(gen.large(case['name']) if 'name' in case else ref.arr(case['W']), ctx)
    elif case['kind'] == 'center':
        run_center(gen.large(case['name']) if 'name' in case else ref.arr(case['W']), ctx)
    else:
        run_algebra(case, ctx)
