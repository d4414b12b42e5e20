"""P23: seeded randomness is reproducible and leaves the caller's random state alone."""
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np

from .core import REPO, ROOT, Skip, fingerprint

BOUNDS = dict(
    quick='48 seeded calls (graph families, layouts, sparsification) x 6 seeds: repeated, after every other call (all ordered pairs), after every state of the '
          'global generators of a 5-letter alphabet, as Python or numpy integer, in 4 processes with different hash seeds; all pairs of seeds differ',
    thorough='all ordered triples of calls, 24 seeds, 12 processes')
CHUNK = 1
ASSUMPTIONS = ['calls that take a seed and are given one; ARPACK starts from a fixed vector (the package has no seed for it)']
SEEDS = [0, 1, 2, 42, 12345, 2 ** 31 - 1]
# seeds that agree in their low or high bits
SPREAD = [1 + 2 ** 8, 1 + 2 ** 10, 1 + 2 ** 15, 1 + 2 ** 16, 2 ** 16, 1 + 2 ** 24, 2 ** 30, 1 + 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2, 1000, 1001]


def arrays(G):
    import scipy.sparse as sp
    W = sp.csr_matrix(G.W)
    W.sort_indices()
    out = [W.toarray().tobytes(), W.shape, np.asarray(G.dw).tobytes()]
    if getattr(G, 'coords', None) is not None:
        out.append(np.ascontiguousarray(G.coords).tobytes())
    out.append(G.L.toarray().tobytes())
    out += sorted((k, np.asarray(v).tobytes()) for k, v in G.signals.items())
    info = getattr(G, 'info', None)
    if isinstance(info, dict):
        out += sorted((k, np.asarray(v).tobytes()) for k, v in info.items() if not isinstance(v, dict) and np.asarray(v).dtype != object)
    return out


def calls():
    from pygsp import graphs, reduction

    def lay(kind, base=lambda: graphs.Ring(9), **kw):
        def f(s):
            G = base()
            G.set_coordinates(kind, seed=s, **kw)
            return G
        return f
    c = dict(
        sensor=lambda s: graphs.Sensor(18, seed=s), sensor_d=lambda s: graphs.Sensor(16, distributed=True, seed=s), sensor_k=lambda s: graphs.Sensor(12, k=3, seed=s),
        cube=lambda s: graphs.Cube(nb_pts=20, seed=s), cube2=lambda s: graphs.Cube(nb_pts=16, nb_dim=2, seed=s), sphere=lambda s: graphs.Sphere(nb_pts=18, seed=s),
        moons=lambda s: graphs.TwoMoons('synthesized', N=20, seed=s), swiss=lambda s: graphs.SwissRoll(20, seed=s), swiss_n=lambda s: graphs.SwissRoll(20, noise=True, srtype='classic', seed=s),
        david=lambda s: graphs.DavidSensorNet(20, seed=s), er=lambda s: graphs.ErdosRenyi(14, .4, seed=s), er_c=lambda s: graphs.ErdosRenyi(12, .4, connected=True, seed=s),
        er_d=lambda s: graphs.ErdosRenyi(12, .4, directed=True, self_loops=True, seed=s),
        sbm=lambda s: graphs.StochasticBlockModel(14, 3, p=.7, q=.2, seed=s), sbm_z=lambda s: graphs.StochasticBlockModel(14, 2, z=np.arange(14) % 2, p=[.8, .3], q=.2, seed=s),
        sbm_c=lambda s: graphs.StochasticBlockModel(12, 2, p=.8, q=.4, connected=True, seed=s),
        er_retry=lambda s: graphs.ErdosRenyi(11, .17, connected=True, n_try=None, seed=s), er_big=lambda s: graphs.ErdosRenyi(70, .1, seed=s),
        sbm_retry=lambda s: graphs.StochasticBlockModel(9, 2, p=.4, q=.1, connected=True, n_try=None, directed=True, seed=s), sbm_big=lambda s: graphs.StochasticBlockModel(60, 4, seed=s),
        comm_d=lambda s: graphs.Community(20, Nc=3, comm_density=.5, world_density=.6, seed=s), comm_big=lambda s: graphs.Community(70, Nc=4, world_density=.1, seed=s),
        comm_many=lambda s: graphs.Community(60, Nc=5, world_density=.4, comm_density=.3, seed=s), sensor_big=lambda s: graphs.Sensor(150, seed=s), ring_big=lambda s: graphs.RandomRing(100, seed=s),
        ba_big=lambda s: graphs.BarabasiAlbert(60, m0=3, m=3, seed=s), regular_big=lambda s: graphs.RandomRegular(40, 5, seed=s), swiss_big=lambda s: graphs.SwissRoll(120, seed=s),
        spring_big=lay('spring', lambda: graphs.Grid2d(9), iterations=3), random_big=lay('random2D', lambda: graphs.Ring(130)),
        sparsify_big=lambda s: reduction.graph_sparsify(graphs.FullConnected(40), .5, seed=s),
        ba=lambda s: graphs.BarabasiAlbert(16, seed=s), ba2=lambda s: graphs.BarabasiAlbert(16, m0=4, m=2, seed=s), regular=lambda s: graphs.RandomRegular(14, 4, seed=s),
        ring=lambda s: graphs.RandomRing(12, seed=s), comm=lambda s: graphs.Community(30, seed=s), comm_s=lambda s: graphs.Community(24, Nc=3, comm_sizes=[8, 10, 6], seed=s),
        comm_k=lambda s: graphs.Community(24, Nc=2, k_neigh=3, seed=s), comm_e=lambda s: graphs.Community(24, Nc=2, epsilon=.6, seed=s),
        random2D=lay('random2D'), random3D=lay('random3D'), spring=lay('spring', iterations=8), spring3=lay('spring', dim=3, iterations=4),
        spring_f=lay('spring', iterations=4, pos=np.arange(18.).reshape(9, 2), fixed=[0, 4]),
        community2D=lay('community2D', lambda: graphs.Community(12, Nc=2, seed=1)),
        sparsify=lambda s: reduction.graph_sparsify(graphs.FullConnected(9), .9, seed=s),
        sparsify_w=lambda s: reduction.graph_sparsify(graphs.Sensor(14, seed=2), .9, seed=s),
        sparsify_L=lambda s: reduction.graph_sparsify(graphs.FullConnected(8).L, .9, seed=s),
    )
    return c


FIXED = ('spring_f',)          # the result need not depend on the seed


def result(f, s):
    r = f(s)
    if hasattr(r, 'W'):
        return arrays(r)
    return [r.toarray().tobytes()]


def cases(tier):
    names = NAMES
    for n in names:
        yield dict(kind='call', name=n, thorough=tier == 'thorough', id='call-' + n)
        yield dict(kind='pairs', name=n, depth=3 if tier == 'thorough' else 2, id='pairs-' + n)
    for n in BIG:
        yield dict(kind='call', name=n, thorough=tier == 'thorough', id='call-' + n)
    yield dict(kind='process', seeds=list(range(12 if tier == 'thorough' else 4)), id='process')
    yield dict(kind='shared', id='shared')


BIG = ['er_big', 'sbm_big', 'comm_big', 'comm_many', 'sensor_big', 'ring_big', 'ba_big', 'regular_big', 'swiss_big', 'spring_big', 'random_big', 'sparsify_big']
NAMES = ['er_retry', 'sbm_retry', 'comm_d', 'sensor', 'sensor_d', 'sensor_k', 'cube', 'cube2', 'sphere', 'moons', 'swiss', 'swiss_n', 'david', 'er', 'er_c', 'er_d', 'sbm', 'sbm_z', 'sbm_c', 'ba', 'ba2',
         'regular', 'ring', 'comm', 'comm_s', 'comm_k', 'comm_e', 'random2D', 'random3D', 'spring', 'spring3', 'spring_f', 'community2D', 'sparsify', 'sparsify_w', 'sparsify_L']


def global_states():
    """An alphabet of states of the generators the user may be using."""
    def a():
        np.random.seed(0)
        random.seed(0)

    def b():
        np.random.seed(7)
        np.random.normal()        # leaves half of a pair of normals cached

    def c():
        np.random.uniform(size=1000)
        random.random()

    def d():
        np.random.default_rng(3).uniform(size=5)
        np.random.set_state(('MT19937', np.arange(624, dtype=np.uint32) + 1, 3, 0, 0.))

    def e():
        pass
    return [a, b, c, d, e]


def snap():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_call(case, ctx):
    f = calls()[case['name']]
    seeds = SEEDS + (list(range(3, 21)) if case['thorough'] else [])
    base = {}
    for s in seeds:
        base[s] = result(f, s)
        ctx.op()
        ctx.state(fingerprint([repr(x) for x in base[s]]))
        for i, g in enumerate(global_states()):
            g()
            before = snap()
            again = result(f, s)
            ctx.op()
            ctx.trace()
            ctx.check(again == base[s], f'seed {s}: another result after global state {i}', key='irreproducible')
            ctx.check(snap() == before, f'seed {s}: the state of the global generators changed', key='global-state')
        for t in (np.int64(s), np.uint32(s)):
            ctx.check(result(f, t) == base[s], f'seed {s} as {type(t).__name__} gives another result', key='seed-type')
            ctx.op()
    if case['name'] not in FIXED:
        for s in SPREAD:
            if s not in base:
                base[s] = result(f, s)
                ctx.op()
        for s, t in itertools.combinations(base, 2):
            ctx.check(base[s] != base[t], f'seeds {s} and {t} give the same result', key='seed-ignored')


def run_pairs(case, ctx):
    c = calls()
    f = c[case['name']]
    base = result(f, 5)
    for h in itertools.product(NAMES, repeat=case['depth'] - 1):
        for n in h:
            r = c[n](5)
            use(r)
        ctx.op(len(h) + 1)
        ctx.trace()
        ctx.check(result(f, 5) == base, f'another result after {"+".join(h)}', key='history')
        ctx.state(case['name'], h)


def use(r):
    """What a user does with the graph: none of it may change later draws."""
    if hasattr(r, 'estimate_lmax') and r.Ne:
        r.estimate_lmax()
        r.is_connected()


def run_shared(case, ctx):
    """A generator passed as the seed is drawn from and not replaced: consecutive calls continue it."""
    from pygsp import graphs
    for name in ('sensor', 'er', 'ring', 'regular', 'sbm', 'ba', 'swiss', 'david', 'random2D', 'spring', 'comm'):
        f = calls()[name]
        try:
            r = np.random.default_rng(9)
            a, b = result(f, r), result(f, r)
            r = np.random.default_rng(9)
            a2, b2 = result(f, r), result(f, r)
        except TypeError:
            continue
        ctx.op(4)
        ctx.trace()
        ctx.check(a == a2 and b == b2, f'{name}: a generator given as the seed is not reproducible', key='generator')
        ctx.check(a != b, f'{name}: two calls with one generator give the same result', key='generator-same')
    ctx.state('shared')
    G = graphs.Sensor(10, seed=3)
    ctx.check('seed=3' in repr(G), f'the seed is not shown: {G!r}', key='repr')


def child():
    """Hash of every result, in a process with its own hash seed."""
    c = calls()
    return {n: fingerprint([repr(x) for s in (0, 5) for x in result(c[n], s)]) for n in NAMES}


def run_process(case, ctx):
    base = child()
    code = ('import sys,json; sys.path.insert(0,%r); from mc import core; core.setup_env(); from mc import p23; '
            'print("RESULT "+json.dumps(p23.child()))' % ROOT)
    procs = []
    for h in case['seeds']:
        env = dict(os.environ, PYTHONHASHSEED=str(h), PYGSP_REPO=REPO, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        procs.append((h, subprocess.Popen([sys.executable, '-c', code], env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    for h, p in procs:
        try:
            out, _ = p.communicate(timeout=100)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Skip('the child process takes too long')
        line = [l for l in out.splitlines() if l.startswith('RESULT ')]
        if not line:
            raise Skip('the child process did not run')
        got = json.loads(line[0][7:])
        ctx.op(len(got))
        ctx.trace()
        for n in NAMES:
            ctx.check(got[n] == base[n], f'{n}: another result in a process with hash seed {h}', key='process')
            ctx.state(n, got[n])
