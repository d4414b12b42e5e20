"""Controlled random generator: every random outcome of the code under test is a
decision of the explorer, with its exact probability."""
import itertools
from fractions import Fraction

import numpy as np

from .core import Skip

real_default_rng = np.random.default_rng
RealRandomState = np.random.RandomState
current = None


class _Meta(type):
    def __call__(cls, seed=None):
        return Stub(current, seed)

    def __instancecheck__(cls, x):
        return isinstance(x, RealRandomState)


class FakeRandomState(metaclass=_Meta):
    pass


def install():
    """Route numpy.random.default_rng to the explorer while one is active."""
    def default_rng(seed=None):
        if current is None:
            return real_default_rng(seed)
        if isinstance(seed, Stub):
            return seed
        return Stub(current, seed)
    default_rng.__doc__ = real_default_rng.__doc__
    np.random.default_rng = default_rng


class FakeDiscrete:
    """scipy.stats.rv_discrete(values=...), every draw decided by the explorer."""

    def __init__(self, values=None, seed=None, **kw):
        if values is None:
            raise Skip('rv_discrete without values')
        self.xk, self.pk = np.ravel(values[0]), np.ravel(values[1]).astype(float)
        if len(self.xk) != len(self.pk) or (self.pk < 0).any() or abs(self.pk.sum() - 1) > 1e-8:
            raise ValueError('The sum of provided pk is not 1.')
        self.ex = current
        current.seeds.append(seed)

    def rvs(self, *args, size=1, **kw):
        w = [Fraction(float(v)).limit_denominator(10 ** 9) for v in self.pk]
        t = sum(w)
        opts = [(i, v / t) for i, v in enumerate(w)]
        n = 1 if size is None else int(np.prod(size))
        got = np.array([self.xk[self.ex.pick(opts)] for _ in range(n)])
        return got[0] if size is None else got.reshape(size)


class Overflow(BaseException):
    """The run takes more decisions than the explorer allows."""


class Explorer:
    """Depth-first enumeration of all decision sequences."""

    def __init__(self, cells=2, max_draws=400):
        self.cells, self.max_draws = cells, max_draws
        self.prefix = []
        self.seeds = []

    def pick(self, options):
        """options: list of (value, probability); returns one of the values."""
        options = [o for o in options if o[1] > 0]
        if len(options) == 1:
            return options[0][0]
        i = len(self.path)
        if i >= self.max_draws:
            raise Overflow()
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.path.append((c, len(options)))
        self.prob *= Fraction(options[c][1]).limit_denominator(10 ** 9) if not isinstance(options[c][1], Fraction) else options[c][1]
        return options[c][0]

    def run(self, f):
        global current
        self.path, self.prob, self.chosen = [], Fraction(1), []
        prev, current = current, self
        import scipy.stats
        real_rv = scipy.stats.rv_discrete
        np.random.RandomState = FakeRandomState
        scipy.stats.rv_discrete = FakeDiscrete
        try:
            return f()
        finally:
            current = prev
            scipy.stats.rv_discrete = real_rv
            if current is None:
                np.random.RandomState = RealRandomState

    def advance(self):
        p = list(self.path)
        while p and p[-1][0] + 1 >= p[-1][1]:
            p.pop()
        if not p:
            return False
        self.prefix = [c for c, _ in p[:-1]] + [p[-1][0] + 1]
        return True

    def all(self, f, limit):
        """Yield (result or exception, probability) for every outcome."""
        self.complete = False
        self.runs = 0
        while self.runs < limit:
            self.runs += 1
            try:
                r = self.run(f)
            except Skip:
                raise
            except Exception as e:
                r = e
            yield r, self.prob
            if not self.advance():
                self.complete = True
                return


class Deviations(Explorer):
    """All outcome sequences that differ from a base policy in at most `d` decisions
    (the tree of all outcomes is too large or infinite)."""

    def __init__(self, policy, d, cells=2, max_draws=400, horizon=40):
        super().__init__(cells, max_draws)
        self.policy, self.d, self.horizon = policy, d, horizon

    def pick(self, options):
        options = [o for o in options if o[1] > 0]
        if len(options) == 1:
            return options[0][0]
        i = len(self.path)
        if i >= self.max_draws:
            raise Overflow()
        base = self.policy(i, len(options)) % len(options)
        off = self.plan.get(i, 0)
        self.path.append(len(options))
        self.chosen.append((base + off) % len(options))
        return options[self.chosen[-1]][0]

    def all(self, f, limit):
        self.complete = False
        self.runs = 0
        todo = [{}]
        while todo:
            if self.runs >= limit:
                return
            self.plan = todo.pop()
            self.runs += 1
            try:
                r = self.run(f)
            except Skip:
                raise
            except Exception as e:
                r = e
            yield r, None
            if len(self.plan) < self.d:
                first = max(self.plan) + 1 if self.plan else 0
                for i in range(min(len(self.path), self.horizon) - 1, first - 1, -1):
                    for off in range(self.path[i] - 1, 0, -1):
                        todo.append({**self.plan, i: off})
        self.complete = True


POLICIES = dict(
    zero=lambda i, n: 0,
    ends=lambda i, n: (n - 1) * (i % 2),
    spread=lambda i, n: (7 * i + 3 * (i // 2) + i // 5 + 1) % n,
    walk=lambda i, n: (i * i + i // 3) % n,
)


class Stub:
    """The part of numpy.random.Generator used to build graphs."""

    def __init__(self, ex, seed):
        self.ex = ex
        ex.seeds.append(seed)

    def _many(self, size, one):
        if size is None:
            return one()
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        out = [one() for _ in range(int(np.prod(shape)))]
        return np.array(out).reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            raise Skip('uniform with array bounds')
        m = self.ex.cells
        opts = [((2 * j + 1) / (2 * m), Fraction(1, m)) for j in range(m)]
        return self._many(size, lambda: low + (high - low) * self.ex.pick(opts))

    def random(self, size=None, dtype=float, out=None):
        return self.uniform(size=size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if np.ndim(low) or np.ndim(high):
            raise Skip('integers with array bounds')
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        n = int(high) - int(low)
        if n <= 0:
            raise ValueError('low >= high')
        opts = [(int(low) + j, Fraction(1, n)) for j in range(n)]
        if size is None:
            return np.int64(self.ex.pick(opts))
        return self._many(size, lambda: self.ex.pick(opts)).astype(np.int64)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(items)
        w = [Fraction(1, n)] * n if p is None else [Fraction(float(v)).limit_denominator(10 ** 6) for v in np.ravel(p)]
        if p is not None and abs(sum(w) - 1) > Fraction(1, 10 ** 4):
            raise ValueError('probabilities do not sum to 1')
        count = 1 if size is None else int(np.prod(size))
        if not replace and (count > n or (p is not None and count > sum(v > 0 for v in w))):
            raise ValueError('Fewer non-zero entries in p than size')
        got = []
        left = list(w)
        for _ in range(count):
            t = sum(left)
            i = self.ex.pick([(j, v / t) for j, v in enumerate(left) if v > 0])
            got.append(i)
            if not replace:
                left[i] = Fraction(0)
        if size is None:
            return items[got[0]]
        return items[np.array(got, dtype=int)].reshape(np.append(size, items.shape[1:]).astype(int))

    def permutation(self, x, axis=0):
        items = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        left = list(range(len(items)))
        got = []
        while left:
            i = self.ex.pick([(j, Fraction(1, len(left))) for j in range(len(left))])
            got.append(left.pop(i))
        return items[np.array(got, dtype=int)]

    def shuffle(self, x, axis=0):
        x[:] = self.permutation(np.array(x))

    def binomial(self, n, p, size=None):
        if np.ndim(n):
            raise Skip('binomial with array n')

        def one(q):
            q = Fraction(float(q)).limit_denominator(10 ** 6)
            return sum(self.ex.pick([(0, 1 - q), (1, q)]) for _ in range(int(n)))
        if np.ndim(p):
            if size is not None and tuple(np.atleast_1d(size)) != np.shape(p):
                raise Skip('binomial with broadcast p')
            return np.array([one(q) for q in np.ravel(p)]).reshape(np.shape(p))
        return self._many(size, lambda: one(p))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(size, lambda: loc + scale * self.ex.pick([(-1., Fraction(1, 3)), (0., Fraction(1, 3)), (1., Fraction(1, 3))]))

    def rand(self, *shape):
        return self.uniform(size=shape or None)

    def random_sample(self, size=None):
        return self.uniform(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        return self.integers(low, high, size)

    def standard_normal(self, size=None, dtype=float, out=None):
        return self.normal(size=size)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Skip(f'the controlled generator has no {name}')
