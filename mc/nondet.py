"""Controlled nondeterminism: replaces the random generators of `random` and `numpy.random` by a script and
enumerates all scripts (stateless depth-first exploration)."""
import random, contextlib
from fractions import Fraction
import numpy as np


class Script:
    """choices: indices already decided; arity recorded as the run goes on"""
    def __init__(self, prefix=(), n=4, zs=(-1.0, 0.0, 1.0), max_calls=10000):
        self.prefix = list(prefix)
        self.n = n
        self.zs = zs
        self.trace = []      # (choice, arity)
        self.calls = 0
        self.seeds = []
        self.max_calls = max_calls
        self.fixed = None    # constant answer of random(), instead of branching

    def choose(self, arity):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, arity))
        if len(self.trace) > self.max_calls:
            raise RuntimeError('too many random draws')
        return c

    def random(self):
        self.calls += 1
        if self.fixed is not None:
            return self.fixed
        return (self.choose(self.n) + 0.5) / self.n

    def z(self):
        self.calls += 1
        return self.zs[self.choose(len(self.zs))]

    def weight(self):
        w = Fraction(1)
        for c, a in self.trace:
            w /= a
        return w


def explore(run, n=4, zs=(-1.0, 0.0, 1.0), limit=200000):
    """Yields (script, result of run(script)) for every sequence of answers."""
    prefix = []
    k = 0
    while True:
        s = Script(prefix, n, zs)
        yield s, run(s)
        k += 1
        if k > limit:
            raise RuntimeError('exploration limit')
        t = s.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]


@contextlib.contextmanager
def controlled(s):
    """random.* and numpy.random.* answer from script s"""
    saved = {}

    class Fake(random.Random):
        def __init__(self, *a, **k):
            super().__init__(0)
            s.seeds.append(a)

        def seed(self, *a, **k):
            pass

        def random(self):
            return s.random()

        def getrandbits(self, k):
            return int(s.random() * (1 << k))

        def gauss(self, mu=0.0, sigma=1.0):
            return mu + sigma * s.z()
        normalvariate = gauss

    inst = Fake()
    s.seeds.clear()
    names = ['random', 'uniform', 'gauss', 'normalvariate', 'choice', 'randint', 'randrange', 'shuffle', 'sample', 'getrandbits', 'choices', 'betavariate']
    for nm in names:
        saved[('r', nm)] = getattr(random, nm)
        setattr(random, nm, getattr(inst, nm))
    saved[('r', 'seed')] = random.seed
    random.seed = lambda *a, **k: s.seeds.append(a)
    saved[('r', 'Random')] = random.Random
    random.Random = Fake

    def vec(f, size):
        if size is None:
            return f()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([f() for _ in range(int(np.prod(shape)))], float).reshape(shape)

    def uniform(low=0.0, high=1.0, size=None):
        return vec(lambda: low + (high - low) * s.random(), size)

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        z = vec(s.z, size)
        return loc + scale * z

    def rand(*d):
        return uniform(size=d or None)

    def randn(*d):
        return vec(s.z, d or None)

    def perm(n):
        idx = list(range(n))
        out = []
        while idx:
            s.calls += 1
            out.append(idx.pop(s.choose(len(idx)) if len(idx) > 1 else 0))
        return out

    def shuffle(x):
        p = perm(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def permutation(x):
        if np.isscalar(x):
            return np.array(perm(int(x)))
        x = np.asarray(x)
        return x[perm(len(x))]

    def choice(a, size=None, replace=True, p=None):
        pool = np.arange(a) if np.isscalar(a) else np.asarray(a)
        k = 1 if size is None else int(np.prod(size))
        if replace:
            out = []
            for _ in range(k):
                s.calls += 1
                out.append(pool[s.choose(len(pool)) if len(pool) > 1 else 0])
        else:
            out = [pool[i] for i in perm(len(pool))[:k]]
        return out[0] if size is None else np.array(out).reshape(size)

    def randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)

        def one():
            s.calls += 1
            return lo + (s.choose(hi - lo) if hi - lo > 1 else 0)
        if size is None:
            return one()
        return vec(one, size).astype(int)
    fakes = dict(uniform=uniform, normal=normal, rand=rand, randn=randn, shuffle=shuffle, permutation=permutation, choice=choice, randint=randint,
                 logistic=normal, random=lambda size=None: uniform(size=size), random_sample=lambda size=None: uniform(size=size),
                 standard_normal=lambda size=None: normal(size=size), seed=lambda *a, **k: s.seeds.append(a))

    class FakeNp:
        def __init__(self, *a, **k):
            s.seeds.append(a)

        def __getattr__(self, nm):
            if nm in fakes:
                return fakes[nm]
            if nm == 'integers':
                return randint
            raise AttributeError(nm)
    fakes['RandomState'] = FakeNp
    fakes['default_rng'] = FakeNp
    for nm, f in fakes.items():
        saved[('n', nm)] = getattr(np.random, nm)
        setattr(np.random, nm, f)
    try:
        yield s
    finally:
        for (m, nm), f in saved.items():
            setattr(random if m == 'r' else np.random, nm, f)
