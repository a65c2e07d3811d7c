"""Controlled randomness: every answer of numpy.random / random / scipy draws becomes a choice point."""
import contextlib
import itertools
import random as pyrandom
import sys
from fractions import Fraction
from .core import CH

UNI = (0.02, 0.3, 0.7, 0.98)
Z = (0.0, 1.0, -1.0)


class Unowned(Exception):
    """The code asked a source of randomness the harness does not own."""


class Rnd:
    """One set of answers; `log` records what was asked (kind, arguments, answer)."""

    def __init__(self, uni=UNI, z=Z, exact_choice=True):
        self.uni, self.z, self.log = tuple(uni), tuple(z), []
        self.exact_choice = exact_choice

    # -- scalar sources
    def u(self):
        v = self.uni[CH.pick(len(self.uni), tag='u')]
        self.log.append(('u', v))
        return v

    def gauss(self, mu=0.0, sd=1.0):
        v = mu + sd * self.z[CH.pick(len(self.z), tag='z')]
        self.log.append(('z', mu, sd, v))
        return v

    def index(self, n, p=None):
        if p is None:
            i = CH.pick(n, tag='i')
        else:
            cand = [j for j in range(n) if p[j] > 0]
            i = cand[CH.pick(len(cand), [Fraction(float(p[j])) for j in cand], tag='p')]
        self.log.append(('i', n, i))
        return i

    def arr(self, one, size):
        import numpy as np
        if size is None:
            return one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        k = 1
        for s in shape:
            k *= s
        return np.array([one() for _ in range(k)]).reshape(shape)

    # -- numpy.random
    def random(self, size=None):
        return self.arr(self.u, size)

    def rand(self, *shape):
        return self.arr(self.u, shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.arr(lambda: low + (high - low) * self.u(), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            l, s = np.broadcast_arrays(loc, scale)
            return np.array([self.gauss(a, b) for a, b in zip(l.ravel(), s.ravel())]).reshape(l.shape)
        return self.arr(lambda: self.gauss(loc, scale), size)

    def randn(self, *shape):
        return self.arr(lambda: self.gauss(), shape or None)

    def standard_normal(self, size=None):
        return self.arr(lambda: self.gauss(), size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.arr(lambda: low + self.index(high - low), size)

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        seq = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        if p is not None:
            p = np.asarray(p, float)
            if len(p) != len(seq):
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any():
                raise ValueError('probabilities contain NaN')
            if (p < 0).any():
                raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1) > 1e-6:
                raise ValueError('probabilities do not sum to 1')
        if len(seq) == 0:
            raise ValueError('a cannot be empty')
        self.log.append(('choice', len(seq), size, replace, None if p is None else tuple(p)))
        if replace or size is None:
            return self.arr(lambda: seq[self.index(len(seq), p)], size)
        k = int(np.prod(size))
        if k > len(seq):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        left = list(range(len(seq)))
        out = []
        for _ in range(k):
            w = None if p is None else [p[i] for i in left]
            if w is not None:
                t = sum(w)
                w = [x / t for x in w]
            out.append(left.pop(self.index(len(left), w)))
        return seq[np.array(out, int)].reshape(size)

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.index(i + 1)
            x[i], x[j] = x[j], x[i]

    def permutation(self, x):
        import numpy as np
        seq = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(seq)
        return np.array(seq)

    def binomial(self, n, p, size=None):
        return self.arr(lambda: sum(1 for _ in range(int(n)) if self.u() < p), size)

    def exponential(self, scale=1.0, size=None):
        import math
        return self.arr(lambda: -math.log(1 - self.u()) * scale, size)

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def poisson(self, lam=1.0, size=None):
        import scipy.stats as sts
        return self.arr(lambda: int(sts.poisson.ppf(self.u(), lam)), size)

    # -- random
    def py_choice(self, seq):
        return seq[self.index(len(seq))]

    def py_choices(self, population, weights=None, *, cum_weights=None, k=1):
        p = None
        if weights is not None:
            t = float(sum(weights))
            p = [w / t for w in weights]
        return [population[self.index(len(population), p)] for _ in range(k)]

    def py_sample(self, population, k):
        left = list(population)
        return [left.pop(self.index(len(left))) for _ in range(k)]

    def py_randint(self, a, b):
        return a + self.index(b - a + 1)

    def py_randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.index(len(r))]

    # -- scipy
    def ppf(self, dist, args, kwds, size):
        return self.arr(lambda: dist.ppf(self.u(), *args, **kwds), size)


NP = ('random', 'rand', 'uniform', 'normal', 'randn', 'standard_normal', 'randint', 'choice', 'shuffle', 'permutation',
      'binomial', 'exponential', 'standard_exponential', 'poisson')
ALIAS = {'random_sample': 'random', 'ranf': 'random', 'sample': 'random'}
UNOWNED = ('gamma', 'beta', 'multinomial', 'lognormal', 'chisquare', 'dirichlet',
           'standard_gamma', 'triangular', 'multivariate_normal', 'geometric')
PY = {'random': 'u', 'uniform': None, 'choice': 'py_choice', 'choices': 'py_choices', 'sample': 'py_sample',
      'randint': 'py_randint', 'randrange': 'py_randrange', 'shuffle': 'shuffle', 'gauss': 'gauss',
      'normalvariate': 'gauss'}


@contextlib.contextmanager
def owned(r=None, scipy_draws=True):
    """Replace the sources of randomness (and every reference to them in modules of the system) by `r`."""
    import numpy.random as nr
    from scipy.stats import _distn_infrastructure as di
    r = r or Rnd()
    swap = {}
    saved = []

    def put(mod, name, fn):
        old = getattr(mod, name, None)
        if old is None:
            return
        saved.append((mod, name, old))
        swap[id(old)] = (old, fn)
        setattr(mod, name, fn)

    for n in NP:
        put(nr, n, getattr(r, n))
    for n, t in ALIAS.items():
        put(nr, n, getattr(r, t))
    for n in UNOWNED:
        def no(*a, _n=n, **k):
            raise Unowned('numpy.random.%s' % _n)
        put(nr, n, no)
    for n, t in PY.items():
        put(pyrandom, n, getattr(r, t) if t else (lambda a, b: a + (b - a) * r.u()))
    put(nr, 'default_rng', lambda *a, **k: Gen(r))
    # references taken at import time (bound methods compare equal, not identical)
    table = [(old, fn) for old, fn in swap.values()]
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith('sims_pars'):
            continue
        for k, v in list(vars(mod).items()):
            if callable(v) and not isinstance(v, type):
                for old, fn in table:
                    if v is old or (type(v) is type(old) and v == old):
                        saved.append((mod, k, v))
                        setattr(mod, k, fn)
                        break
    if scipy_draws:
        def frozen_rvs(self, size=None, random_state=None):
            return r.ppf(self.dist, self.args, self.kwds, size)

        def generic_rvs(self, *args, **kwds):
            size = kwds.pop('size', None)
            kwds.pop('random_state', None)
            return r.ppf(self, args, kwds, size)
        saved.append((di.rv_frozen, 'rvs', di.rv_frozen.rvs))
        di.rv_frozen.rvs = frozen_rvs
        saved.append((di.rv_generic, 'rvs', di.rv_generic.rvs))
        for cls in (di.rv_continuous, di.rv_discrete):
            if 'rvs' in vars(cls):
                saved.append((cls, 'rvs', cls.rvs))
                cls.rvs = generic_rvs
        di.rv_generic.rvs = generic_rvs
    try:
        yield r
    finally:
        for mod, name, old in reversed(saved):
            setattr(mod, name, old)


class Gen:
    """numpy.random.Generator look-alike."""

    def __init__(self, r):
        self._r = r

    def integers(self, low, high=None, size=None, **kw):
        return self._r.randint(low, high, size)

    def __getattr__(self, k):
        return getattr(self._r, k)
