"""Every random draw of the library becomes a choice point of the explorer.

`install()` replaces the functions of `random` and `numpy.random` by dispatchers.  Without an active chooser they
call the original; with one, each draw asks the chooser for an alternative out of a finite menu.
"""
import contextlib
import math
import random

import numpy as np

ACTIVE = None          # the active Control, if any
_installed = False
_orig = {}


class Standard(float):
    """A standard exponential draw; the first factor it is multiplied with is the mean that was asked for."""
    draws = at = None

    def _scaled(self, by):
        kind, scale, v = self.draws[self.at]
        if scale == 1.0:
            self.draws[self.at] = (kind, float(by), v * float(by))
        return float(self) * by

    def __mul__(self, o):
        return self._scaled(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        self._scaled(1.0 / o)
        return float(self) / o


class Control(object):
    """How draws map to choices.

    exp_menu: multiples of the mean an exponential draw can take; unif_menu: values of a uniform draw in [0,1);
    exhaust_multinomial: choose among all outcomes with positive probability.
    """

    def __init__(self, chooser, exp_menu=(1.0,), unif_menu=(0.5,)):
        self.ch = chooser
        self.exp_menu = list(exp_menu)
        self.unif_menu = list(unif_menu)
        self.draws = []            # (kind, parameters, value) in order

    def below(self, n):
        n = int(n)
        v = self.ch.choose(n) if n > 1 else 0
        self.draws.append(("below", n, v))
        return v

    def uniform(self):
        k = len(self.unif_menu)
        v = self.unif_menu[self.ch.choose(k) if k > 1 else 0]
        self.draws.append(("uniform", None, v))
        return v

    def expo(self, scale):
        scale = float(scale)
        if not scale >= 0:
            raise ValueError("scale < 0")
        k = len(self.exp_menu)
        v = self.exp_menu[self.ch.choose(k) if k > 1 else 0] * scale
        self.draws.append(("exp", scale, v))
        if scale == 1.0:
            v = Standard(v)
            v.draws, v.at = self.draws, len(self.draws) - 1
        return v

    def pick(self, pvals):
        p = np.asarray(pvals, dtype=float)
        if np.any(np.isnan(p)) or np.any(p < 0) or np.any(p > 1) or p[:-1].sum() > 1.0 + 1e-12:
            raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
        pos = [i for i in range(len(p)) if p[i] > 0]
        if not pos:                   # numpy gives the rest of the probability to the last outcome
            pos = [len(p) - 1]
        v = pos[self.ch.choose(len(pos)) if len(pos) > 1 else 0]
        self.draws.append(("pick", p.tolist(), v))
        return v

    def bern(self, p):
        p = float(p)
        if not 0 <= p <= 1:
            raise ValueError("p < 0, p > 1 or p is NaN")
        v = 0 if p == 0 else 1 if p == 1 else self.ch.choose(2)
        self.draws.append(("bern", p, v))
        return v


def _fill(size, f, dtype=float):
    if size is None:
        return f()
    a = np.empty(size, dtype=dtype)
    flat = a.reshape(-1)
    for i in range(flat.size):
        flat[i] = f()
    return a


class Ctl(object):
    """numpy.random-like functions under control (also what a controlled default_rng() returns)."""

    def exponential(self, scale=1.0, size=None):
        if np.ndim(scale):
            s = np.asarray(scale, dtype=float)
            return np.array([ACTIVE.expo(x) for x in s.ravel()]).reshape(s.shape)
        return _fill(size, lambda: ACTIVE.expo(scale))

    def standard_exponential(self, size=None, **kw):
        return _fill(size, lambda: ACTIVE.expo(1.0))

    def random_sample(self, size=None):
        return _fill(size, ACTIVE.uniform)

    random = random_sample
    sample = random_sample
    ranf = random_sample

    def rand(self, *shape):
        return _fill(shape or None, ACTIVE.uniform)

    def uniform(self, low=0.0, high=1.0, size=None):
        return _fill(size, lambda: low + (high - low) * ACTIVE.uniform())

    def binomial(self, n, p, size=None):
        return _fill(size, lambda: sum(ACTIVE.bern(p) for _ in range(int(n))), int)

    def multinomial(self, n, pvals, size=None):
        def one():
            r = np.zeros(len(pvals), dtype=int)
            for _ in range(int(n)):
                r[ACTIVE.pick(pvals)] += 1
            return r
        if size is None:
            return one()
        sz = (size,) if np.isscalar(size) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(sz)))]).reshape(sz + (len(pvals),))

    def choice(self, a, size=None, replace=True, p=None, **kw):
        pop = list(range(a)) if np.ndim(a) == 0 else list(a)
        if p is not None:
            f = lambda: pop[ACTIVE.pick(p)]
        elif size is not None and not replace:
            rest = pop[:]
            f = lambda: rest.pop(ACTIVE.below(len(rest)))
        else:
            f = lambda: pop[ACTIVE.below(len(pop))]
        if size is None:
            return f()
        k = int(np.prod(size))
        return np.array([f() for _ in range(k)]).reshape(size)

    def randint(self, low, high=None, size=None, dtype=int, **kw):
        lo, hi = (0, low) if high is None else (low, high)
        if int(hi) - int(lo) > 1000:       # a seed, not a choice among alternatives
            return _orig["np.randint"](low, high, size, dtype) if "np.randint" in _orig else lo
        return _fill(size, lambda: int(lo) + ACTIVE.below(int(hi) - int(lo)), dtype)

    integers = randint

    def shuffle(self, x, *a, **kw):
        for i in reversed(range(1, len(x))):
            j = ACTIVE.below(i + 1)
            x[i], x[j] = x[j], x[i]

    def permutation(self, x, *a, **kw):
        r = list(range(x)) if np.ndim(x) == 0 else list(x)
        self.shuffle(r)
        return np.array(r)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    ctl = Ctl()

    def disp(mod, name, key, fn):
        orig = getattr(mod, name, None)
        if orig is None:
            return
        _orig[key] = orig

        def f(*a, **k):
            return fn(*a, **k) if ACTIVE is not None else orig(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)

    for name in ("exponential", "standard_exponential", "random_sample", "random", "sample", "ranf", "rand",
                 "uniform", "binomial", "multinomial", "choice", "randint", "shuffle", "permutation"):
        disp(np.random, name, "np." + name, getattr(ctl, name))
    disp(np.random, "default_rng", "np.default_rng", lambda *a, **k: ctl)
    disp(np.random, "RandomState", "np.RandomState", lambda *a, **k: ctl)

    ob = random.Random._randbelow

    def below(self, n):
        return ACTIVE.below(n) if ACTIVE is not None else ob(self, n)
    random.Random._randbelow = below
    disp(random, "random", "random.random", lambda: ACTIVE.uniform())
    disp(random, "uniform", "random.uniform", lambda a, b: a + (b - a) * ACTIVE.uniform())
    disp(random, "expovariate", "random.expovariate", lambda l=1.0: ACTIVE.expo(1.0 / l))

    def choices(pop, weights=None, *, cum_weights=None, k=1):
        if weights is None and cum_weights is None:
            return [pop[ACTIVE.below(len(pop))] for _ in range(k)]
        w = list(weights) if weights is not None else [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        s = float(sum(w))
        return [pop[ACTIVE.pick([x / s for x in w])] for _ in range(k)]
    disp(random, "choices", "random.choices", choices)

    def sample(population, k, *, counts=None):
        # the library's own method rejects repetitions, which never ends when a draw is always the same
        if counts is not None or isinstance(population, (set, frozenset, dict)):
            return _orig["random.sample"](population, k, counts=counts)
        rest = [x for x in population]
        if not 0 <= k <= len(rest):
            raise ValueError("Sample larger than population or is negative")
        return [rest.pop(ACTIVE.below(len(rest))) for _ in range(k)]
    disp(random, "sample", "random.sample", sample)


@contextlib.contextmanager
def controlled(control):
    global ACTIVE
    prev, ACTIVE = ACTIVE, control
    try:
        yield control
    finally:
        ACTIVE = prev
