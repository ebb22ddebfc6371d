"""Crash points: the k-th call from the library into its environment (numpy, scipy, the random draws) fails once.

Only calls made while `failing` is active count.  The fault fires once, so that code which cleans up after it can run.
"""
import contextlib
import sys

import numpy as np
import scipy.special
import scipy.stats

from . import lib

NAMES = ("bincount", "isin", "sum", "nansum", "sqrt", "append", "eye")
MANY = ("numpy.sum", "numpy.sqrt", "numpy.append", "numpy.eye", "scipy.special.loggamma", "scipy.special.gammaln")    # with every=True only


class Fault(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


KINDS = (Fault, Interrupt, NoMemory)


class Point(object):
    def __init__(self, at, kind, every):
        self.every = every
        self.at, self.kind, self.count, self.fired, self.where = at, kind, 0, False, None

    def hit(self, where):
        if where in MANY and not self.every:
            return
        if self.count == self.at:
            self.fired, self.where = True, where
            self.count += 1
            raise self.kind("injected at call %d, %s" % (self.at, where))
        self.count += 1


ACTIVE = None
_installed = False


def hit(where):
    if ACTIVE is not None:
        ACTIVE.hit(where)


def _wrap(fn, where, after=False):
    def f(*a, **k):
        hit(where)
        r = fn(*a, **k)
        if after:
            hit(where + " (end)")
        return r
    f.__name__ = getattr(fn, "__name__", where)
    f.__wrapped__ = fn
    return f


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n in NAMES:
        setattr(np, n, _wrap(getattr(np, n), "numpy." + n))
    for n, d in (("f", scipy.stats.f), ("chi2", scipy.stats.chi2)):
        d.ppf = _wrap(d.ppf, "scipy.stats.%s.ppf" % n)
    for n in ("loggamma", "gammaln"):
        old = getattr(scipy.special, n)
        new = _wrap(old, "scipy.special." + n)
        setattr(scipy.special, n, new)
        for m in [m for k, m in list(sys.modules.items()) if k.startswith("PyCTBN") and m is not None]:
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)
    for c, n in ((lib.ParametersEstimator, "compute_parameters_for_node"), (lib.NetworkGraph, "fast_init"),
                 (lib.StructureScoreBasedEstimator, "get_score_from_graph"), (lib.StructureConstraintBasedEstimator, "complete_test")):
        setattr(c, n, _wrap(getattr(c, n), n, True))


@contextlib.contextmanager
def failing(at, kind, every=True):
    """The call number `at` into the environment made by the body fails."""
    global ACTIVE
    install()
    ACTIVE = p = Point(at, kind, every)
    try:
        yield p
    finally:
        ACTIVE = None


class Draws(object):
    """A chooser whose draws count as calls into the environment."""

    def __init__(self, inner):
        self.inner = inner

    def choose(self, n):
        hit("random draw")
        return self.inner.choose(n)
