"""The constraint-based search under an abstract independence oracle."""
from . import lib, ref, rnd
from .core import fail
from .explore import Stats, explore


class CIOracle(lib.StructureConstraintBasedEstimator):
    """Answers independence queries by `self.answer(parent, child, frozenset(sep), sep list)`."""
    answer = None

    def complete_test(self, test_parent, test_child, parent_set, *a, **k):
        return self.answer(test_parent, test_child, list(parent_set))


class CIRecorder(lib.StructureConstraintBasedEstimator):
    note = None

    def complete_test(self, test_parent, test_child, parent_set, *a, **k):
        sep = list(parent_set)
        r = super(CIRecorder, self).complete_test(test_parent, test_child, parent_set, *a, **k)
        if self.note is not None:
            self.note(test_parent, test_child, sep, bool(r))
        return r


def judge(names, known, log, edges):
    """Check a run's queries [(parent, child, sep list, answer)] against its result."""
    edges = [tuple(map(str, e)) for e in edges]
    known = set(map(tuple, known))
    if len(set(edges)) != len(edges):
        fail("an edge is listed twice in the result", edges=edges)
    edges = set(edges)
    for a, b in edges:
        if a == b or a not in names or b not in names:
            fail("the result has the impossible edge %s" % ((a, b),))
    for child in names:
        left = set(n for n in names if n != child)
        size = 0
        answers = {}
        for p, c, sep, ans in log:
            if c != child:
                continue
            S = frozenset(sep)
            if p == c or p in S or c in S or len(S) != len(sep):
                fail("independence of %s and %s is asked given %s" % (p, c, sep))
            if (p, c) in known:
                fail("the known edge %s is tested" % ((p, c),))
            if p not in left or not S <= left:
                fail("%s -> %s given %s is tested although %s was removed" % (p, c, sep, sorted((S | {p}) - left)))
            if len(S) < size:
                fail("a set of %d variables is tried for %s after one of %d" % (len(S), c, size))
            size = len(S)
            if answers.get((p, S), ans) != ans:
                fail("two answers to one query")
            answers[(p, S)] = ans
            if ans:
                left.discard(p)
        kept = {p for p, c in edges if c == child}
        for p in names:
            if p == child:
                continue
            if p not in kept and not any(ans for (q, S), ans in answers.items() if q == p):
                fail("edge %s -> %s is missing although no set made them independent" % (p, child), log=log)
            if p in kept and any(ans for (q, S), ans in answers.items() if q == p):
                fail("edge %s -> %s is kept although a set made them independent" % (p, child), log=log)
            if (p, child) in known and p not in kept:
                fail("the known edge %s -> %s is missing" % (p, child), log=log)
            if p in kept and (p, child) not in known:
                for S in ref.subsets([q for q in kept if q != p]):
                    if answers.get((p, frozenset(S))) is not False:
                        fail("edge %s -> %s is kept without being tested given %s" % (p, child, S), log=log)
    return edges


def run_oracle(names, ds, known, answer, prior=None, sp=None, **kw):
    sp = sp or lib.sample_path(ds, prior)
    est = CIOracle(sp, 0.1, 0.1, known_edges=known)
    est.answer = answer
    return est, est.estimate_structure(disable_multiprocessing=True)
