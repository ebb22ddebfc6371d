"""C17: generated intensity matrices under extreme and ordinary uniform draws, for every graph."""
import itertools

import numpy as np

from mc import lib, ref, rnd
from mc.core import fail
from mc.explore import Stats, explore

ID = "C17"
RULE = ("a trace is one generation of all matrices of a network under one sequence of uniform draws; every matrix is checked against its "
        "definition; a state is a distinct matrix with its interval")
BOUNDS = {"quick": "every graph of 1-3 variables with mixed cardinalities 2-4 and chosen graphs of 4-5 variables, up to 4 parents, cardinality "
                   "12: ordinary draws, and every draw replaced by a very small or very large one (in pairs for networks of up to 40 draws, singly up to 250); 10 "
                   "intervals, each with the extreme draws on chosen networks; second networks on the same generator",
          "thorough": "pairs of replaced draws up to 200 draws, all graphs of 4 variables"}
ASSUMPTIONS = ["matrices are rounded to four decimals", "not all off-diagonal draws of a row are zero", "0 < min_val <= max_val"]
RANGES = [(1, 2), (0.5, 10.0), (3, 3), (0.01, 0.02), (100, 1000), (0.0005, 3), (0.001, 0.004), (5, 1e6), (0.1, 0.9999), (1e-4, 1e4)]


class Draws(rnd.Control):
    def __init__(self, ch):
        rnd.Control.__init__(self, ch)
        self.k = 0

    def uniform(self):
        self.k += 1
        c = self.ch.choose(3)
        return ((0.137 + self.k * 0.6180339887498949) % 1.0, 0.0001, 0.99999)[c]


def deviations(cards, edges, big):
    draws = 0
    for v, c in enumerate(cards):
        k = c * (c + 1)
        for a, b in edges:
            if b == v:
                k *= cards[a]
        draws += k
    return 2 if draws <= (200 if big else 40) else 1 if draws <= (800 if big else 250) else 0


def cases(tier):
    big = tier == "thorough"
    for n, cardset in ((1, [(2,), (3,), (5,)]), (2, list(itertools.product((2, 3, 4), repeat=2)) + [(12, 2), (2, 11)]),
                       (3, [(2, 3, 4), (3, 2, 2), (2, 2, 2), (4, 3, 2)])):
        pr = [(a, b) for a in range(n) for b in range(n) if a != b]
        for cards in cardset:
            for k, e in enumerate(ref.subsets(pr)):
                yield {"cards": cards, "edges": e, "range": (k + len(e)) % len(RANGES), "dev": deviations(cards, e, big)}
    for r in range(len(RANGES)):
        for cards, e in [((2,), []), ((3,), []), ((2, 2), [(0, 1)]), ((3, 2), [(0, 1), (1, 0)]), ((2, 2, 3), [(0, 2), (1, 2)])]:
            yield {"cards": cards, "edges": e, "range": r, "dev": deviations(cards, e, big)}
    n = 4
    pr = [(a, b) for a in range(n) for b in range(n) if a != b]
    for k, e in enumerate(ref.subsets(pr)):
        if big or k % 61 == 0:
            yield {"cards": (2, 3, 2, 4), "edges": e, "range": k % len(RANGES), "dev": 1 if k % 61 == 0 and not big else 0}
    yield {"cards": (2, 3, 2, 4, 3), "edges": [(1, 0), (2, 0), (3, 0), (4, 0), (0, 3)], "range": 0, "dev": 0}
    yield {"cards": (4, 2, 4, 3), "edges": [(0, 1), (2, 1), (3, 1), (1, 2), (0, 2)], "range": 4, "dev": 0}
    yield {"cards": (3, 3, 3, 3), "edges": [(0, 1), (2, 1), (3, 1), (1, 0), (2, 0)], "range": 1, "dev": 0}
    yield {"cards": (12, 11, 2), "edges": [(0, 1), (1, 0), (1, 2), (0, 2)], "range": 1, "dev": 0}


def inspect(rep, g, names, cards, edges, lo, hi, distinct):
    cims = g.cims
    if sorted(cims) != sorted(names):
        fail("matrices are generated for %s instead of %s" % (sorted(cims), names))
    seen = {}
    for v, c in zip(names, cards):
        par = [p for p in names if (p, v) in edges]
        s = cims[v]
        combs = [tuple(int(x) for x in np.ravel(u)) for u in s.p_combs]
        exp = ref.configs([cards[names.index(p)] for p in par])
        if sorted(combs) != sorted(exp):
            fail("the matrices of %s (parents %s) are listed for the configurations %s" % (v, par, combs))
        ms = list(s.actual_cims)
        if len(ms) != len(exp) or s.get_cims_number() != len(exp):
            fail("%s has %d matrices for %d configurations" % (v, len(ms), len(exp)))
        for u, m in zip(combs, ms):
            q = np.asarray(m.cim, dtype=float)
            if q.shape != (c, c):
                fail("a matrix of %s has shape %s instead of %s" % (v, q.shape, (c, c)))
            tol = 1e-4 * c
            for x in range(c):
                if not np.all(np.isfinite(q[x])):
                    fail("a matrix of %s is not finite" % v, matrix=q)
                if abs(q[x].sum()) > tol:
                    fail("row %d of a matrix of %s sums to %r" % (x, v, q[x].sum()), matrix=q)
                if not lo - 6e-5 <= -q[x][x] <= hi + 6e-5:
                    fail("the exit intensity of state %d of %s is %r, outside [%s, %s]" % (x, v, -q[x][x], lo, hi), matrix=q)
                if any(q[x][y] < 0 for y in range(c) if y != x):
                    fail("a matrix of %s has a negative coefficient off the diagonal" % v, matrix=q)
            key = q.tobytes()
            if distinct and key in seen:
                fail("configuration %s of %s has the same matrix as %s although all draws differ" % (u, v, seen[key]))
            seen[key] = (v, u)
            rep.state((lo, hi, key))
            rep.n("matrices")


def run(case, rep):
    cards = list(case["cards"])
    n = len(cards)
    names = ["b", "A", "10", "z z", "c"][:n]
    edges = [(names[a], names[b]) for a, b in case["edges"]]
    lo, hi = RANGES[case["range"]]
    st = Stats()
    fresh = lib.NetworkGenerator(list(names), list(cards))
    fresh.generate_cims(lo, hi)          # before there is a graph: nothing happens
    if fresh.cims:
        fail("matrices are generated before there is a graph")
    g = lib.network(list(names), list(cards), edges)
    other = [(a, b) for a in names for b in names if a != b and (a, b) not in edges]

    def execute(ch):
        with rnd.controlled(Draws(ch)):
            g.generate_cims(lo, hi)
        return g
    for taken, _ in explore(execute, deviations=case["dev"], stats=st):
        inspect(rep, g, names, cards, edges, lo, hi, not any(taken) and hi - lo >= 1)
        rep.n("traces")
        rep.n("transitions", len(taken))
    if n < 4:       # another network on the same generator
        lib.network(names, cards, other, again=g)
        with rnd.controlled(Draws(lib_first())):
            g.generate_cims(hi, 2 * hi)
        inspect(rep, g, names, cards, other, hi, 2 * hi, False)
        rep.n("traces")
    rep.n("beyond_deviation_bound", st.bounded)
    rep.sample({"cards": cards, "edges": edges, "draws": st.maxdepth})


def lib_first():
    from mc.pool import Constant
    return Constant(0)
