"""C05: the family score against the closed form, along evaluation histories."""
import itertools
import math

import numpy as np

from mc import lib, ref
from mc.core import fail

ID = "C05"
RULE = ("a trace is one score of a family: fresh, or after a history of edge additions, removals and evaluations on the same "
        "graph and estimator; it is compared with the closed form on the reference statistics; a state is a distinct score value")
BOUNDS = {"quick": "cardinalities {2,3,4}^1..3, {2,3}^4, chosen 5 variables; hyperparameters 4x4 between 1e-6 and 60; all toggling histories of length 4 and all jumping ones of length 3 over 3 "
                   "parents; all statistics tables of one matrix from a menu; "
                   "families of up to 7 parents, 729 configurations and 300 states; tables with counts up to 6000000 and residence times up to 1e6",
          "thorough": "cardinalities {2,3,4}^4; hyperparameters 6x6; histories of length 6"}
ASSUMPTIONS = ["tau > 0 and alpha > 0; variables with at least two states"]
TAUS = (0.1, 1, 2.5, 0.001, 10.0, 0.7)
ALPHAS = (1, 0.1, 3, 7.5, 0.01, 2)


def cases(tier):
    big = tier == "thorough"
    k = 6 if big else 4
    for n in (1, 2, 3, 4):
        for cards in itertools.product((2, 3, 4) if n < 4 or big else (2, 3), repeat=n):
            yield {"kind": "fams", "cards": cards, "hyper": [(TAUS[i % k], ALPHAS[(i // k + i) % k]) for i in range(k * k if n < 3 else 3)]}
    for cards in [(2, 11), (12, 3), (2, 3, 2, 2, 3), (3, 2, 11)]:
        yield {"kind": "fams", "cards": cards, "hyper": [(0.1, 1), (2.5, 0.1)]}
    for cards, least in ref.WIDE:
        for ci, ps in ref.wide_families(cards, least):
            if cards[ci] ** 2 * math.prod(cards[p] for p in ps) < 200000:
                yield {"kind": "wide", "cards": cards, "fam": (ci, ps)}
    for cards in [(2, 3, 2, 3), (3, 2, 4, 2)]:
        for child in range(4):
            for h in itertools.product(range(3), repeat=6 if big else 4):
                yield {"kind": "hist", "cards": cards, "child": child, "h": h}
    # several changes between two evaluations, evaluations of other nodes in between, two estimators and two graphs in turn
    sets = [s for s in ref.subsets(range(3))]
    for cards in [(2, 3, 2, 3), (3, 2, 4, 2)]:
        for how in ("swap", "others", "graphs", "estimators"):
            for h in itertools.product(range(8), repeat=4 if big else 3):
                if all(a != b for a, b in zip((0,) + h, h)):
                    yield {"kind": "jump", "cards": cards, "child": sum(h) % 4, "h": [sets[i] for i in h], "how": how}
    for i, (tau, alpha) in enumerate(itertools.product(TAUS[:k], ALPHAS[:k])):
        for c in (2, 3):
            for T in ([0.0, 1.5, 30.0][:c], [7.0, 0.25, 0.0][:c]):
                for ms in itertools.product((0, 1, 5, 40), repeat=2):
                    yield {"kind": "table", "c": c, "T": T, "ms": ms, "tau": tau, "alpha": alpha}


    big_counts = (0, 1, 99, 100, 101, 128, 170, 171, 255, 1000, 32768, 100000, 3000000)
    for tau, alpha in itertools.product(TAUS[:k], ALPHAS[:k]) if big else ((0.1, 1), (1, 0.1), (2.5, 3), (0.001, 1), (1e-6, 1e-4), (40.0, 60.0)):
        for c in (2, 3, 5):
            for ms in itertools.product(big_counts, repeat=2):
                for T in (0.0, 1e-3, 12.5, 1e6):
                    yield {"kind": "table", "c": c, "T": [T * (1 + i) for i in range(c)], "ms": ms, "tau": tau, "alpha": alpha}


def closed(cims, tau, alpha):
    tot = 0.0
    for T, M in cims:
        c = len(T)
        axx = alpha / (c - 1)
        for x in range(c):
            m = sum(M[x][y] for y in range(c) if y != x)
            tot += math.lgamma(alpha + m + 1) + (alpha + 1) * math.log(tau) - math.lgamma(alpha + 1) \
                - (alpha + m + 1) * math.log(tau + T[x])
            tot += math.lgamma(alpha) - math.lgamma(alpha + m)
            tot += sum(math.lgamma(axx + M[x][y]) - math.lgamma(axx) for y in range(c) if y != x)
    return tot


def same(got, exp, what):
    if not ref.close(float(got), exp, 1e-8):
        fail("score of %s is %r instead of %r" % (what, float(got), exp))


def run(case, rep):
    if case["kind"] == "table":
        c = case["c"]
        m1, m2 = case["ms"]
        cims, exp = [], []
        for r, T in enumerate((case["T"], case["T"][::-1])):
            M = np.zeros((c, c), dtype=int)
            M[0, 1], M[c - 1, 0] = (m1, m2) if r == 0 else (m2, 2 * m1)
            if c > 2:
                M[1, 2] = m1
                M[2, 1] += m2
            for x in range(c):
                M[x, x] = M[x].sum()
            exp.append((T, M.tolist()))
            cims.append(lib.ConditionalIntensityMatrix(np.array(T, dtype=float), M))
        f = lib.FamScoreCalculator()
        for n in (1, 2):
            got = f.get_fam_score(np.array(cims[:n]), case["tau"], case["alpha"])
            exp1 = closed(exp[:n], case["tau"], case["alpha"])
            same(got, exp1, "tables %r with tau=%r alpha=%r" % (exp[:n], case["tau"], case["alpha"]))
            rep.state(round(exp1, 7))
            rep.n("traces")
        rep.n("transitions", 2)
        return
    cards = list(case["cards"])
    if case["kind"] == "wide":
        ds = ref.spread(cards)
        sp = lib.sample_path(ds)
        ci, ps = case["fam"]
        child, parents = ds["names"][ci], [ds["names"][p] for p in ps]
        for tau, alpha in ((0.1, 1), (2.5, 0.3)):
            g = lib.NetworkGraph(sp.structure)
            g.add_edges([(p, child) for p in parents[::-1]])
            e = ref.score(ds, child, parents, tau, alpha)
            same(lib.StructureScoreBasedEstimator(sp, tau_xu=tau, alpha_xu=alpha).get_score_from_graph(g, child), e,
                 "%s given %s (tau=%r alpha=%r)" % (child, parents, tau, alpha))
            rep.n("traces")
            rep.n("transitions")
            rep.state(round(e, 7))
        return
    if case["kind"] == "fams":
        for ds in (ref.covering(cards), ref.walk(cards, length=25, cut=(9,))):
            if len(cards) > 4:
                ds = ref.walk(cards, length=60, cut=(9,))
            sp = lib.sample_path(ds)
            fams = [f for f in lib.families(ds["names"]) if len(f[1]) <= 3]
            for tau, alpha in case["hyper"]:
                est = lib.StructureScoreBasedEstimator(sp, tau_xu=tau, alpha_xu=alpha)
                for child, parents in fams:
                    g = lib.NetworkGraph(sp.structure)
                    g.add_edges([(p, child) for p in parents[::-1]])
                    e = ref.score(ds, child, parents, tau, alpha)
                    same(est.get_score_from_graph(g, child), e, "%s given %s (tau=%r alpha=%r)" % (child, parents, tau, alpha))
                    rep.n("traces")
                    rep.n("transitions")
                    rep.state(round(e, 7))
        rep.sample(case, 1)
        return
    ds = ref.walk(cards, length=50, cut=(20,))
    if case["kind"] == "jump":
        return jump(case, ds, rep)
    sp = lib.sample_path(ds)
    est = lib.StructureScoreBasedEstimator(sp)
    child = ds["names"][case["child"]]
    others = [n for n in ds["names"] if n != child]
    g = lib.NetworkGraph(sp.structure)
    cur = set()
    same(est.get_score_from_graph(g, child), ref.score(ds, child, cur, 0.1, 1), "%s given nothing" % child)
    for i in case["h"]:
        p = others[i]
        if p in cur:
            g.remove_edges([(p, child)])
            cur.discard(p)
        else:
            g.add_edges([(p, child)])
            cur.add(p)
        e = ref.score(ds, child, cur, 0.1, 1)
        same(est.get_score_from_graph(g, child), e, "%s given %s after toggling %r" % (child, sorted(cur), case["h"]))
        rep.n("transitions")
        rep.state(round(e, 7))
    rep.n("traces")


def jump(case, ds, rep):
    """evaluations between which the family changes by any set of edges"""
    sp = lib.sample_path(ds)
    how = case["how"]
    ests = [lib.StructureScoreBasedEstimator(sp), lib.StructureScoreBasedEstimator(sp, tau_xu=2.5, alpha_xu=0.7)]
    hyper = [(0.1, 1), (2.5, 0.7)]
    graphs = [lib.NetworkGraph(sp.structure), lib.NetworkGraph(sp.structure)]
    cur = {(g, n): set() for g in range(2) for n in ds["names"]}
    child = ds["names"][case["child"]]

    def put(g, node, fam):
        gone, new = sorted(cur[g, node] - fam), sorted(fam - cur[g, node])
        if gone:
            graphs[g].remove_edges([(p, node) for p in gone])
        if new:
            graphs[g].add_edges([(p, node) for p in new])
        cur[g, node] = set(fam)

    def evaluate(g, e, node):
        exp = ref.score(ds, node, cur[g, node], *hyper[e])
        same(ests[e].get_score_from_graph(graphs[g], node), exp, "%s given %s after the families %r (%s)" % (
            node, sorted(cur[g, node]), case["h"], how))
        rep.n("transitions")
        rep.state(round(exp, 7))
    for i, fam in enumerate(case["h"]):
        g = i % 2 if how == "graphs" else 0
        e = i % 2 if how == "estimators" else 0
        others = [n for n in ds["names"] if n != child]
        put(g, child, {others[j] for j in fam})
        if how == "others":
            node = others[i % 3]
            rest = [n for n in ds["names"] if n != node]
            put(g, node, {rest[(j + i) % 3] for j in fam})
            if i % 2:
                evaluate(g, e, node)
        evaluate(g, e, child)
        if how == "others":
            evaluate(g, e, others[i % 3])
    for g in range(2):
        if how == "graphs" and len(case["h"]) > g:
            evaluate(g, 0, child)
    rep.n("traces")
