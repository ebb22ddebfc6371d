"""C02: configurations, matrices, coefficients and selection for every family of covering data sets."""
import itertools

import numpy as np

from mc import lib, ref
from mc.core import fail

ID = "C02"
RULE = ("a trace is one family (child, parents) of a data set in which every configuration has different statistics: its "
        "listed configurations, the matrix of each, all coefficients, and every selection by a mask of parents and states; "
        "a state is a distinct (cardinalities of child and parents, matrix)")
BOUNDS = {"quick": "all cardinalities {2,3,4}^1..4 and chosen vectors up to 5 variables / 13 states, all families, all masks; all "
                   "count/time tables of one matrix from a menu",
          "thorough": "cardinalities {2,3,4,5}^1..4, {2,3}^5 and {2,3}^6"}
ASSUMPTIONS = ["selection is documented (and tested) to return all matrices when there are fewer than two parents"]


def cases(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 4):
        for cards in itertools.product((2, 3, 4, 5) if big else (2, 3, 4), repeat=n):
            yield {"kind": "cover", "cards": cards}
    for cards in [(11, 2), (2, 12), (2, 11, 3), (12, 2, 2), (3, 2, 11), (2, 3, 2, 2, 3), (3, 2, 2, 2, 2),
                  (2, 2, 3, 4, 2), (5, 3, 2, 2), (2, 7, 5), (13, 3)]:
        yield {"kind": "cover", "cards": cards}
    for cards, least in ref.WIDE:
        for fam in ref.wide_families(cards, least):
            yield {"kind": "wide", "cards": cards, "fam": fam}
    if big:
        for n in (5, 6):
            for cards in itertools.product((2, 3), repeat=n):
                yield {"kind": "cover", "cards": cards}
    for c in (2, 3):
        offs = list(itertools.product((0, 1, 4), repeat=c - 1))
        for row in itertools.product(offs, (0.0, 0.5, 3e-7)):
            for row2 in itertools.product(offs, (0.0, 2.123456789)):
                yield {"kind": "coef", "c": c, "rows": [row, row2] + [((1,) * (c - 1), 1.0)] * (c - 2)}


def coefs(rep, T, M, cim, what):
    for x in range(len(T)):
        for y in range(len(T)):
            e = ((1 - M[x][x]) if x == y else (M[x][y] + 1)) / (T[x] + 1.0)
            if not ref.close(cim[x][y], e, 1e-12):
                fail("coefficient [%d,%d] of %s is %r instead of %r" % (x, y, what, cim[x][y], e), T=T, M=M)
            rep.n("coefficients")


def run(case, rep):
    if case["kind"] == "coef":
        c = case["c"]
        T = [float(r[1]) for r in case["rows"]]
        M = np.zeros((c, c), dtype=int)
        for x, (offs, _) in enumerate(case["rows"]):
            others = [y for y in range(c) if y != x]
            for y, m in zip(others, offs):
                M[x, y] = m
            M[x, x] = sum(offs)
        s = lib.SetOfCims("X", [], c, np.array([[]], dtype=int))
        M0 = M.copy()
        s.build_cims(np.array([T]), np.array([M]))
        u, gT, gM, cim = lib.tables(s)[0]
        if gT != T or gM != M0.tolist():
            fail("building the matrices altered the statistics", T=T, M=M0)
        coefs(rep, T, M0.tolist(), cim, "a matrix built from statistics")
        m = lib.ConditionalIntensityMatrix(np.array(T), M0.copy())
        m.compute_cim_coefficients()
        coefs(rep, T, M0.tolist(), m.cim.tolist(), "a single matrix")
        rep.n("traces", 2)
        rep.n("transitions", 2)
        rep.state((tuple(T), tuple(M0.ravel().tolist())))
        return
    wide = case["kind"] == "wide"
    ds = ref.spread(list(case["cards"])) if wide else ref.covering(list(case["cards"]))
    names = ds["names"]
    sp = lib.sample_path(ds)
    fams = list(lib.families(names))
    if len(names) > 4:
        fams = [f for f in fams if len(f[1]) <= 4]
    if wide:
        ci, ps = case["fam"]
        fams = [(names[ci], [names[q] for q in ps])]
    rep.sample({"cards": case["cards"], "families": len(fams)})
    for child, parents in fams:
        rep.n("transitions")
        sofc = lib.estimate(sp, lib.structure(ds, [(p, child) for p in reversed(parents)]), child)
        exp = lib.same_stats(ds, child, parents, sofc)
        tabs = lib.tables(sofc)
        for u, T, M, cim in tabs:
            coefs(rep, T, M, cim, "%s given %s=%s" % (child, parents, u))
            if not wide:
                rep.state((tuple(T), tuple(map(tuple, M))))
        if sofc.get_cims_number() != len(exp):
            fail("the number of matrices is not the number of configurations", family=[child, parents])
        rep.n("traces")
        if len(parents) < 2:
            continue
        combs = [u for u, _, _, _ in tabs]
        if wide and len(combs) * ds["cards"][names.index(child)] ** 2 > 100000:
            continue
        key = lambda c: (tuple(c.state_residence_times), tuple(np.ravel(c.state_transition_matrix)))
        where = {}
        for u, c in zip(combs, sofc.actual_cims):
            where.setdefault(key(c), []).append(u)
        cards = [ds["cards"][names.index(p)] for p in sorted(parents, key=names.index)]
        for mask in itertools.product((False, True), repeat=len(parents)):
            if not any(mask):
                continue
            sel = [c for c, m in zip(cards, mask) if m]
            for vals in itertools.product(*[range(c) for c in sel]) if not wide else sorted(
                    {tuple(0 for c in sel), tuple(c - 1 for c in sel), tuple(c // 2 for c in sel), tuple((i + 1) % c for i, c in enumerate(sel)),
                     tuple(0 if i % 2 else c - 1 for i, c in enumerate(sel))}):
                for arg in (list(vals), np.array(vals)):
                    got = sofc.filter_cims_with_mask(np.array(mask), arg)
                    gu = [where.get(key(c), [None])[0] for c in got]
                    eu = [u for u in combs if tuple(x for x, m in zip(u, mask) if m) == vals]
                    if wide:      # configurations never seen have the same (empty) matrices
                        rank = {u: w[0] for w in where.values() for u in w}
                        eu = [rank[u] for u in eu]
                    if sorted(map(repr, gu)) != sorted(map(repr, eu)):
                        fail("selecting %s with mask %s states %s gives %s instead of %s" % (
                            (child, parents), mask, vals, gu, eu))
                rep.n("selections")
        rep.n("traces")
