"""C11: independence decisions against a plain evaluation of both tests on counted data; full runs judged by it."""
import itertools

import numpy as np

from mc import lib, ref
from mc.core import fail

ID = "C11"
RULE = ("a trace is one independence query asked of a fresh estimator and of the reference decision, or one full constraint-based run "
        "whose edges are justified by the reference; a state is a distinct (statistics of child given set, decision)")
BOUNDS = {"quick": "prescribed tables: separating sets of 0-2 variables of cardinality 2-3, child 2-4, tested parent 2-3 placed at every "
                   "position; one deviating cell (or cell and time) at every (configuration, state, target) with every count and time of a "
                   "menu; 5 level pairs, 4 thresholds; "
                   "up to 12 child states, 14 tested states and 5 separating variables with one deviating cell at first, middle and last places; "
                   "configurations never seen or never left; rows seen twice; levels within 1e-5 of those at which the decision changes; integer thresholds at the boundary for up to 3 separating variables; walks and covering data with every query of every family; full runs on walks",
          "thorough": "two deviating cells, longer menus, 4-variable data with all queries and more walks"}
ASSUMPTIONS = ["quantiles are scipy's; decisions within 1e-9 of a quantile are not judged",
               "a comparison with an undefined quantile or ratio does not reject"]
LEVELS = [(0.1, 0.1), (0.01, 0.3), (0.5, 0.001), (0.001, 0.9), (1.0, 0.05)]


def layouts(big):
    """(cards in variable order, child position, tested position)"""
    vals = [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2)]
    for c, p in vals:                      # no separating set
        yield [c, p], 0, 1
        yield [p, c], 1, 0
    for c, p, s in [(2, 2, 2), (2, 3, 2), (2, 2, 3), (3, 2, 2), (3, 2, 3), (3, 3, 2), (2, 3, 4)]:
        full = big or (c, p, s) in ((2, 2, 2), (2, 3, 2), (3, 2, 3))
        for perm in itertools.permutations(range(3)) if full else [(0, 1, 2), (2, 0, 1)]:
            cards = [0] * 3
            cards[perm[0]], cards[perm[1]], cards[perm[2]] = c, p, s
            yield cards, perm[0], perm[1]
    for c, p, s, t in [(2, 2, 2, 3), (2, 3, 2, 2), (3, 2, 3, 2)]:
        for perm in itertools.permutations(range(4)) if big else [(3, 1, 0, 2), (1, 3, 2, 0)]:
            cards = [0] * 4
            for q, x in zip(perm, (c, p, s, t)):
                cards[q] = x
            yield cards, perm[0], perm[1]


def cases(tier):
    big = tier == "thorough"
    for cards, ci, pi in layouts(big):
        for thr in (0, 1, 25, 10 ** 6):
            if (len(cards) > 2 or 4 in cards or cards[pi] > 2) and thr in (1, 10 ** 6) and not big:
                continue
            for base in ((12, 4.0), (4, 3.0)):
                if base[0] == 4 and not big and (len(cards) > 2 or thr == 25):
                    continue
                yield {"kind": "table", "cards": cards, "child": ci, "tested": pi, "thr": thr, "base": base, "two": big}
    # configurations that were never seen
    for cards, ci, pi in [((3, 2, 2), 0, 1), ((2, 2, 3), 2, 0), ((3, 3, 2), 1, 2), ((2, 3, 4), 0, 2), ((4, 2, 3), 0, 1), ((3, 2), 0, 1),
                          ((2, 3, 2, 3), 3, 1), ((3, 2, 2, 2), 0, 2)]:
        for thr in (0, 0.5, 1, 2.5, 6):
            yield {"kind": "unseen", "cards": cards, "child": ci, "tested": pi, "thr": thr}
    for cards in [(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 2, 2), (3, 2, 2), (2, 4, 3), (3, 2, 3, 2)]:
        for k in range(12 if big else 5) if len(cards) < 4 or big else (2,):
            yield {"kind": "boundary", "cards": cards, "k": k}
    for c, p, seps in [(3, 2, ()), (3, 3, (2,)), (4, 2, (3,)), (3, 2, (2, 2)), (3, 3, (2, 2)), (3, 2, (2, 3)), (3, 2, (3, 3)),
                       (4, 2, (2, 2)), (3, 2, (2, 2, 2)), (5, 2, ()), (3, 4, ()), (3, 2, (2, 2, 2, 2)), (3, 9, ()), (3, 2, (5, 2, 2)),
                       (6, 2, (2,))]:
        n = 2 + len(seps)
        for ci, pi in {(0, 1), (1, 0), (n - 1, 0), (0, n - 1), (n // 2, n - 1)}:
            if ci == pi:
                continue
            cards, rest = [0] * n, list(seps)
            cards[ci], cards[pi] = c, p
            yield {"kind": "thumb", "cards": [k or rest.pop(0) for k in cards], "child": ci, "tested": pi}
    for c, p, seps in [(6, 2, ()), (9, 2, ()), (12, 3, ()), (2, 9, ()), (3, 14, ()), (2, 2, (7,)), (7, 2, (2,)), (2, 2, (2, 2, 2)),
                       (2, 3, (2, 5, 2)), (2, 2, (2, 2, 2, 2)), (2, 2, (3, 2, 2, 2, 2) if big else (2, 2, 2, 2, 2))]:
        n = 2 + len(seps)
        for ci, pi in [(0, 1), (n - 1, 0)]:
            cards, rest = [0] * n, list(seps)
            cards[ci], cards[pi] = c, p
            cards = [k or rest.pop(0) for k in cards]
            if len(seps) == 5 and ci and not big:
                continue
            for thr in (0, 25) if big or len(seps) == 2 else (0,):
                yield {"kind": "wide", "cards": cards, "child": ci, "tested": pi, "thr": thr}
    for cards in [(2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 4), (3, 3, 3), (2, 2, 3, 2)]:
        for k in range(12 if big else 4):
            for thr in (0, 1, 25):
                yield {"kind": "walk", "cards": cards, "k": k, "thr": thr}
    for cards in [(2, 2, 2), (2, 3, 4), (3, 2, 2, 2), (2, 3, 2, 2)]:
        for thr in (0, 1):
            yield {"kind": "walk", "cards": cards, "k": None, "thr": thr}
    for cards in [(2, 2, 2), (2, 3, 2), (3, 3, 2), (4, 2, 3), (2, 2, 2, 2), (3, 2, 3, 2), (2, 2, 3, 2, 2)]:
        for k in range(16 if big else 6):
            for thr in (0, 1, 5, 25):
                yield {"kind": "run", "cards": cards, "k": k, "thr": thr}


def ask(sp, ds, parent, child, sep, lv, thr):
    est = lib.StructureConstraintBasedEstimator(sp, lv[0], lv[1], thumb_threshold=thr)
    n = ds["names"]
    return bool(est.complete_test(parent, child, list(sep), ds["cards"][n.index(child)], len(n), n.index(parent), n.index(child)))


def compare(rep, sp, ds, parent, child, sep, lv, thr):
    exp, short, hair = ref.ci_test(ds, parent, child, sep, lv[0], lv[1], thr)
    rep.n("transitions")
    if hair:
        rep.n("too_close_to_judge")
        return
    got = ask(sp, ds, parent, child, sep, lv, thr)
    if got != exp:
        fail("%s and %s given %s are judged %s; the tests on the counted data say %s (levels %s, rule of thumb %s)" % (
            parent, child, sep, "independent" if got else "dependent", "independent" if exp else "dependent", lv, thr),
            dataset=ds, short=short)
    rep.n("traces")
    rep.n("independent" if exp else "dependent")
    if short:
        rep.n("insufficient_data")
    rep.state((parent, child, tuple(sep), lv, thr, exp, repr(ref.stats(ds, child, sep))))


def table(case, rep):
    cards, ci, pi, thr = list(case["cards"]), case["child"], case["tested"], case["thr"]
    n = len(cards)
    names = ["V%d" % i for i in range(n)]
    others = [i for i in range(n) if i != ci]
    sep = [names[i] for i in others if i != pi]
    c = cards[ci]
    m0, t0 = case["base"]
    keys = []
    for o in itertools.product(*[range(cards[i]) for i in others]):
        for x in range(c):
            vals = [0] * n
            for i, v in zip(others, o):
                vals[i] = v
            vals[ci] = x
            keys.append(tuple(vals))
    base = {}
    for k in keys:
        for y in range(c):
            if y != k[ci]:
                base[k, y] = (m0, t0 * (1 + 0.1 * k[ci]))
    cells = sorted(base)
    if n > 2:       # one representative per configuration: first state, last state
        cells = [q for q in cells if q[0][ci] in (0, c - 1)]
    menu_m = [0, m0 // 2, 2 * m0] if n == 2 else [0, 2 * m0]
    menu_t = [1.0, 0.3, 3.0] if n == 2 else [1.0, 3.0]
    levels = LEVELS if n == 2 else LEVELS[:2]
    variants = [{}]
    for q in cells:
        for m in menu_m + [m0]:
            for f in menu_t:
                if (m, f) != (m0, 1.0):
                    variants.append({q: (m, base[q][1] * f)})
    for q in cells:                                 # swap of the targets of one state: only the chi-square test sees it
        for r in cells:
            if r[0] == q[0] and r[1] > q[1]:
                for d in (m0 // 2, m0) if n == 2 or case["two"] else (m0,):
                    variants.append({q: (m0 - d, base[q][1]), r: (m0 + d, base[r][1])})
    if n == 2:
        for x in range(c):                          # a state that is never left
            variants.append({q: (0, base[q][1]) for q in base if q[0][ci] == x})
            variants.append({q: (0, 0.0) for q in base if q[0][ci] == x and q[0][pi] == 1})
        for x, y in itertools.product(range(c), range(c)):   # a target never seen: only the other targets can tell
            if x == y:
                continue
            for w in range(cards[pi]):
                gone = {q: (0, base[q][1]) for q in base if q[0][ci] == x and q[1] == y}
                variants.append(dict(gone))
                rest = sorted(q for q in base if q[0][ci] == x and q[1] != y and q[0][pi] == w)
                for q, r in itertools.permutations(rest, 2):
                    variants.append({**gone, q: (0, base[q][1]), r: (2 * m0, base[r][1])})
        for x, w in itertools.product(range(c), range(cards[pi])) if m0 > 4 or case["two"] else ():   # a state left very few times under one value of the tested parent
            row = sorted(q for q in base if q[0][ci] == x and q[0][pi] == w)
            rare = sorted(q for q in base if q[0][ci] == x and q[0][pi] != w)
            for q in row:
                for m in (1, 2, 3) if case["two"] else (2,):
                    few = {r: (m if r == q else 0, base[r][1] * m / m0 / len(row)) for r in row}
                    variants.append({**few, "rare": True})
                    if c > 2:    # ... to a state that is rare otherwise
                        variants.append({**few, "rare": True, **{r: (1, base[r][1]) if r[1] == q[1] else (2 * m0, base[r][1]) for r in rare}})
        variants.append({q: (0, 0.0) for q in base})
        for w in range(cards[pi]):
            variants.append({q: (0, 0.0) for q in base if q[0][pi] == w})
    if case["two"] and n == 2:
        for q, r in itertools.combinations(cells, 2):
            variants.append({q: (2 * m0, base[q][1]), r: (0, base[r][1])})
            variants.append({q: (m0, base[q][1] * 2.5), r: (m0 // 2, base[r][1])})
    rep.sample({"cards": cards, "tested": pi, "child": ci, "variants": len(variants)})
    for var in variants:
        few = var.pop("rare", False)
        t = dict(base)
        t.update(var)
        ds = ref.table_ds(cards, ci, [(k, y, m, d) for (k, y), (m, d) in sorted(t.items()) if m or d], names)
        if not ds["trajs"]:
            continue
        sp = lib.sample_path(ds)
        for lv in levels[:2] if few and not case["two"] else levels:
            compare(rep, sp, ds, names[pi], names[ci], sep, lv, thr)


def thumb(case, rep):
    """integer thresholds on both sides of the ratio of the data to the degrees of freedom"""
    cards = list(case["cards"])
    n = len(cards)
    names = ["V%d" % i for i in range(n)]
    ci, pi = case["child"], case["tested"]
    sep = [names[i] for i in range(n) if i not in (ci, pi)]
    for m0, low in ((24, None), (40, 0), (40, -1), (36, 1)):
        rows = []
        configs = list(itertools.product(*[range(k) for k in cards]))
        for q, vals in enumerate(configs):
            m = m0
            others = [v for i, v in enumerate(vals) if i not in (ci, pi)]
            if low is not None and others == ([0] * len(others) if low == 0 else [cards[names.index(s)] - 1 for s in sep]
                                              if low < 0 else [0] * (len(others) - 1) + [1] * min(1, len(others))):
                m = m0 - 12
            for y in range(cards[ci]):
                if y != vals[ci]:
                    rows.append((list(vals), y, m, m / 3.0))
        ds = ref.table_ds(cards, ci, rows, names)
        sp = lib.sample_path(ds)
        top = 1
        while top < 10 ** 6 and not ref.ci_test(ds, names[pi], names[ci], sep, 0.001, 0.001, top)[1]:
            top += 1
        for thr in (1, top - 1, top, 2 * top, 3 * top):
            compare(rep, sp, ds, names[pi], names[ci], sep, (0.001, 0.001), thr)


def wide(case, rep):
    """many states or many separating variables: one deviating cell (or exchange of two targets) at the first, the last and the
    middle configuration, state and target"""
    cards, ci, pi, thr = list(case["cards"]), case["child"], case["tested"], case["thr"]
    n = len(cards)
    names = ["V%d" % i for i in range(n)]
    sep = [names[i] for i in range(n) if i not in (ci, pi)]
    c = cards[ci]
    m0 = 12
    base = {(k, y): (m0, 4.0) for k in itertools.product(*[range(x) for x in cards]) for y in range(c) if y != k[ci]}
    edge = lambda k: sorted({0, k // 2, k - 1})
    seps = [i for i in range(n) if i not in (ci, pi)]
    outer = [{}] if not seps else [{i: 0 for i in seps}, {i: cards[i] - 1 for i in seps}] + [
        {i: (cards[i] - 1 if i == j else 0) for i in seps} for j in seps]
    variants = [{}]
    for o in outer:
        for w in edge(cards[pi]):
            for x in edge(c) if len(cards) < 6 else (0,):
                key = tuple(o.get(i, w if i == pi else x) for i in range(n))
                ys = sorted({0, 1, c - 2, c - 1} - {x, -1})
                for f in (6.0, 0.1):
                    variants.append({(key, y): (m0, 4.0 * f) for y in range(c) if y != x})
                for y in ys:
                    for m, f in ((3 * m0, 1.0), (m0, 4.0)):
                        variants.append({(key, y): (m, 4.0 * f)})
                for y, z in itertools.combinations(ys, 2) if len(cards) < 5 else ():
                    variants.append({(key, y): (0, 4.0), (key, z): (2 * m0, 4.0)})
    for var in variants:
        t = dict(base)
        t.update({k: v for k, v in var.items() if k in base})
        ds = ref.table_ds(cards, ci, [(k, y, m, d) for (k, y), (m, d) in sorted(t.items()) if m or d], names)
        compare(rep, lib.sample_path(ds), ds, names[pi], names[ci], sep, LEVELS[0], thr)
    rep.n("wide_tables", len(variants))


def boundary(case, rep):
    """both tests at levels just below and just above the one at which the reference decision changes"""
    ds = data(case)
    names = ds["names"]
    sp = lib.sample_path(ds)
    for child, parent in itertools.permutations(names, 2):
        for sep in ref.subsets([x for x in names if x not in (parent, child)], 0, 2):
            for which in (0, 1):
                lv = lambda a: (a, 1e-9) if which == 0 else (1e-9, a)
                dec = lambda a: ref.ci_test(ds, parent, child, sep, lv(a)[0], lv(a)[1], 0)[0]
                lo, hi = 1e-7, 0.9999
                if not dec(lo) or dec(hi):
                    continue
                while hi / lo > 1 + 2e-6:
                    mid = (lo * hi) ** 0.5
                    lo, hi = (mid, hi) if dec(mid) else (lo, mid)
                for a in (lo * (1 - 1e-5), hi * (1 + 1e-5), lo * (1 - 1e-3), hi * (1 + 1e-3), lo / 2, min(0.9999, 2 * hi)):
                    compare(rep, sp, ds, parent, child, sep, lv(min(a, 0.99999)), 0)
                rep.n("boundaries")


def data(case):
    cards = list(case["cards"])
    if case["k"] is None:
        return ref.covering(cards)
    k = case["k"]
    names = ["a variable with a long label %d" % (9 - i) for i in range(len(cards))] if case["kind"] == "walk" and k % 4 == 1 else None
    return ref.walk(cards, names, length=[30, 90, 250, 500, 900, 1500][k % 6], mult=3 + 2 * k, add=1 + k, cut=(10, 20))


def unseen(case, rep):
    cards, ci, pi = list(case["cards"]), case["child"], case["tested"]
    n, c = len(cards), cards[ci]
    names = ["V%d" % i for i in range(n)]
    sep = [i for i in range(n) if i not in (ci, pi)]
    keys = list(ref.configs(cards))
    holes = [lambda k: False]
    for i in sep + [pi]:
        for v in range(cards[i]):
            holes.append(lambda k, i=i, v=v: k[i] == v)
            for w in range(cards[pi]):
                holes.append(lambda k, i=i, v=v, w=w: k[i] == v and k[pi] == w)
    for x in range(c):
        holes.append(lambda k, x=x: k[ci] == x)
        for i in sep + [pi]:
            holes.append(lambda k, x=x, i=i: k[ci] == x and k[i] == cards[i] - 1)
    for hole in holes:
        for only in (False, True):      # not seen at all, or seen but never left
            rows = [(k, y, 0 if hole(k) else 12, 4.0 if not hole(k) else 2.0 if only else 0.0) for k in keys for y in range(c) if y != k[ci]]
            ds = ref.table_ds(cards, ci, rows, names)
            sp = lib.sample_path(ds)
            for lv in LEVELS[:3]:
                compare(rep, sp, ds, names[pi], names[ci], [names[i] for i in sep], lv, case["thr"])


def run(case, rep):
    if case["kind"] == "unseen":
        return unseen(case, rep)
    if case["kind"] == "table":
        return table(case, rep)
    if case["kind"] == "boundary":
        return boundary(case, rep)
    if case["kind"] == "thumb":
        return thumb(case, rep)
    if case["kind"] == "wide":
        return wide(case, rep)
    ds = data(case)
    names = ds["names"]
    if case["kind"] == "walk":
        sp = lib.sample_path(ds)
        for lv in LEVELS[:3]:
            for child in names:
                for parent in names:
                    if parent == child:
                        continue
                    for sep in ref.subsets([x for x in names if x not in (parent, child)]):
                        for s in ([sep, sep[::-1]] if len(sep) > 1 else [sep]):
                            compare(rep, sp, ds, parent, child, s, lv, case["thr"])
        return
    lv = LEVELS[case["k"] % 3]
    for known in ([], [(names[-1], names[0])]):
        est = lib.StructureConstraintBasedEstimator(lib.sample_path(ds), lv[0], lv[1], known_edges=known,
                                                    thumb_threshold=case["thr"])
        got = set((str(a), str(b)) for a, b in est.estimate_structure(disable_multiprocessing=True))
        memo = {}

        def dec(p, c, s):
            k = (p, c, frozenset(s))
            if k not in memo:
                memo[k] = ref.ci_test(ds, p, c, sorted(s, key=names.index), lv[0], lv[1], case["thr"])
                rep.n("transitions")
                rep.state((k, memo[k]))
            return memo[k]
        for c in names:
            kept = [p for p in names if (p, c) in got]
            for p in names:
                if p == c:
                    continue
                rest = [x for x in names if x not in (p, c)]
                if (p, c) in known:
                    if p not in kept:
                        fail("known edge %s is not in the result" % ((p, c),), dataset=ds)
                elif p not in kept:
                    if dec(p, c, [])[1]:
                        fail("edge %s -> %s was removed although its data are too few already without a separating set" % (p, c),
                             dataset=ds, levels=lv, thr=case["thr"])
                    if not any(dec(p, c, s)[0] or dec(p, c, s)[2] for s in ref.subsets(rest)):
                        fail("edge %s -> %s was removed although no set separates the two" % (p, c), dataset=ds, levels=lv,
                             thr=case["thr"])
                else:
                    for s in ref.subsets([x for x in kept if x != p]):
                        if dec(p, c, s)[0] and not dec(p, c, s)[2] and not any(dec(p, c, q)[1] for q in ref.subsets(rest)):
                            fail("edge %s -> %s was kept although %s separates the two" % (p, c, s), dataset=ds, levels=lv,
                                 thr=case["thr"])
        rep.n("traces")
        rep.n("full_runs")
