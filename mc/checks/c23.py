"""C23: the same data presented in another way (names, order, times, cuts, lists of parents and known edges)."""
import itertools

import numpy as np

from mc import lib, ref, rnd
from mc.core import fail
from mc.ctpc import CIRecorder
from mc.explore import Stats, explore

ID = "C23"
RULE = ("a trace is one presentation of a data set taken through statistics, scores, independence answers and both structure searches and "
        "compared with the base presentation; a state is a distinct (data set, presentation, result); a transition is one compared answer")
BOUNDS = {"quick": "10 data sets of 2-4 variables, mixed cardinalities 2-4, 1-4 trajectories; every order of the variables (24 for 4), "
                   "6 renamings with every order of 3 labels, every order of the trajectories, 4 shifts of the times, every single cut and "
                   "the cut at all observations, every subset of cuts of one trajectory; families: every child and set of parents; "
                   "up to 6 parents of 5 and 7 variables in chosen orders; queries: every (child, parent, separating set) in every order of the set; searches: every draw sequence of 3-4 moves",
          "thorough": "18 data sets, 5 variables, 5-6 moves, compositions of two changes of presentation"}
ASSUMPTIONS = ["times are sums of powers of two, so that shifts and cuts change no duration",
               "when the variables are reordered, the constraint-based structure is compared only where its answers make it independent of the order of candidates"]
RENAMES = [["z", "y", "x", "w", "v"], ["A", "AB", "ABC", "B", "BC"], ["10", "9", "1", "0", "11"], ["Time1", "Name", "From", "index", "Value"],
           ["é ", "b c", "=", "-1", "V0"],
           ["a", "a ", " a", "A", "aS"]]
DATA = [(2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 4), (2, 2, 3), (2, 2, 2, 2), (2, 3, 2, 2), (3, 2, 2, 3), (4, 3, 2)]


NAMES = ["D", "A", "C", "B", "E", "G", "F"]


def base(k):
    cards = DATA[k % len(DATA)] if k < 16 else [(2, 2, 2, 2, 2), (2, 3, 2, 2, 2), (2, 2, 2, 3, 2, 2, 2)][k - 16]
    ln = {2: 26, 3: 40, 4: 60, 5: 70, 7: 120}[len(cards)] + 10 * (k // len(DATA))
    ds = (ref.coupled if k % 3 else ref.walk)(list(cards), NAMES[:len(cards)], ln) if not k % 3 else \
        ref.coupled(list(cards), ln, seed=5 + k, names=NAMES[:len(cards)], cut=(7, 11, 19)[:k % 4])
    ds["trajs"] = [[(round(t * 64) / 64.0, v) for t, v in tr] for tr in ds["trajs"]]
    if len(ds["trajs"]) < 3:
        ds["trajs"].append([(0.0, [0] * len(cards)), (0.5, [1] + [0] * (len(cards) - 1)), (2.25, [1, 1] + [0] * (len(cards) - 2)),
                            (3.0, [-1] * len(cards))])
    return ds


def changes(ds, big):
    """(what, data, map from the new labels to the old, order preserved?)"""
    names, n = ds["names"], len(ds["names"])
    ident = {x: x for x in names}
    for perm in itertools.permutations(range(n)):
        if perm != tuple(range(n)) and (n < 5 or perm[0] > 2):
            yield "variables in the order %s" % (perm,), reorder(ds, perm), ident, False
    for r in RENAMES:
        for perm in itertools.permutations(range(min(n, 3))):
            new = [r[i] for i in perm] + r[len(perm):n]
            yield "names %s" % new, rename(ds, new), dict(zip(new, names)), True
    k = len(ds["trajs"])
    for perm in itertools.permutations(range(min(k, 3))):
        if perm != tuple(range(len(perm))):
            yield "trajectories in the order %s" % (perm,), dict(ds, trajs=[ds["trajs"][i] for i in perm] + ds["trajs"][len(perm):]), ident, True
    for shift in (100.0, -3.5, 0.125, 2.0 ** 20):
        yield "times shifted by %s" % shift, dict(ds, trajs=[[(t + shift * (i + 1), v) for t, v in tr] for i, tr in enumerate(ds["trajs"])]), ident, True
    for i, tr in enumerate(ds["trajs"]):
        cuts = list(range(1, len(tr) - 1))
        for c in cuts if big or i == 0 else cuts[:3]:
            yield "trajectory %d cut at observation %d" % (i, c), cut(ds, i, [c]), ident, True
        yield "trajectory %d cut at every observation" % i, cut(ds, i, cuts), ident, True
    small = min(range(k), key=lambda i: len(ds["trajs"][i]))
    for cs in ref.subsets(range(1, min(6, len(ds["trajs"][small]) - 1)), 2):
        yield "trajectory %d cut at %s" % (small, cs), cut(ds, small, cs), ident, True
    if big:
        new = RENAMES[0][:n]
        for perm in itertools.permutations(range(n)):
            d = cut(reorder(ds, perm), 0, [2, 5])
            yield "variables in the order %s, renamed and cut" % (perm,), rename(d, new), dict(zip(new, d["names"])), False


def reorder(ds, perm):
    return {"names": [ds["names"][i] for i in perm], "cards": [ds["cards"][i] for i in perm],
            "trajs": [[(t, [v[i] for i in perm]) for t, v in tr] for tr in ds["trajs"]]}


def rename(ds, new):
    return dict(ds, names=list(new))


def cut(ds, i, cs):
    """Trajectory i cut in two at each observation of cs: the first part ends there, the second starts there."""
    tr, parts, lo = ds["trajs"][i], [], 0
    for c in list(cs) + [None]:
        if c is None:
            parts.append(tr[lo:])
        else:
            parts.append(tr[lo:c] + [tr[c]])
            lo = c
    return dict(ds, trajs=ds["trajs"][:i] + parts + ds["trajs"][i + 1:])


def cases(tier):
    big = tier == "thorough"
    for k in range(18 if big else 10):
        ds = base(k)
        total = sum(1 for _ in changes(ds, big))
        step = 6 if len(ds["names"]) < 4 else 3
        for lo in range(0, total, step):
            yield {"data": k, "from": lo, "to": min(total, lo + step), "big": int(big)}
        yield {"data": k, "lists": 1, "big": int(big)}
    for k in (16, 17):
        for child in range(5):
            yield {"data": k, "parents": child, "big": int(big)}
    for child in range(7):
        yield {"data": 18, "parents": child, "big": int(big)}


def queries(names):
    for c in names:
        for p in names:
            if p != c:
                for S in ref.subsets([x for x in names if x not in (c, p)]):
                    yield p, c, S


def order_free(names, answer):
    """The structure the answers lead to, if it does not depend on the order of the candidates (None otherwise)."""
    out = set()
    for child in names:
        ends = set()
        for perm in itertools.permutations([x for x in names if x != child]):
            u, b = list(perm), 0
            while b < len(u):
                i = 0
                while i < len(u):
                    t = u[i]
                    if any(answer[t, child, frozenset(S)] for S in itertools.combinations([x for x in u if x != t], b)):
                        u.remove(t)
                    else:
                        i += 1
                b += 1
            ends.add(frozenset(u))
        if len(ends) > 1:
            return None
        out |= {(p, child) for p in next(iter(ends))}
    return frozenset(out)


def results(ds, back, big, want_search=True):
    """Everything compared, in the labels of the base presentation."""
    sp = lib.sample_path(ds)
    names, cards = ds["names"], dict(zip(ds["names"], ds["cards"]))
    canon = sorted(names, key=lambda x: back[x])
    out = {"stats": {}, "score": {}, "answers": {}}
    sc = lib.StructureScoreBasedEstimator(sp, 0.25, 2)
    for c, P in lib.families(names):
        s = lib.estimate(sp, lib.structure(ds, [(p, c) for p in P]), c)
        order = sorted(P, key=names.index)
        key = (back[c], frozenset(back[p] for p in P))
        out["stats"][key] = {frozenset(zip([back[p] for p in order], u)): (T, M, q) for u, T, M, q in lib.tables(s)}
        g = lib.NetworkGraph(lib.structure(ds, [(p, c) for p in P]))
        out["score"][key] = float(sc.get_score_from_graph(g, c))
    ct = lib.StructureConstraintBasedEstimator(sp, 0.2, 0.2, thumb_threshold=0)
    for p, c, S in queries(names):
        out["answers"][back[p], back[c], frozenset(back[x] for x in S)] = bool(
            ct.complete_test(p, c, list(S), cards[c], len(names), names.index(p), names.index(c)))
    ed = lambda es: frozenset((back[str(a)], back[str(b)]) for a, b in es)
    out["ctpc"] = ed(lib.StructureConstraintBasedEstimator(sp, 0.2, 0.2, thumb_threshold=0).estimate_structure(disable_multiprocessing=True))
    known = [(canon[0], canon[-1])]
    out["ctpc_known"] = ed(lib.StructureConstraintBasedEstimator(sp, 0.1, 0.3, known_edges=known, thumb_threshold=2)
                           .estimate_structure(disable_multiprocessing=True))
    out["search"] = {}
    if want_search:
        moves = {2: 3, 3: 3, 4: 2, 5: 2}[len(names)] + (1 if big else 0)
        est = lib.StructureScoreBasedEstimator(sp, 0.25, 2, known_edges=known)
        for opt in ("hill", "tabu"):
            for c in (canon[0], canon[-1]) if not big else canon:
                for mp in (None, 1) if big or len(names) < 4 else (1,):
                    got = set()
                    st = Stats()

                    def execute(ch):
                        with rnd.controlled(rnd.Control(ch)):
                            return est.estimate_parents(c, mp, moves, None, 1, 2, opt)
                    for taken, es in explore(execute, stats=st):
                        got.add(ed(es))
                    out["search"][opt, back[c], mp] = got
    return out


_BASE = {}


def base_results(k, big):
    if (k, big) not in _BASE:
        ds = base(k)
        _BASE[k, big] = results(ds, {x: x for x in ds["names"]}, big)
    return _BASE[k, big]


def hairy(ds, p, c, S):
    return ref.ci_test(ds, p, c, list(S), 0.2, 0.2, 0)[2]


def run(case, rep):
    ds = base(case["data"])
    big = bool(case["big"])
    if "parents" in case:
        return four(case, ds, rep)
    want = base_results(case["data"], big)
    if case.get("lists"):
        return lists(case, ds, want, rep)
    for what, new, back, same in itertools.islice(changes(ds, big), case["from"], case["to"]):
        got = results(new, back, big)
        if set(got["stats"]) != set(want["stats"]):
            fail("other families with %s" % what)
        for key, s in want["stats"].items():
            o = got["stats"][key]
            if set(o) != set(s):
                fail("the configurations listed for %s given %s differ with %s" % (key[0], sorted(key[1]), what), base=sorted(map(sorted, s)), now=sorted(map(sorted, o)))
            for u, (T, M, q) in s.items():
                if o[u][1] != M or not np.allclose(o[u][0], T, rtol=1e-9, atol=1e-9) or not np.allclose(o[u][2], q, rtol=1e-9, atol=1e-9):
                    fail("the statistics of %s given %s differ with %s" % (key[0], sorted(u), what), base=(T, M), now=o[u][:2])
            rep.n("transitions", len(s))
        for key, s in want["score"].items():
            if not ref.close(s, got["score"][key], 1e-8):
                fail("the score of %s given %s is %r instead of %r with %s" % (key[0], sorted(key[1]), got["score"][key], s, what))
            rep.n("transitions")
        for (p, c, S), a in want["answers"].items():
            if got["answers"][p, c, S] != a and not hairy(ds, p, c, S):
                fail("%s and %s given %s are %s with %s, %s before" % (p, c, sorted(S), ["dependent", "independent"][got["answers"][p, c, S]], what,
                                                                     ["dependent", "independent"][a]))
            rep.n("transitions")
        if got["answers"] == want["answers"]:
            free = same or order_free(ds["names"], want["answers"]) is not None
            rep.n("structures_compared" if free else "structures_that_depend_on_the_order")
            if free and got["ctpc"] != want["ctpc"]:
                fail("the constraint-based structure is %s instead of %s with %s" % (sorted(got["ctpc"]), sorted(want["ctpc"]), what))
            if same and got["ctpc_known"] != want["ctpc_known"]:
                fail("the constraint-based structure with a known edge is %s instead of %s with %s" % (
                    sorted(got["ctpc_known"]), sorted(want["ctpc_known"]), what))
        for key, s in want["search"].items():
            if got["search"][key] != s:
                fail("the %s search on %s (max_parents %s) can lead to %s instead of %s with %s" % (
                    key + (sorted(map(sorted, got["search"][key])), sorted(map(sorted, s)), what)))
            rep.n("transitions", len(s))
        rep.n("traces")
        rep.state((case["data"], what))
    rep.sample({"data": case["data"], "presentations": [w for w, _, _, _ in itertools.islice(changes(ds, big), case["from"], case["to"])][:3],
                "ctpc": sorted(want["ctpc"])}, 2)


def four(case, ds, rep):
    """Up to six parents: other orders and names of the variables, and (up to four) every order of the edges."""
    names = ds["names"]
    sp = lib.sample_path(ds)
    sc = lib.StructureScoreBasedEstimator(sp, 0.25, 2)
    c = names[case["parents"]]
    n = len(names)
    alts = []
    for what, new, back, _ in [("variables in the reverse order", reorder(ds, range(n)[::-1]), {x: x for x in names}, 0),
                               ("variables rotated", reorder(ds, list(range(2, n)) + [0, 1]), {x: x for x in names}, 0)] + [
            ("names %s" % new, rename(ds, new), dict(zip(new, names)), 1) for new in (sorted(names)[::-1], ["V%d" % (12 - i) for i in range(n)])]:
        alts.append((what, new, back, lib.sample_path(new)))
    for P in ref.subsets([x for x in names if x != c], 2 if n < 7 else 3):
        base, first = None, None
        if n == 7 and len(P) < 5 and sum(map(names.index, P)) % 3:
            continue
        some = {}
        for what, new, back, spn in [("", ds, {x: x for x in names}, sp)] + alts:
            there = {b: a for a, b in back.items()}
            q = [there[p] for p in P]
            st = lib.structure(new, [(p, there[c]) for p in q])
            order = sorted(q, key=new["names"].index)
            t = {frozenset(zip([back[p] for p in order], u)): (tuple(round(x, 9) for x in T), repr(M)) for u, T, M, _ in lib.tables(lib.estimate(spn, st, there[c]))}
            v = float(lib.StructureScoreBasedEstimator(spn, 0.25, 2).get_score_from_graph(
                lib.NetworkGraph(lib.structure(new, [(p, there[c]) for p in q])), there[c]))
            some.setdefault("base", (t, v))
            if t != some["base"][0] or not ref.close(v, some["base"][1], 1e-8):
                fail("the statistics or the score of %s given %s differ with %s" % (c, P, what),
                     base=[(sorted(k), x) for k, x in some["base"][0].items()][:3], now=[(sorted(k), x) for k, x in t.items()][:3])
            rep.n("transitions", 2)
        perms = itertools.permutations(P) if len(P) < 5 and n < 7 else [P, P[::-1]] + [P[i:] + P[:i] for i in range(1, len(P))]
        for perm in perms:
            st = lib.structure(ds, [(p, c) for p in perm])
            got = [(u, T, M) for u, T, M, _ in lib.tables(lib.estimate(sp, st, c))]
            v = float(sc.get_score_from_graph(lib.NetworkGraph(lib.structure(ds, [(p, c) for p in perm])), c))
            a = bool(lib.StructureConstraintBasedEstimator(sp, 0.2, 0.2, thumb_threshold=0).complete_test(
                perm[0], c, list(perm[1:]), ds["cards"][case["parents"]], n, names.index(perm[0]), case["parents"]))
            key = perm[0]
            base = base or (sorted(map(repr, got)), v)
            first = first or {}
            if sorted(map(repr, got)) != base[0] or not ref.close(v, base[1], 1e-9):
                fail("the statistics or the score of %s given %s differ with the edges listed as %s" % (c, P, perm), base=base[0][:3],
                     now=sorted(map(repr, got))[:3])
            if first.setdefault(key, a) != a:
                fail("%s and %s given %s: the answer depends on the order of the set" % (perm[0], c, tuple(perm[1:])))
            rep.n("transitions", 3)
            rep.state((case["data"], c, tuple(perm)))
        rep.n("traces")


def lists(case, ds, want, rep):
    """Orders of the lists a caller passes: edges of a structure, separating sets, known edges."""
    names, cards = ds["names"], dict(zip(ds["names"], ds["cards"]))
    sp = lib.sample_path(ds)
    sc = lib.StructureScoreBasedEstimator(sp, 0.25, 2)
    for c, P in lib.families(names):
        other = [(c, names[(names.index(c) + 1) % len(names)])]
        for perm in itertools.permutations(P):
            for extra in ([], other):
                edges = extra + [(p, c) for p in perm]
                s = lib.estimate(sp, lib.structure(ds, edges), c)
                order = sorted(P, key=names.index)
                o = {frozenset(zip(order, u)): (T, M, q) for u, T, M, q in lib.tables(s)}
                if o != want["stats"][c, frozenset(P)]:
                    fail("the statistics of %s given %s differ with the edges listed as %s" % (c, P, edges))
                v = float(sc.get_score_from_graph(lib.NetworkGraph(lib.structure(ds, edges)), c))
                if not ref.close(v, want["score"][c, frozenset(P)], 1e-9):
                    fail("the score of %s given %s differs with the edges listed as %s" % (c, P, edges))
                rep.n("transitions", 2)
                rep.state((case["data"], tuple(edges)))
            rep.n("traces")
    for p, c, S in queries(names):
        for perm in itertools.permutations(S):
            ct = lib.StructureConstraintBasedEstimator(sp, 0.2, 0.2, thumb_threshold=0)
            a = bool(ct.complete_test(p, c, list(perm), cards[c], len(names), names.index(p), names.index(c)))
            if a != want["answers"][p, c, frozenset(S)]:
                fail("%s and %s given %s: the answer depends on the order of the set" % (p, c, perm))
            rep.n("transitions")
    pr = [(a, b) for a in names for b in names if a != b]
    for known in ref.subsets(pr, 2, 2 if len(names) > 3 else 3):
        first = None
        for perm in itertools.permutations(known):
            e = frozenset(tuple(map(str, x)) for x in lib.StructureConstraintBasedEstimator(
                sp, 0.2, 0.2, known_edges=list(perm), thumb_threshold=1).estimate_structure(disable_multiprocessing=True))
            if first is None:
                first = e
            if e != first:
                fail("the constraint-based structure depends on the order of the known edges %s" % (known,), one=sorted(first), other=sorted(e))
            rep.n("transitions")
    est = {}
    for perm in itertools.permutations(pr[:3]):
        e = lib.StructureScoreBasedEstimator(sp, 0.25, 2, known_edges=list(perm))
        for opt in ("hill", "tabu"):
            for c in names:
                got = set()

                def execute(ch):
                    with rnd.controlled(rnd.Control(ch)):
                        return e.estimate_parents(c, None, 2, None, 1, 2, opt)
                for taken, es in explore(execute):
                    got.add(frozenset(tuple(map(str, x)) for x in es))
                if est.setdefault((opt, c), got) != got:
                    fail("the %s search on %s depends on the order of the known edges" % (opt, c))
                rep.n("transitions", len(got))
    rep.n("traces")
