"""C09: known edges, in all three searches, for all known edge sets."""
import itertools

from mc import ctpc, lib, ref, rnd, search, wide
from mc.core import fail
from mc.explore import Stats, explore

ID = "C09"
RULE = ("a trace is one search or estimation under one sequence of draws, score answers or independence answers; every evaluated "
        "family and the result must contain the known edges, and every other edge must be open to removal; a state is a distinct "
        "(history, known edges)")
BOUNDS = {"quick": "score searches: 3 variables 5 moves, 4 variables 4 moves, all known parents, max_parents None/1/2/3; constraint-based "
                   "oracle: all 64 sets on 3 variables with all answers, all 4096 sets on 4 variables with the two constant oracles; real data "
                   "with the rule of thumb; with and without a prior network; 5 and 6 variables with several known parents, up to 9 with 7; whole "
                   "networks of 3 to 7 variables, serial and on worker processes, of up to 12 serially (60 moves; 150 with 4 and 6)",
          "thorough": "one more move; 4 variables with all answers about one child"}


def cases(tier):
    big = tier == "thorough"
    N = search.NAMES
    for opt in ("hill", "tabu"):
        for n, it in ((2, 3), (3, 6 if big else 5), (4, 5 if big else 4)):
            for node in N[:n] if n < 4 else N[:2]:
                others = [x for x in N[:n] if x != node]
                for known in ref.subsets(others):
                    for mx in (None, 1, 2, 3):
                        yield {"n": n, "node": node, "known": known, "max": mx, "iters": it, "patience": None, "opt": opt,
                               "length": None, "duration": None, "more": [(node, others[0])]}
        for known, mx in (([N[0], N[1]], 3), ([N[0], N[4]], 3), ([N[1], N[4]], 2), ([N[0], N[1], N[4]], 4), ([N[4]], 2)):
            yield {"n": 5, "node": N[2], "known": known, "max": mx, "iters": 4, "patience": None, "opt": opt,
                   "length": None, "duration": None, "more": [(N[2], N[0])]}
        yield {"n": 6, "node": N[3], "known": [N[5], N[1]], "max": 3, "iters": 4 if big else 3, "patience": None, "opt": opt,
               "length": None, "duration": None, "more": [(N[3], N[0])]}
        for c in wide.settings([opt], (9, 10, 12), (None, 4, 9), ("large", "small"), ("serial",), 60):
            yield c
        for c in wide.settings([opt], (4, 6), (None, 3), ("mixed", "small"), ("serial",), 150):
            yield c
        for c in wide.settings([opt], (3, 4, 5, 6, 7), (None, 2, 3, 4), ("large", "mixed") if big else ("large",)):
            yield c
    for opt in ("hill", "tabu"):
        for n, k in ((6, 4), (7, 5), (9, 4), (9, 7)):
            for mx in (k + 1, k + 2, None):
                for i in range(3):
                    kn = [x for x in N[i:n] + N[:i] if x != N[1]][:k]
                    yield {"kind": "line", "n": n, "node": N[1], "known": kn, "max": mx, "iters": 16, "patience": None, "opt": opt,
                           "length": None, "duration": None, "mode": ("large", "mixed", "small")[i], "line": [i, 2 + i % 4],
                           "base": 0.0, "unit": 1.0}
    for n in (3, 4, 5, 6, 7):
        for known in wide.KNOWN[n]:
            for procs in ("serial", None, 1, 3):
                for mode in (0, 1, 2):
                    yield {"wide": True, "asked": True, "n": n, "known": known, "procs": procs, "mode": mode}
    p3 = list(itertools.permutations(range(3), 2))
    for known in ref.subsets(p3):
        yield {"kind": "oracle", "n": 3, "known": known, "prior": len(known) % 2 == 0}
    p4 = list(itertools.permutations(range(4), 2))
    for i, known in enumerate(ref.subsets(p4)):
        if i % (2 if big else 3) == 0 or len(known) < 4 or len(known) > 9:
            yield {"kind": "const", "n": 4, "known": known, "rev": i % 2}
    for known in ref.subsets(p3):
        for thr in (0, 3, 25, 1000):
            for k in range(3):
                yield {"kind": "ctpc", "cards": ((2, 3, 2), (3, 3, 3), (2, 2, 4))[k], "known": known, "thr": thr,
                       "prior": (len(known) + k) % 2 == 1}
    for known in ref.subsets(p3):
        for opt in ("hill", "tabu"):
            for mx in (None, 1):
                yield {"kind": "score", "cards": (2, 3, 2), "known": known, "opt": opt, "max": mx, "prior": len(known) % 3 == 1}
    for form in ("list", "tuple", "array", "repeated", "reversed"):
        for opt in ("hill", "tabu", "ctpc"):
            yield {"kind": "form", "form": form, "opt": opt}


def judge(cfg, trace, edges, single=True):
    known = frozenset(cfg["known"])
    fams = [f for f, _ in trace]
    if fams and fams[0] != known:
        fail("the search on %s starts from %s instead of the known parents %s" % (cfg["node"], sorted(fams[0]), sorted(known)))
    for fam in fams + [frozenset(p for p, _ in edges)]:
        if not known <= fam:
            fail("family %s of %s lacks the known parents %s" % (sorted(fam), cfg["node"], sorted(known - fam)))
    extra = (cfg["node"], [x for x in search.NAMES[:cfg["n"]] if x != cfg["node"]][0])
    if single and tuple(extra) in [tuple(e) for e in edges]:
        fail("the search on %s returns the edge %s of another variable" % (cfg["node"], extra))


def full_prior(names):
    return list(itertools.permutations(names, 2))


def whole(cfg, traces, edges):
    for node in wide.names_of(cfg["n"]):
        judge(wide.node_cfg(cfg, node), traces[node], [e for e in edges if e[1] == node], False)


def run(case, rep):
    if case.get("wide"):
        if case.get("asked"):
            wide.check_asked(case, rep, check_ctpc)
        else:
            wide.check_scored(case, rep, whole)
        return
    if case.get("kind") == "line":
        search.explore_line(case, rep, lambda fam, node: wide.score(case["mode"], fam, node), judge)
        return
    if "kind" not in case:
        search.explore_config(case, rep, check_draws=False, judge=judge)
        return
    k = case["kind"]
    n = case.get("n") or len(case.get("cards", (0, 0, 0)))
    names = search.NAMES[:n]
    known = [(names[a], names[b]) for a, b in case.get("known", [])]
    prior = full_prior(names) if case.get("prior") else None
    if k in ("oracle", "const"):
        ds = ref.walk([2, 3, 2, 2][:n], names, length=10)
        sp = lib.sample_path(ds, prior)
        if k == "const":
            for ans in (True, False):
                given = known[::-1] if case["rev"] else known
                est, edges = ctpc.run_oracle(names, ds, given, lambda p, c, s: ans, sp=sp)
                got = set(map(tuple, edges))
                exp = set(known) if ans else set(full_prior(names))
                if got != exp:
                    fail("with every test answering %s and known edges %s the result is %s" % (
                        "independent" if ans else "dependent", known, sorted(got)))
                rep.n("traces")
                rep.n("transitions", len(known))
                rep.state((ans, tuple(sorted(known))))
            return
        st = Stats()

        def execute(ch):
            table, log = {}, []

            def answer(p, c, sep):
                q = (p, c, frozenset(sep))
                if q not in table:
                    table[q] = ch.choose(2) == 0
                log.append((p, c, sep, table[q]))
                return table[q]
            est, edges = ctpc.run_oracle(names, ds, known, answer, sp=sp)
            return log, [tuple(e) for e in edges]
        for taken, (log, edges) in explore(execute, stats=st):
            check_ctpc(names, known, log, edges)
            rep.n("traces")
            rep.n("transitions", len(log))
            rep.state((tuple(sorted(known)), tuple((p, c, tuple(s), a) for p, c, s, a in log)))
        return
    if k == "form":
        names = search.NAMES[:3]
        ds = ref.walk([2, 3, 2], names, length=40)
        known = [(names[0], names[1]), (names[2], names[0]), (names[1], names[0])]
        import numpy as np
        given = {"list": [list(e) for e in known], "tuple": tuple(known), "array": [np.array(e) for e in known],
                 "repeated": known + known, "reversed": known[::-1]}[case["form"]]
        keep = repr(given)
        est, edges = estimate(ds, given, case["opt"], None, None)
        if repr(given) != keep:
            fail("estimating modified the caller's list of known edges")
        if not set(known) <= set(edges):
            fail("known edges %s given as %s are missing from %s" % (known, case["form"], edges))
        rep.n("traces")
        rep.n("transitions", len(edges))
        rep.state((case["form"], case["opt"], tuple(sorted(edges))))
        return
    cards = list(case["cards"])
    ds = ref.walk(cards, names, length=70, mult=5, cut=(30,))
    if k == "ctpc":
        sp = lib.sample_path(ds, prior)
        for given in (known, known[::-1]):
            est = ctpc.CIRecorder(sp, 0.1, 0.1, known_edges=given, thumb_threshold=case["thr"])
            log = []
            est.note = lambda p, c, s, a: log.append((p, c, s, a))
            for again in (1, 2):
                del log[:]
                edges = [tuple(map(str, e)) for e in est.estimate_structure(disable_multiprocessing=True)]
                check_ctpc(names, known, log, edges)
                rep.n("traces")
                rep.n("transitions", len(log))
                rep.state((tuple(sorted(known)), repr(log)))
        return
    # score-based estimation of the whole network, all draws within the deviation bound
    sp = lib.sample_path(ds, prior)
    est = search.Recorder(sp, known_edges=known)
    st = Stats()

    def execute(ch):
        log = []
        est.note = lambda fam, node, s: log.append((fam, node))
        with rnd.controlled(rnd.Control(ch)):
            e = est.estimate_structure(max_parents=case["max"], iterations_number=4, optimizer=case["opt"],
                                       disable_multiprocessing=True)
        return log, [tuple(map(str, x)) for x in e]
    for taken, (log, edges) in explore(execute, deviations=2, stats=st, max_executions=2000):
        for node in names:
            kp = frozenset(p for p, c in known if c == node)
            mine = [f for f, d in log if d == node]
            if mine and mine[0] != kp:
                fail("the search on %s starts from %s instead of the known parents %s" % (node, sorted(mine[0]), sorted(kp)))
            for f in mine + [frozenset(p for p, c in edges if c == node)]:
                if not kp <= f:
                    fail("family %s of %s lacks known parents %s" % (sorted(f), node, sorted(kp - f)))
        rep.n("traces")
        rep.n("transitions", len(log))
        rep.state((tuple(sorted(known)), tuple(log)))


def estimate(ds, known, opt, mx, prior):
    sp = lib.sample_path(ds, prior)
    if opt == "ctpc":
        est = lib.StructureConstraintBasedEstimator(sp, 0.1, 0.1, known_edges=known)
        e = est.estimate_structure(disable_multiprocessing=True)
    else:
        est = lib.StructureScoreBasedEstimator(sp, known_edges=known)
        import random
        random.seed(1)
        e = est.estimate_structure(max_parents=mx, optimizer=opt, disable_multiprocessing=True)
    return est, [tuple(map(str, x)) for x in e]


def check_ctpc(names, known, log, edges):
    got = set(map(tuple, edges))
    if not set(known) <= got:
        fail("the known edges %s are missing from the result %s" % (sorted(set(known) - got), sorted(got)), log=log)
    for p, c, s, a in log:
        if (p, c) in known:
            fail("the known edge %s -> %s is tested" % (p, c))
        if a and (p, c) in got:
            fail("the edge %s -> %s is kept although it is not known and was found independent given %s" % (p, c, s))
    for p, c in itertools.permutations(names, 2):
        if (p, c) not in known and not any((q, d) == (p, c) for q, d, _, _ in log):
            fail("the edge %s -> %s is not known and was never tested" % (p, c))
