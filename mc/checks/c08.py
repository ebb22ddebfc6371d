"""C08: max_parents is respected by every evaluated and returned family."""
import itertools

from mc import lib, ref, rnd, search, wide
from mc.core import fail
from mc.explore import Stats, explore

ID = "C08"
RULE = ("a trace is one complete search (or one estimation of the whole network) under one sequence of draws and score answers; "
        "the size of every evaluated family and of the result is compared with max_parents; a state is a distinct (history, settings)")
BOUNDS = {"quick": "one variable: 3 variables with 5 moves, 4 variables with 4 moves, all known sets, max_parents 0..4, both optimizers, "
                   "tabu lists 1/3; whole networks of 3 variables: all 64 known edge sets, 2 moves, all draws; 4 variables: 3 moves, at most 3 "
                   "non-default draws, on real data; whole networks of 3 to 7 variables, serial and on worker processes, of up to 12 serially (60 moves; 150 with 4 and 6)",
          "thorough": "one more move"}


def cases(tier):
    big = tier == "thorough"
    N = search.NAMES
    for opt in ("hill", "tabu"):
        for n, it in ((2, 3), (3, 6 if big else 5), (4, 5 if big else 4)):
            for node in N[:n] if n < 4 else N[1:2]:
                others = [x for x in N[:n] if x != node]
                for known in ref.subsets(others):
                    for mx in (0, 1, 2, 3, 4):
                        for tl, td in ((None, None), (1, 3)) if opt == "tabu" else ((None, None),):
                            yield {"n": n, "node": node, "known": known, "max": mx, "iters": it, "patience": None, "opt": opt,
                                   "length": tl, "duration": td}
        yield {"n": 5, "node": N[2], "known": [N[0]], "max": 2, "iters": 4, "patience": None, "opt": opt, "length": None, "duration": None}
        for c in wide.settings([opt], (9, 12), (1, 3, 5, 6, 8), ("large",), ("serial",), 60):
            yield c
        for c in wide.settings([opt], (4, 6), (1, 2, 3), ("large", "mixed"), ("serial",), 150):
            yield c
        for c in wide.settings([opt], (3, 4, 5, 6, 7), (0, 1, 2, 3, 4), ("large", "mixed") if big else ("large",)):
            yield c
        pairs = list(itertools.permutations(range(3), 2))
        for known in ref.subsets(pairs):
            for mx in (0, 1, 2):
                yield {"net": True, "cards": (2, 3, 2), "known": known, "max": mx, "iters": 3 if big else 2, "opt": opt, "dev": 4 if big else None}
        for cards in ((2, 2, 2, 2), (3, 2, 2, 3)):
            for known in ([], [(0, 1)], [(0, 1), (2, 1), (3, 1)], [(3, 2), (1, 0), (0, 3)]):
                for mx in (1, 2, 3):
                    yield {"net": True, "cards": cards, "known": known, "max": mx, "iters": 4 if big else 3, "opt": opt, "dev": 2}


def limit_of(mx, known, node):
    return max(mx, len([1 for k, n in known if n == node]))


def judge(cfg, trace, edges):
    lim = max(cfg["max"], len(cfg["known"]))
    for fam in [f for f, _ in trace] + [frozenset(p for p, _ in edges)]:
        if len(fam) > lim:
            fail("family %s of %s although max_parents is %d and %d parents are known" % (
                sorted(fam), cfg["node"], cfg["max"], len(cfg["known"])))
        if cfg["node"] in fam:
            fail("%s is its own parent" % cfg["node"])
    for p, c in edges:
        if c != cfg["node"]:
            fail("the search on %s returns an edge into %s" % (cfg["node"], c))


def whole(cfg, traces, edges):
    names = wide.names_of(cfg["n"])
    for node in names:
        judge(wide.node_cfg(cfg, node), traces[node], [e for e in edges if e[1] == node])
    if any(c not in names for p, c in edges):
        fail("the result has edges of unknown variables", edges=edges)


def run(case, rep):
    if case.get("wide"):
        wide.check_scored(case, rep, whole)
        return
    if not case.get("net"):
        search.explore_config(case, rep, check_draws=False, judge=judge)
        rep.sample(case, 1)
        return
    cards = list(case["cards"])
    names = search.NAMES[:len(cards)]
    ds = ref.walk(cards, names, length=60, cut=(20,))
    known = [(names[a], names[b]) for a, b in case["known"]]
    sp = lib.sample_path(ds)
    est = search.Recorder(sp, known_edges=known)
    st = Stats()

    def execute(ch):
        log = []
        est.note = lambda fam, node, s: log.append((fam, node))
        with rnd.controlled(rnd.Control(ch)):
            e = est.estimate_structure(max_parents=case["max"], iterations_number=case["iters"], optimizer=case["opt"],
                                       disable_multiprocessing=True)
        return log, [tuple(map(str, x)) for x in e]
    for taken, (log, edges) in explore(execute, deviations=case["dev"], stats=st, max_executions=6000):
        fams = log + [(frozenset(p for p, c in edges if c == n), n) for n in names]
        for fam, node in fams:
            if len(fam) > limit_of(case["max"], known, node) or node in fam:
                fail("family %s of %s although max_parents is %d and the known edges are %s" % (
                    sorted(fam), node, case["max"], known))
        rep.state((tuple(log), tuple(sorted(edges)), case["max"]))
        rep.n("traces")
        rep.n("transitions", len(log))
    if case["dev"] is None:
        rep.n("bounded", st.bounded)
    else:
        rep.n("beyond_deviation_bound", st.bounded)
