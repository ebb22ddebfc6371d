"""C10: the constraint-based search under every answer of the independence oracle."""
from mc import ctpc, lib, ref, rnd, search, wide
from mc.core import fail
from mc.explore import Stats, explore

ID = "C10"
RULE = ("a trace is one complete constraint-based run in which each distinct query is answered independent or dependent by the "
        "explorer; the queries and the result are judged against the definition; a state is a distinct (answers so far) history of "
        "one child")
BOUNDS = {"quick": "3 variables: all answers to all queries of all children jointly, all 64 known edge sets; 4 variables: all "
                   "answers for one child (the others answered constantly), all known parents; 5 variables: at most 3 answers that "
                   "differ from the default, both defaults; 6 variables: 2; all runs on real data sets judged with their own "
                   "answers; chosen answers for up to 10 variables, serial and on worker processes",
          "thorough": "5 variables with 4 differing answers, 6 variables with 3; 4 variables and 2 children jointly"}
ASSUMPTIONS = ["an independence query always gets the same answer within a run"]


def cases(tier):
    big = tier == "thorough"
    N = search.NAMES
    pairs = [(a, b) for b in N[:3] for a in N[:3] if a != b]
    for n in (1, 2):
        for known in ref.subsets([(a, b) for b in N[:n] for a in N[:n] if a != b]):
            yield {"n": n, "known": known, "free": N[:n], "dev": None, "default": False}
    for known in ref.subsets(pairs):
        yield {"n": 3, "known": known, "free": N[:3], "dev": None, "default": False}
    for child in N[:4]:
        others = [x for x in N[:4] if x != child]
        for kp in ref.subsets(others):
            for rest in (False, True):
                yield {"n": 4, "known": [(p, child) for p in kp] + [(child, others[0])], "free": [child], "dev": None, "default": rest}
    for child in (N[0], N[2], N[4]):
        for kp in ref.subsets([x for x in N[:5] if x != child], 0, 2):
            for default in (False, True):
                yield {"n": 5, "known": [(p, child) for p in kp], "free": [child], "dev": 4 if big else 3, "default": default}
    for child in (N[1], N[3]):
        for default in (False, True):
            yield {"n": 6, "known": [], "free": [child], "dev": 3 if big else 2, "default": default}
    if big:
        for i, a in enumerate(N[:4]):
            for b in N[:i]:
                yield {"n": 4, "known": [], "free": [a, b], "dev": 6, "default": False}
    for n in (3, 4, 5, 6, 7):
        for known in wide.KNOWN[n]:
            for procs in ("serial", None, 1, 3):
                for mode in (0, 1, 2, 3, 5):
                    yield {"wide": True, "n": n, "known": known, "procs": procs, "mode": mode}
    for n in (9, 10):
        for known in wide.KNOWN[n]:
            for procs in ("serial",) + ((3,) if n == 9 else ()):
                for mode in (6, 29) + ((99,) if n == 9 else ()):
                    yield {"wide": True, "n": n, "known": known, "procs": procs, "mode": mode, "dev": 0}
    for cards in [(2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 2, 2), (2, 3, 2, 4), (2, 2, 2, 2, 2)]:
        for k in range(6):
            for thr in (0, 25):
                for known in ([], [(1, 0)], [(0, 1), (1, 2)]):
                    yield {"real": True, "cards": cards, "k": k, "thr": thr, "known": known}


def run(case, rep):
    if case.get("wide"):
        wide.check_asked(case, rep, ctpc.judge)
        return
    if case.get("real"):
        cards = list(case["cards"])
        names = search.NAMES[:len(cards)]
        ds = ref.walk(cards, names, length=60 + 40 * case["k"], mult=3 + 2 * case["k"], add=1 + case["k"], cut=(25,))
        known = [(names[a], names[b]) for a, b in case["known"]]
        est = ctpc.CIRecorder(lib.sample_path(ds), 0.1 + 0.3 * (case["k"] % 3), 0.1, known_edges=known, thumb_threshold=case["thr"])
        log = []
        est.note = lambda p, c, s, a: log.append((p, c, s, a))
        edges = est.estimate_structure(disable_multiprocessing=True)
        if case["thr"] == 0:
            ctpc.judge(names, known, log, edges)
        else:      # edges frozen for lack of data are not tested any further: only what is absent needs a reason
            got = set(map(tuple, edges))
            for c in names:
                for p in names:
                    pos = [s for q, d, s, a in log if (q, d) == (p, c) and a]
                    if p != c and ((p, c) in got) == bool(pos):
                        fail("edge %s -> %s is %s the result, sets found to separate them: %s" % (
                            p, c, "in" if (p, c) in got else "not in", pos))
        rep.n("traces")
        rep.n("real_data_traces")
        rep.n("transitions", len(log))
        rep.state(repr(log))
        return
    n = case["n"]
    names = search.NAMES[:n]
    ds = ref.walk([2, 3, 2, 2, 3, 2][:n], names, length=12)
    known = [tuple(e) for e in case["known"]]
    free = set(case["free"])
    sp = lib.sample_path(ds)
    st = Stats()
    dflt = bool(case["default"])
    perchild = {}

    def execute(ch):
        table, log = {}, []

        def answer(p, c, sep):
            q = (p, c, frozenset(sep))
            if q not in table:
                table[q] = dflt if c not in free else (dflt if ch.choose(2) == 0 else not dflt)
            log.append((p, c, sep, table[q]))
            return table[q]
        est, edges = ctpc.run_oracle(names, ds, known, answer, sp=sp)
        return log, [tuple(e) for e in edges]
    for taken, (log, edges) in explore(execute, deviations=case["dev"], stats=st):
        ctpc.judge(names, known, log, edges)
        for c in names:
            mine = tuple((p, frozenset(s), a) for p, d, s, a in log if d == c)
            res = frozenset(p for p, d in edges if d == c)
            if perchild.setdefault((c, mine), res) != res:
                fail("the parents of %s are %s or %s after the same answers about %s" % (c, sorted(res), sorted(perchild[c, mine]), c))
            for i in range(len(mine) + 1):
                rep.state((c, mine[:i]))
        rep.n("traces")
        rep.n("transitions", len(log))
    rep.n("diverged", st.diverged)
    if case["dev"] is not None:
        rep.n("beyond_deviation_bound", st.bounded)
    rep.top("queries", st.maxdepth)
    rep.sample({"known": known, "n": n, "executions": st.executions}, 2)
