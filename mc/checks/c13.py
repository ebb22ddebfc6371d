"""C13: parallel estimation under every schedule of the worker processes against the serial one."""
import contextlib
import itertools
import random

import numpy as np

from mc import lib, pool, ref, rnd, wide
from mc.core import fail
from mc.explore import Chooser, Stats, explore

ID = "C13"
RULE = ("a trace is one complete parallel estimation under one assignment of the per-variable tasks to worker processes and one order "
        "of completion, compared with the serial estimation of the same data and draws; a state is a distinct (configuration, "
        "assignment prefix); distinct worker histories are executed in real forked processes")
BOUNDS = {"quick": "3 and 4 variables: every assignment of the tasks to up to as many workers as tasks and every order of completion, for "
                   "the constraint-based estimator and both score-based optimizers, several settings, known edges, cpu counts 1, 2, 8 "
                   "and processes_number 1, 2, 3, none; 5 variables: every assignment with at most 3 non-default choices; 6 to 12 variables: schedules at most one choice away; every "
                   "combination of the search settings under the schedules at most one choice away from the default; the families evaluated in searches of up to 320 iterations over 5 and 12 variables; plus runs of the "
                   "real pool",
          "thorough": "5 variables: every assignment and completion order; more settings"}
ASSUMPTIONS = ["workers are forked processes that take tasks in submission order; a task is pickled when it is submitted",
               "random draws per variable are made equal by seeding in estimate_parents or by constant draws"]

CARDS = {3: [(2, 2, 2), (2, 3, 2)], 4: [(2, 2, 2, 2), (2, 3, 2, 2)], 5: [(2, 2, 3, 2, 2)],
         6: [(2, 2, 3, 2, 2, 2)], 7: [(2, 3, 2, 2, 2, 2, 2)]}
CT = [{"thr": 0, "a": 0.1, "known": []}, {"thr": 0, "a": 0.5, "known": [(0, 1)]}, {"thr": 25, "a": 0.1, "known": [(1, 0), (2, 1)]},
      {"thr": 3, "a": 0.1, "known": []}]
SC = [{"optimizer": "hill", "max_parents": None, "iterations_number": 8, "patience": None},
      {"optimizer": "hill", "max_parents": 1, "iterations_number": 8, "patience": 3},
      {"optimizer": "tabu", "max_parents": None, "iterations_number": 8, "patience": None, "tabu_length": 2, "tabu_rules_duration": 2},
      {"optimizer": "tabu", "max_parents": 2, "iterations_number": 8, "patience": 4, "tabu_length": 1, "tabu_rules_duration": 1}]
PROCS = [(8, None), (8, 1), (8, 2), (8, 3), (2, None), (2, 3), (1, None)]


def cases(tier):
    big = tier == "thorough"
    for n in (3, 4, 5):
        for cards in CARDS[n]:
            for cpus, procs in PROCS if n < 5 else PROCS[:1]:
                for k, c in enumerate(CT if n < 5 or big else CT[:2]):
                    yield {"n": n, "cards": cards, "ct": c, "cpus": cpus, "procs": procs, "dev": 3 if n == 5 and not big else None}
                for k, s in enumerate(SC if n < 5 or big else SC[:1]):
                    for draw in ("seed", 0, 1, 2) if procs is None else ("seed",):
                        for known in ([], [(0, 1), (2, 0)]):
                            yield {"n": n, "cards": cards, "sc": s, "known": known, "draw": draw, "cpus": cpus, "procs": procs,
                                   "dev": 3 if n == 5 and not big else None}
    # every combination of settings, each under the default schedule and those one choice away
    for cards in CARDS[3][:2 if big else 1]:
        for it, pat, mp, ln, dur in itertools.product((3, 8), (None, 2, 4), (None, 1, 2), (1, 2, 3), (1, 2, 3, 4)):
            if not big and it == 3 and (pat, mp) != (2, 1):
                continue
            for k, draw in enumerate((0, 1, 2)):
                yield {"n": 3, "cards": cards, "known": [(1, 0)] if k == 1 else [], "draw": draw, "cpus": 2, "procs": None, "dev": 1,
                       "length": (160, 60)[k % 2], "sc": {"optimizer": "tabu", "iterations_number": it, "patience": pat,
                                                          "max_parents": mp, "tabu_length": ln, "tabu_rules_duration": dur}}
        for it, pat, mp in itertools.product((1, 2, 3, 5, 8), (None, 0, 1, 3), (None, 1, 2)):
            for k, draw in enumerate((0, 1, 2)):
                yield {"n": 3, "cards": cards, "known": [(1, 0)] if k == 1 else [], "draw": draw, "cpus": 2, "procs": None, "dev": 1,
                       "length": (160, 60)[k % 2], "sc": {"optimizer": "hill", "iterations_number": it, "patience": pat,
                                                          "max_parents": mp}}
    # many variables
    for n in (6, 7, 9, 12):
        for cpus, procs in ((2, None), (8, 3)):
            for k, sc in enumerate(SC[:4:3] if n > 7 else SC):
                for known in ([], [(0, n - 1), (n - 1, 2)]):
                    yield {"n": n, "cards": (2,) * n if n > 7 else CARDS[n][0], "known": known, "draw": "seed" if k == 0 else k % 3, "cpus": cpus, "procs": procs, "dev": 1,
                           "sc": sc}
        for c in CT[2:] if n < 8 else ():
            yield {"n": n, "cards": CARDS[n][0], "ct": c, "cpus": 2, "procs": None, "dev": 1}
    # long searches of many variables: the families each variable's search evaluates
    for n in (5, 12):
        for it in (40, 150, 320):
            for sc in SC[0], SC[1], SC[2], dict(SC[3], patience=it // 3):
                for mode in ("mixed", "large"):
                    yield {"kind": "families", "n": n, "cards": (2,) * n, "sc": dict(sc, iterations_number=it), "mode": mode, "procs": (None, 3)[it % 4 == 0]}
    for procs in (1, 2, 3, None):
        yield {"n": 3, "cards": (2, 3, 2), "ct": CT[0], "procs": procs, "real": True}
        yield {"n": 4, "cards": (2, 2, 2, 2), "sc": SC[0], "known": [], "draw": "seed", "procs": procs, "real": True}
        yield {"n": 3, "cards": (2, 2, 2), "sc": SC[3], "known": [(0, 1)], "draw": "seed", "procs": procs, "real": True}


class Seeded(lib.StructureScoreBasedEstimator):
    calls = 0

    def estimate_parents(self, node_id, *a, **k):
        Seeded.calls += 1
        random.seed("draws of " + str(node_id))
        np.random.seed(sum(map(ord, str(node_id))))
        return super(Seeded, self).estimate_parents(node_id, *a, **k)


class Evaluated(wide.Logged):
    """Logs the families it evaluates, with draws of its own for each variable."""
    calls = 0

    def estimate_parents(self, node_id, *a, **k):
        Evaluated.calls += 1
        random.seed("draws of " + str(node_id))
        np.random.seed(sum(map(ord, str(node_id))))
        return super(Evaluated, self).estimate_parents(node_id, *a, **k)


def families(case, rep):
    names = wide.names_of(case["n"])
    ds = ref.walk(list(case["cards"]), names, length=12)

    def estimate(**kw):
        est = Evaluated(lib.sample_path(ds), known_edges=[(names[0], names[1]), (names[-1], names[0])])
        est.mode = case["mode"]
        wide.fresh()
        edges = norm(est.estimate_structure(**dict(case["sc"], **kw)))
        seen = {}
        for node, fam, s in wide.rows():
            seen.setdefault(node, set()).add(tuple(fam))
        wide.fresh()
        return edges, seen
    Evaluated.calls = pool.FakeThreads.used = 0
    serial, seen = estimate(disable_multiprocessing=True)
    given = Evaluated.calls == case["n"]
    with pool.schedule(Chooser(), pool.NoMemo(), 8):
        got, there = estimate(processes_number=case["procs"])
    if not given or pool.FakeThreads.used:
        rep.n("skipped_seeded_runs")
        return
    if got != serial:
        fail("in parallel the edges are %s; serially they are %s" % (got, serial))
    for v in names:
        if seen.get(v) != there.get(v):
            fail("in parallel the search of %s evaluates %d families, serially %d; they differ in %s" % (
                v, len(there.get(v, ())), len(seen.get(v, ())), sorted(seen.get(v, set()) ^ there.get(v, set()))[:3]))
    rep.n("traces")
    rep.n("transitions", sum(map(len, seen.values())))
    rep.state(("families", repr(case)))


def norm(edges):
    edges = [(str(a), str(b)) for a, b in edges]
    if len(edges) != len(set(edges)):
        fail("an edge is listed twice", edges=edges)
    return sorted(edges)


def _threaded(execute):
    """Whether the estimation uses a pool of threads (found by running it once under the default schedule)."""
    execute(Chooser())
    return pool.FakeThreads.used


def run(case, rep):
    if case.get("kind") == "families":
        return families(case, rep)
    cards = list(case["cards"])
    n = len(cards)
    names = ["D", "A", "C", "B", "E", "L", "G", "H", "K", "J", "F", "I"][:n]
    ds = ref.coupled(cards, case.get("length", 160), seed=n, names=names, cut=(30,))
    ct = case.get("ct")
    named = lambda es: [(names[a], names[b]) for a, b in es]
    draw = case.get("draw")

    def estimate(**kw):
        sp = lib.sample_path(ds)
        if ct:
            est = lib.StructureConstraintBasedEstimator(sp, ct["a"], 0.1, known_edges=named(ct["known"]), thumb_threshold=ct["thr"])
            return norm(est.estimate_structure(**kw))
        est = (Seeded if draw == "seed" else lib.StructureScoreBasedEstimator)(sp, known_edges=named(case["known"]))
        with contextlib.ExitStack() as s:
            if draw != "seed":
                s.enter_context(rnd.controlled(rnd.Control(pool.Constant(draw))))
            return norm(est.estimate_structure(**dict(case["sc"], **kw)))
    Seeded.calls = 0
    serial = estimate(disable_multiprocessing=True)
    if draw == "seed" and Seeded.calls != n:
        rep.n("skipped_seeded_runs")     # the draws of each variable cannot be fixed this way
        return
    rep.n("transitions", n)
    rep.sample({"cards": cards, "serial": serial, "cpus": case.get("cpus"), "procs": case["procs"]}, 2)
    if case.get("real"):
        pool.FakeThreads.used = 0
        with pool.schedule(Chooser(), {}, 8):
            estimate(processes_number=case["procs"])
        if pool.FakeThreads.used and draw == "seed":
            rep.n("skipped_seeded_runs")     # threads share one generator: the draws of each variable are not given
            return
        got = estimate(processes_number=case["procs"])
        if got != serial:
            fail("with the real pool and processes_number=%s the edges are %s; serially they are %s" % (case["procs"], got, serial))
        rep.n("traces")
        rep.n("real_pool_runs")
        rep.state(("real", repr(case)))
        return
    memo, st = {}, Stats()
    pool.FakeExecutor.tasks_run = 0

    def execute(ch):
        with pool.schedule(ch, memo, case["cpus"]) as widths:
            try:
                return estimate(processes_number=case["procs"]), list(widths)
            except pool.WorkerError as e:
                fail("a task fails in a worker process", error=str(e).splitlines()[-4:], schedule=ch.trace)
    # a pool of threads is preempted only where the draws of a variable do not depend on what runs meanwhile
    pool.FakeThreads.used = 0
    pool.FakeThreads.preempt = draw != "seed" and n == 3 and (case["cpus"], case["procs"]) == (8, None) and len(case.get("known", [])) < 2
    if _threaded(execute):
        rep.n("thread_pools")
    for taken, (got, widths) in explore(execute, deviations=1 if pool.FakeThreads.used else case["dev"], stats=st,
                                        max_executions=300 if pool.FakeThreads.used else None):
        if got != serial:
            fail("in parallel (schedule %s of %s workers) the edges are %s; serially they are %s" % (taken, widths, got, serial))
        if case["procs"] is not None and any(w > case["procs"] for w in widths):
            fail("%s worker processes are used although at most %s were asked for" % (widths, case["procs"]))
        rep.n("traces")
        rep.n("transitions", n)
        for i in range(len(taken) + 1):
            rep.state((repr(case), tuple(taken[:i])))
        if not widths:
            rep.n("runs_without_a_pool")
    rep.n("diverged", st.diverged)
    rep.n("tasks_in_forked_workers", pool.FakeExecutor.tasks_run)
    if case["dev"] is not None:
        rep.n("beyond_deviation_bound", st.bounded)
