"""C25: estimations that fail or are interrupted at any call into their environment, and what is estimated after them."""
import concurrent.futures
import os

from mc import faults, lib, pool, rnd
from mc.checks import c14
from mc.core import fail
from mc.explore import Chooser, Timeout, explore

ID = "C25"
RULE = ("a trace is one session in which an operation fails at one crash point (a call into numpy, scipy, the random generator or a worker "
        "process, or a refused argument) and further operations follow on the same objects; the sample path is compared with what it was, "
        "every later result with that on fresh data; a state is a distinct (data set, operation, crash point)")
BOUNDS = {"quick": "4 data sets of 3 and 4 variables with and without prior edges, 11 operations: every count of a family, every score, test, quantile, "
                   "statistic and random draw fails in turn (three kinds of errors in rotation), each followed by the operation itself, the outputs and 2 to 3 of the other "
                   "operations in rotation; every failing task and every broken pool under every schedule of 2 workers; 16 refused "
                   "arguments; real worker processes that die at each variable",
          "thorough": "9 data sets, all three kinds at every call (also every sum and gamma function), all the other operations after each"}
ASSUMPTIONS = ["a failure arises in a call into the environment, fires once, and is not swallowed by it",
               "random draws of each estimation are made equal by constant draws"]
OPS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
PARTS = 6
BAD = 16


def cases(tier):
    big = tier == "thorough"
    for d in list(range(9)) if big else [6, 0, 1, 4]:
        for b in range(BAD):
            yield {"kind": "bad", "data": d, "call": b}
        for op in OPS:
            for part in range(PARTS):
                yield {"kind": "crash", "data": d, "op": op, "part": part, "all": big}
    for d in (0, 1, 2, 3) + ((4, 5, 6) if big else ()):
        for est in ("ct", "hill", "tabu"):
            yield {"kind": "pool", "data": d, "est": est}
    for d in (0, 2):
        for est in ("ct", "hill", "tabu"):
            for i in range(3):
                yield {"kind": "died", "data": d, "est": est, "at": i}


def session(d):
    cards, prior, draw = c14.DATA[d]
    names = ["D", "A", "C", "B", "F", "E"][:len(cards)]
    key = ("data", d)
    if key not in c14._FRESH:
        c14._FRESH[key] = c14.scarce(names) if d == 6 else c14.ref.coupled(list(cards), 110, seed=3 + d, names=names, cut=(25,))
    return c14.Session(c14._FRESH[key], prior, draw)


def fresh(d, op):
    if (d, op) not in c14._FRESH:
        c14._FRESH[d, op] = session(d).do(op)
    return c14._FRESH[d, op]


def after(s, d, snap, ops, what, rep):
    if s.snap() != snap:
        names = ("labels", "indexes", "cardinalities", "edges", "total", "count", "has_prior_net_structure", "times", "rows", "columns", "size")
        fail("the sample path is not what it was before %s" % what,
             changed=[n for n, a, b in zip(names, snap, s.snap()) if a != b])
    for op in ops:
        got = s.do(op)
        rep.n("transitions")
        if got != fresh(d, op):
            fail("operation %d gives %r after %s; on fresh data it gives %r" % (op, got, what, fresh(d, op)))
        if s.snap() != snap:
            fail("operation %d alters the sample path after %s" % (op, what))
    rep.n("traces")


def estimator(s, est):
    return s.ct if est == "ct" else s.sc


def request(s, est, **kw):
    if est == "ct":
        return s.ct.estimate_structure(**kw)
    with rnd.controlled(rnd.Control(pool.Constant(s.draw))):
        return s.sc.estimate_structure(max_parents=2, iterations_number=5, tabu_length=2, tabu_rules_duration=2, optimizer=est, **kw)


def bad(s, i):
    """A request that should be refused; whether it is does not matter here, only what it leaves behind."""
    CT, SC = lib.StructureConstraintBasedEstimator, lib.StructureScoreBasedEstimator
    n, sp, ser = s.ds["names"], s.sp, {"disable_multiprocessing": True}
    with rnd.controlled(rnd.Control(pool.Constant(s.draw))):
        if i == 0:
            s.sc.estimate_structure(optimizer="tabu", tabu_rules_duration=0, iterations_number=4, **ser)
        elif i == 1:
            s.sc.estimate_structure(max_parents="two", **ser)
        elif i == 2:
            s.sc.estimate_structure(iterations_number=None, **ser)
        elif i == 3:
            s.sc.estimate_structure(optimizer="hill", patience="two", **ser)
        elif i == 4:
            s.sc.estimate_structure(optimizer="tabu", tabu_length="two", iterations_number=3, **ser)
        elif i == 5:
            s.sc.estimate_structure(processes_number=0)
        elif i == 6:
            s.ct.estimate_structure(processes_number=0)
        elif i == 7:
            s.sc.estimate_structure(processes_number="two")
        elif i == 8:
            s.ct.estimate_structure(processes_number=-1)
        elif i == 9:
            SC(sp, known_edges=[(n[0], n[1]), (n[0], "nobody")]).estimate_structure(**ser)
        elif i == 10:
            CT(sp, "a", 0.1, known_edges=[(n[0], n[1])]).estimate_structure(**ser)
        elif i == 11:
            CT(sp, 0.1, None, thumb_threshold=0).estimate_structure(**ser)
        elif i == 12:
            SC(sp, tau_xu="x").estimate_structure(iterations_number=3, **ser)
        elif i == 13:
            CT(sp, 0.1, 0.1, thumb_threshold="x").estimate_structure(**ser)
        elif i == 14:
            s.ct.complete_test("nobody", n[0], [n[1]], s.ds["cards"][0], len(n), 1, 0)
        elif i == 15:
            SC(sp, alpha_xu=None).estimate_structure(iterations_number=3, **ser)


def run(case, rep):
    d = case["data"]
    if case["kind"] == "crash":
        op, k, end = case["op"], case["part"], False
        others = [o for o in OPS if o != op and o != 7]
        first = [fresh(d, o) for o in OPS + [11]]
        assert first
        while not end:
            for kind in faults.KINDS if case["all"] else (faults.KINDS[(k + k // PARTS) % 3],):
                s = session(d)
                before = [2, 5] if (k // PARTS) % 2 else []
                for o in before:
                    s.do(o)
                snap = s.snap()
                error = None
                plain, s.draws = s.draws, faults.Draws(s.draws)
                with faults.failing(k, kind, case["all"]) as p:
                    try:
                        got = s.do(op)
                    except Timeout:
                        raise
                    except BaseException as e:
                        error = e
                s.draws = plain
                what = "operation %d%s failed with %s at call %d into its environment (%s)" % (
                    op, " after operations %s" % before if before else "", kind.__name__, k, p.where or "of a worker")
                if error is None:
                    if not p.fired:
                        end = True
                    if got != fresh(d, op):
                        fail("operation %d gives %r although %s" % (op, got, what))
                elif not p.fired and not isinstance(error, (pool.WorkerError, concurrent.futures.process.BrokenProcessPool)):
                    raise error
                follow = others if case["all"] else [others[(k + j * 3) % len(others)] for j in range(2 if d > 3 else 3)]
                after(s, d, snap, [11, op] + follow + [11], what, rep)
                rep.state((d, op, k, kind.__name__))
                rep.n("crash_points")
                if k < 1:
                    rep.sample({"data": d, "op": op, "point": what}, 2)
                if end:
                    break
            k += PARTS
    elif case["kind"] == "bad":
        s = session(d)
        snap = s.snap()
        try:
            bad(s, case["call"])
            out = "was carried out"
        except Timeout:
            raise
        except Exception as e:
            out = "failed with %s" % type(e).__name__
            rep.n("refused")
        if case["call"] in (14,):
            s = session(d) if out == "was carried out" else s
        s.last = {} if out == "was carried out" else s.last
        after(s, d, snap, [11, 2, 4, 0, 6, 10, 11], "request %d %s" % (case["call"], out), rep)
        rep.state((d, "bad", case["call"]))
    elif case["kind"] == "pool":
        est, n = case["est"], len(c14.DATA[d][0])
        want = request(session(d), est, disable_multiprocessing=True)
        for task in range(n):
            for how in ("error", "broken"):
                def execute(ch):
                    s = session(d)
                    snap = s.snap()
                    with pool.schedule(ch, memo, 8):
                        pool.FakeExecutor.faulty = (task, how)
                        try:
                            got = s.edges(request(s, est, processes_number=2))
                            if got != s.edges(want):
                                fail("the estimation gives %r although the task of variable %d failed (%s)" % (got, task, how))
                        except (pool.WorkerError, concurrent.futures.process.BrokenProcessPool):
                            rep.n("failed_pools")
                        finally:
                            pool.FakeExecutor.faulty = None
                    return s, snap
                memo = {}
                for taken, (s, snap) in explore(execute, max_executions=40):
                    what = "the task of variable %d failed (%s), schedule %s" % (task, how, taken)
                    if s.snap() != snap:
                        fail("the sample path is not what it was before %s" % what)
                    again = s.edges(request(s, est, disable_multiprocessing=True))
                    if again != s.edges(want):
                        fail("the estimation gives %r after %s instead of %r" % (again, what, s.edges(want)))
                    rep.n("transitions")
                    rep.n("traces")
                    rep.state((d, est, task, how, tuple(taken)))
                after(s, d, snap, [0, 4, 2, 6, 11], what, rep)
    else:
        est = case["est"]
        s = session(d)
        snap, want, me = s.snap(), s.edges(request(session(d), est, disable_multiprocessing=True)), os.getpid()
        name, cls = s.ds["names"][case["at"]], lib.NetworkGraph
        old = cls.fast_init

        def dying(self, node_id):
            if node_id == name and os.getpid() != me:
                os._exit(9)
            return old(self, node_id)
        cls.fast_init = dying
        try:
            got = s.edges(request(s, est, processes_number=2))
            if got != want:
                fail("the estimation gives %r although the process of variable %s died" % (got, name))
        except concurrent.futures.process.BrokenProcessPool:
            rep.n("real_processes_died")
        finally:
            cls.fast_init = old
        after(s, d, snap, [0, 2, 4, 6, 10, 11], "the process of variable %s died" % name, rep)
        rep.state((d, "died", est, name))
