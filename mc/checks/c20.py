"""C20: parallel sampling under every order in which the processes' operations on shared objects take effect."""
import itertools

import numpy as np

from mc import pool, procs, ref, sampling
from mc.core import fail
from mc.explore import Chooser, Stats, explore

ID = "C20"
RULE = ("a trace is a series of requests for trajectories under one interleaving of the (really forked) processes' operations on the "
        "shared list; the trajectories returned are matched with the requests and compared with one another (a request may end with "
        "an error only where a process was made to fail); a state is a distinct (requests, schedule prefix)")
BOUNDS = {"quick": "1-4 processes per request, up to 3 successive requests on one or two generators: every interleaving of all "
                   "operations on shared objects (at most 150 schedules of a series; single requests completely); 3 generator seeds; 800 trajectories "
                   "of two requests, and requests of 9 to 17, under the default schedule; series with real processes; each of up to 4 "
                   "processes killed before its first, before its second or after its last operation, under every interleaving (at most 60 "
                   "of a series); processes that raise an error",
          "thorough": "5 processes, every interleaving of two successive requests of 3-4, 8 seeds"}
ASSUMPTIONS = ["an operation on a manager's object is atomic", "two trajectories with the same sequence of times come from the same random stream"]
NETS = [((2, 3), [(0, 1), (1, 0)]), ((3, 2, 2), [(0, 1), (1, 2)])]


def cases(tier):
    big = tier == "thorough"
    for seed in range(8 if big else 3):
        for net in range(2):
            for reqs in ([("max", [8])], [("max", [8, 6])], [("max", [7, 7])], [("max", [9, 7, 8])], [("end", [3.0, 40.0])],
                         [("end", [90.0, 3.0, 30.0])], [("max", [7, 7, 7, 7])], [("max", [])], [("end", [12.0])],
                         [("max", [8]), ("max", [8])], [("max", [7, 8]), ("max", [7, 8])], [("max", [7, 7]), ("max", [9, 6]), ("max", [7])],
                         [("max", [6, 7, 8]), ("max", [8, 7, 6])], [("end", [25.0, 5.0]), ("end", [25.0, 5.0])],
                         [("max", [7, 8]), ("end", [25.0])], [("one", [9]), ("max", [9, 9])],
                         [("end", [5.0, 5.0])], [("end", [2.0, 9.0, 6.0])], [("end", [8.0]), ("end", [8.0]), ("max", [4])], [("max", [3, 4])], [("end", [9.0, 9.0, 40.0])],
                         [("max", [5, 9, 5])], [("end", [30.0, 4.0, 4.0, 30.0])], [("max", [6, 6, 3, 6])]) + \
                    (([("max", [6, 7, 8, 9, 10])],) if big else ()):
                for two in (False, True) if len(reqs) > 1 else (False,):
                    yield {"seed": seed, "net": net, "reqs": reqs, "two": two, "most": 5000 if big else 150}
    for reqs in ([("max", [4] * 9)], [("end", [4.0] * 12)], [("max", [3] * 17), ("max", [3] * 17)]):
        yield {"seed": 1, "net": 1, "reqs": reqs, "two": False, "most": 40 if big else 15}
    yield {"seed": 0, "net": 0, "reqs": [("max", [6] * 400), ("end", [40.0] * 400)], "two": False, "most": 1}
    for net in range(2):
        for reqs in ([("max", [6])], [("max", [6, 8])], [("max", [6, 8, 7])], [("end", [25.0, 30.0])], [("end", [25.0, 30.0, 35.0])],
                     [("max", [7, 6]), ("max", [6, 7])], [("max", [6, 6]), ("end", [25.0, 30.0])], [("max", [6, 7, 8, 9])]) + \
                ((([("max", [6, 7, 8, 9, 7])],)) if big else ()):
            for at in range(len(reqs[0][1])):
                for n in range(3):
                    yield {"seed": at, "net": net, "reqs": reqs, "two": False, "most": 3000 if big else 60, "killed": [at, n]}
    for net in range(2):
        for bad in ([5.0, "x"], ["x"], ["x", 5.0, 7.0], [5.0, None, 6.0]):
            for real in (False, True):
                yield {"seed": net, "net": net, "reqs": [("end", bad), ("max", [6, 7])], "two": False, "most": 60, "refused": True, "real": real}
    for seed in range(2):
        yield {"seed": seed, "net": seed, "reqs": [("max", [8, 7, 7]), ("max", [7, 8]), ("end", [20.0, 4.0])], "two": False, "real": True}


def same(a, b):
    n = min(len(a), len(b))
    return n >= 3 and [t for t, _ in a[:n]] == [t for t, _ in b[:n]]


def run(case, rep):
    cards, edges = NETS[case["net"]]
    net = sampling.Net(cards, edges)
    names = net.names

    def execute(ch):
        gens = [net.generator(), net.generator()]
        np.random.seed(1000 + case["seed"])
        out = []
        for i, (kind, wanted) in enumerate(case["reqs"]):
            g = gens[i % 2 if case["two"] else 0]
            arg = list(wanted)
            if kind == "one":
                res = [g.CTBN_Sample(max_tr=wanted[0])]
            else:
                try:
                    res = g.multi_trajectory(**{"max_trs" if kind == "max" else "t_ends": arg})
                except Exception:
                    # only the first request has a process that fails
                    if i or not (case.get("killed") or case.get("refused")):
                        raise
                    rep.n("failed_requests")
                    out.append(None)
                    continue
            if arg != list(wanted):
                fail("the list of requests was changed")
            out.append([res[k] for k in range(len(res))])
        return out

    def judge(out, what):
        every = []
        for (kind, wanted), res in zip(case["reqs"], out):
            if res is None:
                continue
            if len(res) != len(wanted):
                fail("%d trajectories are returned for the request %s %s (%s)" % (len(res), kind, wanted, what))
            trs = [sampling.rows(f, names) for f in res]
            for tr in trs:
                sampling.well_formed(names, net.cards, tr, " (%s)" % what)
            if kind == "end":
                got = sorted(tr[-1][0] for tr in trs)
                if any(not max(0, w - 20) <= g <= w + 5.1e-5 for g, w in zip(got, sorted(wanted))):
                    fail("the trajectories requested for %s end at %s (%s)" % (wanted, got, what))
            elif sorted(len(tr) - 1 for tr in trs) != sorted(wanted):
                fail("the trajectories requested for %s changes have %s (%s)" % (wanted, sorted(len(tr) - 1 for tr in trs), what))
            every += trs
        if len(every) > 50:
            first = {}
            for i, a in enumerate(every):
                key = tuple(t for t, _ in a[:6])
                if len(key) > 4 and key in first:
                    fail("trajectories %d and %d of %d are sampled with the same random stream (%s)" % (first[key], i, len(every), what))
                first.setdefault(key, i)
            every = []
        for i, a in enumerate(every):
            for j, b in enumerate(every[:i]):
                if same(a, b):
                    fail("trajectories %d and %d of the requests %s are sampled with the same random stream (%s)" % (
                        j, i, case["reqs"], what), times=[t for t, _ in a])
        rep.n("traces")
        rep.n("trajectories", len(every))
    if case.get("real"):
        judge(execute(None), "real processes")
        rep.n("real_process_runs")
        rep.n("transitions", 1)
        rep.state(repr(case))
        return
    st = Stats()
    memo = pool.NoMemo()

    def controlled(ch):
        with procs.world(ch) as w, pool.schedule(ch, memo, 4):
            w.faulty = tuple(case["killed"]) if case.get("killed") else None
            out = execute(ch)
            return out, w.started, list(w.log)
    for taken, (out, started, log) in explore(controlled, stats=st, max_executions=case["most"]):
        judge(out, "schedule %s" % taken)
        rep.n("processes", started)
        rep.n("transitions", len(log))
        for i in range(len(taken) + 1):
            rep.state((repr(case["reqs"]), case["net"], case["two"], tuple(taken[:i])))
        rep.state((repr(case["reqs"]), tuple(log)), "operation_orders")
        if not started:
            rep.n("runs_without_processes")
    rep.n("diverged", st.diverged)
    rep.n("schedules_beyond_bound", st.bounded)
    rep.sample({"reqs": case["reqs"], "schedules": st.executions, "operations": log[:12]}, 2)
