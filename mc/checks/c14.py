"""C14: every session of estimations on one sample path against each estimation on freshly imported data."""
import itertools
import json
import random

import numpy as np

from mc import lib, pool, ref, rnd
from mc.core import fail
from mc.explore import Chooser

ID = "C14"
RULE = ("a trace is one session (sequence of estimations, queries and statistics on one sample path, with estimators made at its start, "
        "reused, or new) in which every result is compared with that of a fresh import and a fresh estimator, and the sample path "
        "with what it was before; a state is a distinct (data set, operations so far)")
BOUNDS = {"quick": "3 variables, 4 data sets (with and without prior edges): every session of 3 out of 12 operations; 3 data sets of 4 "
                   "variables, one on which the rule of thumb decides, and one each of 5 and 6 variables: every session of 2",
          "thorough": "every session of 4 on 2 data sets, 4-variable data sets with sessions of 3"}
ASSUMPTIONS = ["random draws of each estimation are made equal by constant draws"]

DATA = [((2, 2, 2), [(0, 1), (1, 2)], 0), ((2, 3, 2), [(2, 0)], 1), ((3, 2, 2), [], 2), ((2, 2, 3), [(0, 1), (2, 1), (1, 0)], 1),
        ((2, 2, 2, 2), [(0, 1), (3, 2)], 0), ((2, 3, 2, 2), [(1, 0)], 2), ((2, 2, 2, 3), [(0, 3)], 1),
        ((2, 2, 3, 2, 2), [(0, 1), (4, 2)], 1), ((2, 2, 2, 2, 2, 2), [(5, 0)], 0)]
NOPS = 12


def cases(tier):
    big = tier == "thorough"
    for d in list(range(9)) if big else [6, 8, 7, 4, 5, 0, 1, 2, 3]:
        for first in range(NOPS):
            for second in range(NOPS):
                yield {"data": d, "first": [first, second], "depth": 4 if big and d in (0, 1) else 2 if d > 3 and (d > 6 or not big) else 3}


class Session(object):
    def __init__(self, ds, prior, draw):
        self.ds, self.draw = ds, draw
        self.draws = pool.Constant(draw)
        n = ds["names"]
        self.prior = [(n[a], n[b]) for a, b in prior]
        self.sp = lib.sample_path(ds, self.prior)
        self.ct = lib.StructureConstraintBasedEstimator(self.sp, 0.1, 0.1, known_edges=[(n[0], n[2])], thumb_threshold=4)
        self.sc = lib.StructureScoreBasedEstimator(self.sp, known_edges=[(n[1], n[2])])
        self.last = {}

    def snap(self):
        s, t = self.sp.structure, self.sp.trajectories
        return (tuple(map(str, s.nodes_labels)), tuple(map(int, s.nodes_indexes)), tuple(map(int, s.nodes_values)),
                tuple(sorted(tuple(map(str, e)) for e in s.edges)), int(s.total_variables_number), self.sp.total_variables_count,
                bool(self.sp.has_prior_net_structure), t.times.tobytes(), t.complete_trajectory.tobytes(),
                t.trajectory.tobytes(), t.size())

    def edges(self, es):
        return tuple(sorted((str(a), str(b)) for a, b in es))

    def do(self, op):
        n, sp = self.ds["names"], self.sp
        CT, SC = lib.StructureConstraintBasedEstimator, lib.StructureScoreBasedEstimator
        ser = {"disable_multiprocessing": True}
        if op == 0:
            return self.edges(CT(sp, 0.1, 0.1, thumb_threshold=0).estimate_structure(**ser))
        if op == 1:
            return self.edges(CT(sp, 0.3, 0.1, known_edges=[(n[1], n[0])]).estimate_structure(**ser))
        if op == 2:
            self.last["ct"] = self.edges(self.ct.estimate_structure(**ser))
            return self.last["ct"]
        if op == 3:
            with rnd.controlled(rnd.Control(self.draws)):
                return self.edges(SC(sp).estimate_structure(iterations_number=7, optimizer="hill", **ser))
        if op == 4:
            with rnd.controlled(rnd.Control(self.draws)):
                self.last["sc"] = self.edges(self.sc.estimate_structure(max_parents=1, iterations_number=7, patience=3, optimizer="hill", **ser))
            return self.last["sc"]
        if op == 5:
            with rnd.controlled(rnd.Control(self.draws)):
                self.last["sc"] = self.edges(self.sc.estimate_structure(iterations_number=7, tabu_length=2, tabu_rules_duration=2,
                                                                        optimizer="tabu", **ser))
            return self.last["sc"]
        if op == 6:
            with rnd.controlled(rnd.Control(self.draws)):
                return self.edges(SC(sp, known_edges=[(n[2], n[1])]).estimate_structure(max_parents=2, iterations_number=6,
                                                                                       optimizer="tabu", tabu_length=1,
                                                                                       tabu_rules_duration=1, **ser))
        if op == 7:
            with pool.schedule(Chooser(), {}, 8):
                self.last["ct"] = self.edges(self.ct.estimate_structure(processes_number=2))
            return self.last["ct"]
        if op == 8:
            out = []
            new = CT(sp, 0.1, 0.1, thumb_threshold=0)
            for e, p, c, sep in [(self.ct,) + q for q in ((1, 0, []), (2, 0, [1]), (0, 1, [2]), (1, 2, []))] + [(new,) + q for q in (
                    ((3, 0, [1, 2]), (1, 3, [0, 2]), (0, 2, [1, 3]), (3, 1, [0])) if len(n) >= 4 else ())]:
                out.append(bool(e.complete_test(n[p], n[c], [n[x] for x in sep], self.ds["cards"][c], len(n), p, c)))
            return tuple(out)
        if op == 9:
            out = []
            for c in range(len(n)):
                g = lib.NetworkGraph(lib.structure(self.ds, [(n[(c + 1) % len(n)], n[c])]))
                out.append(round(float(self.sc.get_score_from_graph(g, n[c])), 7))
            return tuple(out)
        if op == 10:      # statistics of the prior network on the sample path itself
            out = []
            for c in n:
                s = lib.estimate(sp, sp.structure, c)
                for u, T, M, _ in lib.tables(s):
                    out.append((c, u, tuple(round(x, 7) for x in T), tuple(map(tuple, M))))
            return tuple(sorted(out))
        if op == 11:      # outputs of the two long-lived estimators, after the runs they have had
            out = []
            for k, e in (("ct", self.ct), ("sc", self.sc)):
                if k in self.last:
                    a = e.adjacency_matrix()
                    got = tuple(sorted((n[i], n[j]) for i in range(len(n)) for j in range(len(n)) if a[i][j]))
                    if got != self.last[k]:
                        fail("the adjacency matrix of the %s estimator shows %s; its last estimation gave %s" % (k, got, self.last[k]))
                    sp_e = self.edges(e.spurious_edges())
                    exp = tuple(x for x in self.last[k] if x not in self.prior) if self.prior else ()
                    if sp_e != exp:
                        fail("the spurious edges are %s instead of %s" % (sp_e, exp))
            return ()


def scarce(names):
    """The last variable hurries with the third, which the second copies; the first is rarely away from 0, so that given it the
    rule of thumb freezes an edge (second -> last) that another set shows to be spurious."""
    t = []
    for a, p, b in itertools.product((0, 1), repeat=3):
        for x, y in itertools.permutations(range(3), 2):
            m = 2 if a else 20 if p == b else 6
            t.append(([a, p, b, x], y, m, m * (0.1 if a else 1) * (0.2 if b else 1)))
    return ref.table_ds([2, 2, 2, 3], 3, t, names)


_FRESH = {}


def run(case, rep):
    cards, prior, draw = DATA[case["data"]]
    names = ["D", "A", "C", "B", "F", "E"][:len(cards)]
    ds = scarce(names) if case["data"] == 6 else ref.coupled(list(cards), 110, seed=3 + case["data"], names=names, cut=(25,))
    for op in range(NOPS):
        if (case["data"], op) not in _FRESH:
            _FRESH[case["data"], op] = Session(ds, prior, draw).do(op)
    rep.sample({"data": case["data"], "first": case["first"], "results": [repr(_FRESH[case["data"], o])[:80] for o in case["first"]]}, 2)
    for rest in itertools.product(range(NOPS), repeat=case["depth"] - 2):
        ops = tuple(case["first"]) + rest
        s = Session(ds, prior, draw)
        snap = s.snap()
        for i, op in enumerate(ops):
            got = s.do(op)
            rep.n("transitions")
            if got != _FRESH[case["data"], op]:
                fail("operation %d gives %r after operations %s; on fresh data it gives %r" % (op, got, ops[:i], _FRESH[case["data"], op]),
                     data=case["data"])
            if s.snap() != snap:
                fail("operation %d alters the sample path after operations %s" % (op, ops[:i]),
                     changed=[i for i, (a, b) in enumerate(zip(snap, s.snap())) if a != b])
            rep.state((case["data"], ops[:i + 1]))
        rep.n("traces")
