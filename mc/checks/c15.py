"""C15: for every graph that can be the result, all outputs must describe it."""
import itertools
import json
import os

import networkx as nx
import numpy as np
from networkx.readwrite import json_graph

from mc import lib, pool, ref
from mc.core import fail
from mc.explore import Chooser

ID = "C15"
RULE = ("a trace is one estimation steered to a given graph (by an oracle answering the independence queries, or by known edges and no "
        "moves), whose returned edges, adjacency matrix, saved JSON and spurious edges are compared with that graph; a state is a "
        "distinct (graph, prior network, estimator)")
BOUNDS = {"quick": "1-3 variables: every graph with every prior network (and none); 4 variables: every graph with 2 prior networks; 5, 6 and 8 "
                   "variables: 10 graphs with up to 11 prior networks; 10 and 13 variables: 4 sparse ones; labels beyond ASCII; every "
                   "estimation followed by another one on the same estimator; serial, and parallel under a controlled pool",
          "thorough": "5 variables: every graph of at most 5 edges; 4 variables: 12 prior networks"}
ASSUMPTIONS = ["node-link JSON is read back with networkx"]


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def cases(tier):
    big = tier == "thorough"
    yield {"n": 1, "target": [], "prior": None}
    for n in (2, 3):
        for t in ref.subsets(pairs(n)):
            for p in [None] + list(ref.subsets(pairs(n))):
                yield {"n": n, "target": t, "prior": p}
    pr4 = [None, [(0, 1), (1, 2), (2, 3), (3, 0)]] + ([pairs(4)] if big else [])
    if big:
        pr4 += [[p] for p in pairs(4)[::2]] + [pairs(4)[::2], pairs(4)[1::2], pairs(4)[:7]]
    for t in ref.subsets(pairs(4)):
        for p in pr4:
            yield {"n": 4, "target": t, "prior": p}
    for n in (5, 6, 8):        # more variables: empty, full and regular graphs with small and large prior networks
        full = pairs(n)
        some = [[], full, full[::2], full[1::2], [(i, (i + 1) % n) for i in range(n)], [(i, j) for i, j in full if i < j],
                [(i, j) for i, j in full if j == n - 1], [(i, j) for i, j in full if i == n - 1], full[:-1], full[-3:]]
        for t in some:
            for p in [None] + some:
                if n < 8 or len(t) < 15 and (p is None or p in some[1:4]):
                    yield {"n": n, "target": t, "prior": p}
    for n in (10, 13):
        full = pairs(n)
        some = [[(i, (i + 1) % n) for i in range(n)], [(i, j) for i, j in full if j == n - 1], full[5::7], [(i, i - 1) for i in range(1, n)]]
        for t in some:
            for p in (None, some[0], full[::3], some[3] + some[0]):
                yield {"n": n, "target": t, "prior": p}
    if big:
        for t in ref.subsets(pairs(5), 0, 5):
            yield {"n": 5, "target": t, "prior": [(0, 1), (1, 0), (4, 2)]}


class Steered(lib.StructureConstraintBasedEstimator):
    target = frozenset()

    def complete_test(self, test_parent, test_child, parent_set, *a, **k):
        return (str(test_parent), str(test_child)) not in self.target


_DS = {}


def data(n):
    if n not in _DS:
        names = ["zeta", "Alpha", "m \u00e9", "10", "b\"'", "\u6f22\u5b57", "V1", "V10", "V9", "a", "V2", "Z", " b"][:n]
        _DS[n] = ref.walk(([2, 3] + [2] * 11)[:n], names, length=6) if n > 1 else ref.walk([2], names, length=4)
    return _DS[n]


def outputs(rep, est, returned, names, target, prior, what):
    got = [(str(a), str(b)) for a, b in returned]
    if sorted(got) != sorted(target):
        fail("the returned edges are %s instead of %s (%s)" % (sorted(got), sorted(target), what))
    a = np.asarray(est.adjacency_matrix())
    if a.shape != (len(names), len(names)):
        fail("the adjacency matrix has shape %s for %d variables (%s)" % (a.shape, len(names), what))
    adj = sorted((names[i], names[j]) for i in range(len(names)) for j in range(len(names)) if a[i][j])
    if adj != sorted(target):
        fail("the adjacency matrix shows %s instead of %s (%s)" % (adj, sorted(target), what))
    path = os.path.join(os.getcwd(), "result.json")
    est.save_results(path)
    with open(path) as f:
        g = json_graph.node_link_graph(json.load(f))
    if not g.is_directed() or sorted(map(str, g.nodes)) != sorted(names):
        fail("the saved graph has the nodes %s instead of %s (%s)" % (sorted(g.nodes), sorted(names), what))
    if sorted((str(x), str(y)) for x, y in g.edges()) != sorted(target):
        fail("the saved graph has the edges %s instead of %s (%s)" % (sorted(g.edges()), sorted(target), what))
    spur = sorted((str(x), str(y)) for x, y in est.spurious_edges())
    exp = sorted(e for e in target if e not in prior) if prior else []
    if spur != exp:
        fail("the spurious edges are %s instead of %s (prior %s, %s)" % (spur, exp, prior, what))
    rep.n("traces")
    rep.n("transitions", 4)


def run(case, rep):
    n = case["n"]
    ds = data(n)
    names = ds["names"]
    nm = lambda es: [(names[a], names[b]) for a, b in es]
    target = nm(case["target"])
    prior = nm(case["prior"]) if case["prior"] is not None else []
    other = [e for e in nm(pairs(n)) if e not in target]
    if case["prior"] == [] :      # an empty frame, not no frame
        imp = lib.SampleImporter(trajectory_list=lib.frames(ds), variables=lib.variables_frame(ds), prior_net_structure=lib.edges_frame([]))
        imp.import_data()
        sp = lib.SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
    else:
        sp = lib.sample_path(ds, prior, via="json" if len(target) % 3 == 0 else "sample")
    est = Steered(sp, 0.1, 0.1)
    for t, what in ((target, "constraint-based"), (other, "constraint-based, second run"), (target, "constraint-based, third run")):
        est.target = frozenset(t)
        if what.endswith("second run") and n < 4:
            with pool.schedule(Chooser(), {}, 2):
                ret = est.estimate_structure()
        else:
            ret = est.estimate_structure(disable_multiprocessing=True)
        outputs(rep, est, ret, names, t, prior, what)
    for opt, mp in (("hill", None), ("tabu", None)):
        sc = lib.StructureScoreBasedEstimator(sp, known_edges=target)
        ret = sc.estimate_structure(iterations_number=0, max_parents=mp, optimizer=opt, disable_multiprocessing=True)
        outputs(rep, sc, ret, names, target, prior, "score-based, " + opt)
    rep.state((n, tuple(target), tuple(prior)))
    rep.sample({"target": target, "prior": prior}, 1)
