"""C21: export to JSON, import back, and sample from the imported network, for every network of an alphabet."""
import itertools
import json
import os

import numpy as np
import pandas as pd

from mc import lib, ref, rnd, sampling
from mc.core import fail
from mc.explore import Chooser, Stats, explore

ID = "C21"
RULE = ("a trace is one round trip (network -> file -> importer -> sample path and trajectory generator) in which file, imported data and "
        "samples drawn under the same draws from both networks are compared; a state is a distinct (variable, configuration, matrix) or "
        "trajectory read back")
BOUNDS = {"quick": "every graph of 1-3 variables, mixed cardinalities 2-4 (12 in chosen ones), chosen graphs of 4-5 variables with up to 4 "
                   "parents; up to 12 variables, 6 parents and 30 states in chosen ones; edges listed in 3 orders; 11 sets of labels, up to 70 characters; matrices generated by the library or prescribed (real or integer); "
                   "1-3 trajectories; the file as exported and 5 equivalent rewritings of it; samples of 4 changes with at most 2 "
                   "non-default draws",
          "thorough": "all 6 edge orders / rewritings for every graph, samples with at most 3 non-default draws, all graphs of 4 variables"}
ASSUMPTIONS = ["labels contain no comma", "a file has at least one trajectory", "reading the file directly: keys name=state joined by commas, rows {column: value}"]
LABELS = [["b", "A", "10", "z z", "c"], ["X", "X1", "XX", "1X", "11"], ["V0", "V1", "V2", "V3", "V4"], ["a=1", "a", "b=2", "=", "c"],
          ["é", "ß", "\u6f22", "n", "o"], ["Name", "Value", "From", "To", "index"], ["P", "Q", "PQ", "QP", "P Q"],
          ["a", "A", "B", "b", "aB"], ["1", "01", "1.0", " 1", "1 "], ["None", "nan", "true", "null", "x'\"y"],
          ["the first of the variables of this network", "the second of the variables of this network", "the third", "=" * 70, "1" * 70]]
MANY = ["V%d" % i for i in range(12)]
REWRITE = ["as exported", "parents reversed", "configurations reversed", "edges reversed", "other column names", "fields reversed"]


def cases(tier):
    big = tier == "thorough"
    nets = [((c,), []) for c in (2, 3, 12)]
    for cards in ((2, 3), (3, 2), (11, 2), (2, 12)):
        nets += [(cards, e) for e in ref.subsets([(0, 1), (1, 0)])]
    pr = [(a, b) for a in range(3) for b in range(3) if a != b]
    for cards in ((2, 3, 2), (3, 2, 4)):
        nets += [(cards, e) for e in ref.subsets(pr)]
    nets += [((2, 3, 2, 2), [(1, 0), (2, 0), (3, 0)]), ((2, 3, 4, 2), [(3, 1), (2, 1), (0, 1), (1, 0), (1, 2)]),
             ((2, 2, 2, 3, 2), [(4, 0), (2, 0), (3, 0), (1, 0), (0, 4)]), ((2, 12, 11), [(2, 0), (1, 0)]), ((12, 11, 2), [(0, 2), (1, 2), (2, 0)])]
    if big:
        nets += [((2, 3, 2, 2), e) for e in ref.subsets([(a, b) for a in range(4) for b in range(4) if a != b], 0, 6)]
    for k, (cards, e) in enumerate(nets):
        orders = [list(range(len(e)))]
        if len(e) > 1:
            orders += [orders[0][::-1], orders[0][1:] + orders[0][:1]]
        for j, o in enumerate(orders):
            yield {"cards": cards, "edges": e, "order": o, "labels": (k + 3 * j) % len(LABELS), "made": (k + j) % 3,
                   "rewrite": list(range(6)) if big else sorted({0, 1 + (k + j) % 5, 1 + (k + 2 * j + 2) % 5}), "ntr": 1 + (k + j) % 3,
                   "dev": 3 if big else 2 if len(cards) < 3 else 1}
    for cards, e in [((2,) * 7, [(6 - i, 0) for i in range(6)] + [(0, 3)]), ((2, 2, 3, 2, 2, 2), [(i, 2) for i in (5, 0, 4, 1, 3)] + [(2, 5), (1, 0)]),
                     ((2,) * 12, [(i, (i + 1) % 12) for i in range(12)] + [(11, 1), (10, 1), (2, 1)]), ((30, 2), [(1, 0)]), ((2, 30), [(1, 0), (0, 1)])]:
        yield {"cards": cards, "edges": e, "order": list(range(len(e))), "labels": -1, "made": 1, "rewrite": list(range(6)), "ntr": 2, "dev": 1}
    for lab in range(len(LABELS)):
        yield {"cards": (2, 3, 2), "edges": [(2, 0), (1, 0), (0, 1)], "order": [0, 1, 2], "labels": lab, "made": 1, "rewrite": list(range(6)),
               "ntr": 2, "dev": 1}


def rewrite(data, kind, names, edges):
    d = json.loads(json.dumps(data))
    if kind == 1:
        for v in names:
            if any(b == v for a, b in edges):
                d["dyn.cims"][v] = {",".join(k.split(",")[::-1]): m for k, m in d["dyn.cims"][v].items()}
    elif kind == 2:
        d["dyn.cims"] = {v: dict(list(c.items())[::-1]) for v, c in list(d["dyn.cims"].items())[::-1]}
    elif kind == 3:
        d["dyn.str"] = d["dyn.str"][::-1]
    elif kind == 4:
        d["variables"] = [{"Label": x["Name"], "Card": x["Value"]} for x in d["variables"]]
    elif kind == 5:
        d = dict(list(d.items())[::-1])
    return d


def run(case, rep):
    cards = list(case["cards"])
    n = len(cards)
    names = (LABELS[case["labels"]] if case["labels"] >= 0 else MANY)[:n]
    edges = [(names[a], names[b]) for a, b in case["edges"]]
    if case["made"] == 0 and n < 4:
        g = lib.network(list(names), list(cards), edges)
        from mc.checks.c17 import Draws
        from mc.pool import Constant
        with rnd.controlled(Draws(Constant(0))):
            g.generate_cims(1, 9)
        cims, variables, dyn_str = g.cims, g.variables, g.dyn_str
        q = {v: {tuple(int(x) for x in np.ravel(u)): np.array(m.cim) for u, m in zip(cims[v].p_combs, cims[v].actual_cims)}
             for v in names}
    else:
        q = sampling.intensities(names, cards, edges)
        if case["made"] == 2:
            for v in names:
                for u, m in q[v].items():
                    k = np.array([[1 + (x + 2 * y + 3 * sum(u)) % 4 for y in range(len(m))] for x in range(len(m))])
                    np.fill_diagonal(k, 0)
                    np.fill_diagonal(k, -k.sum(axis=1))
                    q[v][u] = k
        cims = lib.generated(names, cards, edges, q)
        variables = pd.DataFrame([[a, c] for a, c in zip(names, cards)], columns=["Name", "Value"])
        dyn_str = lib.edges_frame([edges[i] for i in case["order"]])
    gen = lib.TrajectoryGenerator(variables=variables, dyn_str=dyn_str, dyn_cims=cims)
    trs = []
    for i in range(case["ntr"]):
        f, _ = sampling.play(gen, Chooser([0, 1, 0, 1, 2 % (i + 1)]), (1.0, 0.23, 3.1), max_tr=4 + i)
        trs.append(f)
    before = [f.values.tolist() for f in trs] + [dyn_str.values.tolist(), variables.values.tolist()]
    exp = lib.JsonExporter(variables, dyn_str, cims)
    files = []
    for i, f in enumerate(trs):
        exp.add_trajectory(f)
        if i in (0, len(trs) - 1):
            exp.out_file("Net %d.v1.json" % i)
            files.append((os.path.join(os.getcwd(), "Net %d.v1.json" % i), i + 1))
    if [f.values.tolist() for f in trs] + [dyn_str.values.tolist(), variables.values.tolist()] != before:
        fail("exporting altered the network or the trajectories")
    for path, ntr in files:
        with open(path) as f:
            data = json.load(f)
        if len(data) != 1 or len(data[0]["samples"]) != ntr:
            fail("the file holds %s trajectories instead of %d" % ([len(x["samples"]) for x in data], ntr))
        judge_file(rep, data[0], names, cards, edges, q)
    data = data[0]
    for kind in case["rewrite"]:
        what = REWRITE[kind]
        path = os.path.join(os.getcwd(), "in.json")
        with open(path, "w") as f:
            json.dump([rewrite(data, kind, names, edges)], f)
        imp = lib.JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name" if kind != 4 else "Label", "dyn.cims")
        imp.import_data(0)
        vs = [tuple(r) for r in imp.variables.iloc[:, :2].values.tolist()]
        if vs != list(zip(names, cards)):
            fail("the imported variables are %s instead of %s (%s)" % (vs, list(zip(names, cards)), what))
        got = sorted(tuple(r) for r in imp.structure.values.tolist()) if imp.structure is not None and not imp.structure.empty else []
        if got != sorted(edges):
            fail("the imported edges are %s instead of %s (%s)" % (got, sorted(edges), what))
        gen2 = lib.TrajectoryGenerator(importer=imp)
        st = Stats()

        def both(ch):
            a, da = sampling.play(gen, ch, (1.0, 0.23, 3.1), max_tr=4)
            b, db = sampling.play(gen2, Chooser([c for c, _ in ch.trace]), (1.0, 0.23, 3.1), max_tr=4)
            return sampling.rows(a, names), sampling.rows(b, names), da, db
        for taken, (a, b, da, db) in explore(both, deviations=case["dev"] if kind == 0 else 1, stats=st):
            if a != b:
                fail("under the same draws the network gives %s, the imported one %s (%s)" % (a, b, what))
            if [k for k, _, _ in da] != [k for k, _, _ in db] or any(
                    not np.allclose(x or 0, y or 0, rtol=1e-9, atol=1e-9) for (_, x, _), (_, y, _) in zip(da, db)):
                fail("the imported network asks for other draws than the network (%s)" % what)
            rep.n("traces")
            rep.n("transitions", len(a))
            rep.state(repr(b))
        rep.n("beyond_deviation_bound", st.bounded)
        sp = lib.SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        full = [[(t, v) for t, v in sampling.rows(f, names)] for f in trs]
        want = [(d, v0, v1) for d, v0, v1 in ref.intervals({"trajs": full})]
        have = [(float(t), [int(x) for x in r[:n]], [int(x) for x in r[n:]]) for t, r in zip(sp.trajectories.times, sp.trajectories.complete_trajectory)]
        if len(want) != len(have) or any(abs(a[0] - b[0]) > 1e-9 or a[1:] != b[1:] for a, b in zip(want, have)):
            fail("the imported trajectories are not the exported ones (%s)" % what, exported=want, imported=have)
        if sorted(map(tuple, sp.structure.edges)) != sorted(edges):
            fail("the sample path has the edges %s instead of %s" % (sp.structure.edges, edges))
        rep.n("round_trips")
    rep.sample({"cards": cards, "names": names, "edges": edges, "keys": sorted(data["dyn.cims"][names[0]])[:4]}, 2)


def judge_file(rep, d, names, cards, edges, q):
    if [(x["Name"], x["Value"]) for x in d["variables"]] != list(zip(names, cards)):
        fail("the file lists the variables %s instead of %s" % (d["variables"], list(zip(names, cards))))
    if sorted((x["From"], x["To"]) for x in d["dyn.str"]) != sorted(edges):
        fail("the file lists the edges %s instead of %s" % (d["dyn.str"], edges))
    if sorted(d["dyn.cims"]) != sorted(names):
        fail("the file has matrices for %s" % sorted(d["dyn.cims"]))
    for v in names:
        par = sampling.parents(names, edges, v)
        seen = {}
        for key, m in d["dyn.cims"][v].items():
            if par:
                vals = dict((s.rsplit("=", 1)[0], int(s.rsplit("=", 1)[1])) for s in key.split(","))
                if sorted(vals) != sorted(par):
                    fail("a matrix of %s is labelled %s; its parents are %s" % (v, key, par))
                u = tuple(vals[p] for p in par)
            else:
                u = ()
            seen[u] = [[row[str(i)] for i in range(len(row))] for row in m]
        if sorted(seen) != sorted(q[v]):
            fail("the file has matrices of %s for the configurations %s" % (v, sorted(seen)))
        for u in seen:
            if np.shape(seen[u]) != q[v][u].shape or not np.allclose(np.array(seen[u], dtype=float), q[v][u], rtol=1e-12, atol=1e-12):
                fail("the file has the matrix %s for %s given %s=%s instead of %s" % (seen[u], v, par, u, q[v][u].tolist()))
            rep.state((v, u, repr(seen[u])))
            rep.n("matrices")
