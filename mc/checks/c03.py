"""C03: import fidelity, for every presentation of small data sets and every import history."""
import copy
import itertools
import json
import os

import numpy as np
import pandas as pd

from mc import lib, ref
from mc.core import fail

ID = "C03"
RULE = ("a trace is one import (or history of imports of one JSON file): trajectories of every shape up to the bound, "
        "under every combination of labels, time name, importer, frame index, dtype and offset; the imported rows are compared "
        "with the intervals of the input; a state is a distinct imported table")
BOUNDS = {"quick": "all row sequences of 2 variables (2,3) in shapes up to (3) and (2,2) rows; 9 label pairs x 4 time names x 3 "
                   "importers x 6 frame indexes; chosen 3-trajectory sets; 4 to 26 trajectories, "
                   "in all orders of two sets of 4 lengths; 9 sets of 3 or 4 related labels in all orders; up to 200 rows with runs of equal times, repeated trajectories; the time at all 64 combinations of places in the JSON records of 3 trajectories; all histories of up to 3 imports of a 3-data-set file; 10 "
                   "largest states up to 65537 and 28 pairs of time offset and unit, per importer",
          "thorough": "shapes up to (4) and (3,2); histories of up to 4 imports"}
ASSUMPTIONS = ["the first column of a trajectory frame is the time; every trajectory has the same columns"]

LABELS = [("A", "B"), ("B", "A"), ("X", "X1"), ("X1", "X"), ("A", "AS"), ("AS", "A"), ("S", "SS"), ("t", "Time2"), ("1", "10"),
          ("a b", "é"), ("XS", "X"), ("self", "columns"), ("index", "diff")]
LABELS3 = [("A", "AS", "ASS"), ("X", "X1", "X11"), ("S", "SS", "SSS"), ("10", "1", "2"), ("AS", "ASSSS", "SA"), ("a", "A", "aS"),
           ("A", "AS", "ASS", "ASSS"), ("0", "00", "01"), ("Name", "Value", "From")]
TIMES = ["Time", "t0", "timestamp", "0", "TimeS"]
INDEXES = ["default", "offset", "duplicate", "reversed", "string", "float"]


def reindex(df, kind):
    n = len(df)
    if kind == "offset":
        df.index = range(7, 7 + n)
    elif kind == "duplicate":
        df.index = [0] * n
    elif kind == "reversed":
        df.index = list(range(n))[::-1]
    elif kind == "string":
        df.index = ["r%d" % (i // 2) for i in range(n)]
    elif kind == "float":
        df.index = [i / 2.0 for i in range(n)]
    return df


def seqs(cards, shape):
    joint = ref.configs(cards)
    pools = [[list(h) + [l] for h in itertools.product(joint, repeat=k - 1) for l in joint[-2:] + [tuple([-1] * len(cards))]]
             for k in shape]
    return itertools.product(*pools)


RICH = [[[(0, 0), (1, 0), (1, 2), (-1, -1)], [(1, 1), (-1, -1)], [(0, 2), (0, 1), (1, 1)]],
        [[(1, 2), (0, 2)], [(0, 0)], [(0, 0), (0, 0), (0, 1), (-1, -1)]],
        [[(1, 2)], [(0, 0), (0, 0)], [(0, 0), (0, 0), (0, 1), (-1, -1)]],
        [[(0, 0), (1, 1), (-1, -1)]]]


def cases(tier):
    big = tier == "thorough"
    for rows in RICH:
        for lab in LABELS:
            for tm in TIMES:
                if tm in lab:
                    continue
                for via in ("sample", "frame", "json"):
                    for ix in (INDEXES if via != "json" else ["default"]):
                        for off in (0.0, 3.25):
                            yield {"kind": "one", "rows": rows, "labels": lab, "time": tm, "via": via, "index": ix, "off": off}
    for n, cards in ((1, [3]), (3, [2, 12, 3]), (4, [2, 2, 2, 2])):
        for via in ("sample", "frame", "json"):
            for cols in ("header", "list", "array", "plain"):
                yield {"kind": "wide", "cards": cards, "via": via, "cols": cols}
    for shape in [(1, 2), (2,), (3,), (2, 2), (2, 1)] + ([(4,), (3, 2)] if big else []):
        for i, rows in enumerate(seqs((2, 3), shape)):
            yield {"kind": "one", "rows": rows, "labels": LABELS[i % len(LABELS)], "time": "Time" + "x" * (i % 2),
                   "via": ("sample", "json", "frame")[i % 3], "index": INDEXES[i % 6] if i % 3 != 1 else "default",
                   "off": 1.5 * (i % 2)}
    for k in (1, 2, 3) + ((4,) if big else ()):
        for h in itertools.product(range(3), repeat=k):
            yield {"kind": "history", "seq": h}
    for dt in ("int", "float", "int8", "object"):
        for tt in ("int", "float"):
            for via in ("sample", "frame"):
                yield {"kind": "dtype", "dtype": dt, "tdtype": tt, "via": via}
    for via in ("sample", "frame", "json"):
        for top in (127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65537):
            for more in (0, 7, 20):
                yield {"kind": "states", "via": via, "top": top, "more": more}
        for off in (-1000.5, 1e4, 1e6 + 0.5, 2.0 ** 25, 1e9, -2.0 ** 31, 2.0 ** 40):
            for unit in (2.0 ** -10, 2.0 ** -4, 1.0, 86400.0):
                yield {"kind": "times", "via": via, "off": off, "unit": unit}
    for perm in itertools.permutations(range(3)):
        yield {"kind": "columns", "perm": perm}
    # the time anywhere among the members of the JSON records, in each trajectory on its own
    for places in itertools.product(range(4), repeat=3):
        for tm in ("Time", "A"):
            yield {"kind": "place", "places": places, "time": tm}
    # more trajectories than the small shapes have, of every order of lengths
    for via in ("sample", "frame", "json"):
        for lens in [p for b in ((1, 2, 3, 4), (2, 2, 5, 3)) for p in sorted(set(itertools.permutations(b)))] + \
                [(5, 1, 4, 2, 6), (2, 6, 3, 5, 1, 4), (7, 2, 2, 2, 2, 2, 3), (1, 1, 9, 1, 1), tuple(range(2, 14)), (3,) * 26,
                 tuple(range(12, 1, -1))]:
            if via != "frame" or len(lens) < 5:
                yield {"kind": "lengths", "via": via, "lens": lens}
    # runs of equal times, and trajectories that occur several times
    for via in ("sample", "frame", "json"):
        for n in (3, 12, 17, 40, 200):
            for run in (1, 2, 3, n):
                for copies in (1, 2, 3):
                    yield {"kind": "ties", "via": via, "rows": n, "run": run, "copies": copies}
    # labels that differ by suffixes or prefixes, in every order
    for lab in LABELS3:
        for perm in itertools.permutations(range(len(lab))):
            for via in ("sample", "frame", "json"):
                yield {"kind": "labels", "via": via, "labels": [lab[i] for i in perm]}


def expected(ds):
    return [[d] + v0 + v1 for d, v0, v1 in ref.intervals(ds)]


def check_rows(imp, ds, what, rep):
    got = [list(map(float, r)) for r in imp.concatenated_samples.to_numpy().tolist()]
    exp = [list(map(float, r)) for r in expected(ds)]
    if len(got) != len(exp):
        fail("%d intervals imported instead of %d%s" % (len(got), len(exp), what), got=got, expected=exp)
    for g, e in zip(got, exp):
        if len(g) != len(e) or any(not ref.close(a, b) for a, b in zip(g, e)):
            fail("imported interval %r instead of %r%s" % (g, e, what), got=got, expected=exp)
    if list(imp.sorter) != ds["names"]:
        fail("variables %r instead of %r%s" % (list(imp.sorter), ds["names"], what))
    rep.n("transitions", len(exp))
    rep.n("traces")
    rep.state(repr((ds["names"], exp)))


def rows_ds(rows, names, cards, off):
    trajs, k = [], 0
    for tr in rows:
        t, out = off, []
        for r in tr:
            out.append((t, list(r)))
            t += 0.25 * (1 + (k * 5) % 11) + k
            k += 1
        trajs.append(out)
    return {"names": list(names), "cards": list(cards), "trajs": trajs}


def write(data):
    path = os.path.join(os.getcwd(), "c03.json")
    with open(path, "w") as f:
        json.dump(data, f)
    return path


def check_vars(imp, ds, edges, what):
    v = [[str(a), int(b)] for a, b in imp.variables.to_numpy().tolist()]
    if v != [[n, c] for n, c in zip(ds["names"], ds["cards"])]:
        fail("variables imported as %r%s" % (v, what))
    st = imp.structure
    e = [] if st is None or st.empty else [tuple(x) for x in st.to_numpy().tolist()]
    if e != [tuple(x) for x in edges]:
        fail("edges imported as %r instead of %r%s" % (e, edges, what))


def run(case, rep):
    k = case["kind"]
    if k == "one":
        ds = rows_ds(case["rows"], case["labels"], (2, 3), case["off"])
        if not ref.intervals(ds):
            return
        edges = [tuple(ds["names"])]
        if case["via"] == "json":
            path = write([lib.to_json(ds, edges, case["time"])])
            imp = lib.JsonImporter(path, "samples", "dyn.str", "variables", case["time"], "Name")
            imp.import_data(0)
        else:
            fr = [reindex(f, case["index"]) for f in lib.frames(ds, case["time"])]
            var, st = lib.variables_frame(ds), lib.edges_frame(edges)
            keep = copy.deepcopy((fr, var, st))
            if case["via"] == "sample":
                imp = lib.SampleImporter(trajectory_list=fr, variables=var, prior_net_structure=st)
            else:
                imp = lib.FrameImporter(fr, var, st)
            imp.import_data()
            check_rows(imp, ds, "", rep)
            for a, b in zip(keep[0] + list(keep[1:]), fr + [var, st]):
                if not a.equals(b) or list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
                    fail("importing modified the caller's data", before=a.to_dict("list"), after=b.to_dict("list"))
            imp.import_data()
            check_rows(imp, ds, " (imported a second time)", rep)
            sp = lib.SamplePath(imp)
            sp.build_trajectories()
            sp.build_structure()
            for a, b in zip(keep[0] + list(keep[1:]), fr + [var, st]):
                if not a.equals(b):
                    fail("building the sample path modified the caller's data")
        rep.sample({x: case[x] for x in ("labels", "time", "via", "index")}, 1)
        if case["via"] == "json":
            check_rows(imp, ds, "", rep)
            check_vars(imp, ds, edges, "")
        else:
            check_vars(imp, ds, edges, "")
    elif k == "wide":
        cards = case["cards"]
        ds = ref.covering(cards, ["V%d" % (9 + i) for i in range(len(cards))])
        edges = []
        if case["via"] == "json":
            imp = lib.JsonImporter(write(lib.to_json(ds, edges)), "samples", "dyn.str", "variables", "Time", "Name")
            imp.import_data()
        else:
            var = lib.variables_frame(ds)
            st = None
            if case["cols"] == "list":
                var = [[n, c] for n, c in zip(ds["names"], ds["cards"])]
                edges = [(ds["names"][0], ds["names"][-1])]
                st = [list(e) for e in edges]
            elif case["cols"] == "array":
                var = np.array([[n, c] for n, c in zip(ds["names"], ds["cards"])], dtype=object)
                edges = [(ds["names"][-1], ds["names"][0])]
                st = np.array([list(e) for e in edges], dtype=object)
            elif case["via"] == "frame":
                pass
            if case["via"] == "sample" or case["cols"] in ("header", "plain"):
                if case["via"] == "sample":
                    imp = lib.SampleImporter(trajectory_list=lib.frames(ds), variables=var, prior_net_structure=st)
                    imp.import_data(list(ds["names"])) if case["cols"] == "header" else imp.import_data()
                else:
                    imp = lib.FrameImporter(lib.frames(ds), var, st)
                    imp.import_data()
            else:
                return
        check_rows(imp, ds, "", rep)
        check_vars(imp, ds, edges, "")
    elif k == "history":
        dss = [rows_ds(RICH[0], ("A", "B"), (2, 3), 0.0), rows_ds(RICH[1], ("B", "AS"), (2, 3), 2.0),
               rows_ds([[(1,) * 3, (0, 1, 0)]], ("B", "A", "C"), (2, 3, 2), 1.0)]
        edges = [[("A", "B")], [], [("C", "A"), ("A", "B")]]
        path = write([lib.to_json(d, e) for d, e in zip(dss, edges)])
        imp = lib.JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name")
        for j, i in enumerate(case["seq"]):
            imp.import_data(i)
            what = " (data set %d after importing %r)" % (i, case["seq"][:j])
            check_rows(imp, dss[i], what, rep)
            check_vars(imp, dss[i], edges[i], what)
            if imp.dataset_id() != i:
                fail("dataset_id is %r instead of %d" % (imp.dataset_id(), i))
            if (j + i) % 2:
                sp = lib.SamplePath(imp)
                sp.build_trajectories()
                sp.build_structure()
                if sp.trajectories.size() != len(expected(dss[i])):
                    fail("the sample path holds %d intervals instead of %d%s" % (
                        sp.trajectories.size(), len(expected(dss[i])), what))
    elif k == "dtype":
        ds = rows_ds(RICH[0], ("A", "B"), (2, 3), 0.0)
        if case["tdtype"] == "int":
            ds["trajs"] = [[(int(4 * t), v) for t, v in tr] for tr in ds["trajs"]]
        fr = lib.frames(ds)
        for f in fr:
            for n in ds["names"]:
                f[n] = f[n].astype(case["dtype"])
        cls = lib.SampleImporter if case["via"] == "sample" else None
        imp = cls(trajectory_list=fr, variables=lib.variables_frame(ds)) if cls else lib.FrameImporter(fr, lib.variables_frame(ds))
        imp.import_data()
        check_rows(imp, ds, "", rep)
    elif k in ("lengths", "labels", "ties"):
        if k == "ties":
            joint = ref.configs([2, 3])
            tr = [(1.5 * (i // case["run"]), list(joint[(i * i + 3 * i) % 6 if i % 4 else (i * 5) % 6])) for i in range(case["rows"])]
            ds = {"names": ["A", "B"], "cards": [2, 3], "trajs": [list(tr) for _ in range(case["copies"])] + [tr[:2]]}
        elif k == "lengths":
            joint = ref.configs([2, 3])
            rows = [[joint[(5 * i + j * (1 + i % 5) + j * j) % 6] for j in range(n)] for i, n in enumerate(case["lens"])]
            ds = rows_ds(rows, ("A", "B"), (2, 3), 0.5)
        else:
            ds = ref.walk([2, 3, 2, 4][:len(case["labels"])], list(case["labels"]), length=12, cut=(5,))
        edges = [(ds["names"][-1], ds["names"][0])]
        if case["via"] == "json":
            imp = lib.JsonImporter(write([lib.to_json(ds, edges)]), "samples", "dyn.str", "variables", "Time", "Name")
            imp.import_data(0)
        elif case["via"] == "sample":
            imp = lib.SampleImporter(trajectory_list=lib.frames(ds), variables=lib.variables_frame(ds),
                                     prior_net_structure=lib.edges_frame(edges))
            imp.import_data()
        else:
            imp = lib.FrameImporter(lib.frames(ds), lib.variables_frame(ds), lib.edges_frame(edges))
            imp.import_data()
        check_rows(imp, ds, "", rep)
        check_vars(imp, ds, edges, "")
        sp = lib.SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        got = [[float(t)] + list(map(int, r)) for t, r in zip(sp.trajectories.times, sp.trajectories.complete_trajectory)]
        if [g[1:] for g in got] != [e[1:] for e in expected(ds)] or any(
                not ref.close(g[0], e[0]) for g, e in zip(got, expected(ds))):
            fail("the sample path holds other intervals than the input", got=got, expected=expected(ds))
    elif k in ("states", "times"):
        # large state numbers, and times that are large compared with the durations (all exactly representable)
        if k == "states":
            top = case["top"]
            seq = [(0, 0), (top, 0), (top, 1), (top - 1, 1), (0, 1), (1, 1), (top - 1, 1), (top - 1, 0), (top, 0)]
            ds = {"names": ["A", "B"], "cards": [top + 1, 2], "trajs": [[(0.5 * i, list(r)) for i, r in enumerate(seq)],
                                                                        [(0.25 * i, list(r)) for i, r in enumerate(seq[1:4])]]}
            ds["names"] += ["M%d" % (i * 7 % 20) for i in range(case["more"])]
            ds["cards"] += [top + 1] * case["more"]
            ds["trajs"] = [[(t, v + [v[0] if i % 3 else v[1] for i in range(case["more"])]) for t, v in tr] for tr in ds["trajs"]]
        else:
            ds = rows_ds(RICH[0], ("A", "B"), (2, 3), 0.0)
            ds["trajs"] = [[(case["off"] + case["unit"] * 4 * t, v) for t, v in tr] for tr in ds["trajs"]]
        if case["via"] == "json":
            imp = lib.JsonImporter(write([lib.to_json(ds, [])]), "samples", "dyn.str", "variables", "Time", "Name")
            imp.import_data(0)
        elif case["via"] == "sample":
            imp = lib.SampleImporter(trajectory_list=lib.frames(ds), variables=lib.variables_frame(ds))
            imp.import_data()
        else:
            imp = lib.FrameImporter(lib.frames(ds), lib.variables_frame(ds))
            imp.import_data()
        check_rows(imp, ds, "", rep)
        sp = lib.SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        got = [[float(t)] + list(map(int, r)) for t, r in zip(sp.trajectories.times, sp.trajectories.complete_trajectory)]
        if got != [list(map(float, r)) for r in expected(ds)]:
            fail("the sample path holds other intervals than the input", got=got, expected=expected(ds))
    elif k == "place":
        ds = rows_ds([[(0, 1, 0), (1, 1, 0), (1, 2, 0)], [(0, 2, 1), (0, 0, 1), (-1, -1, -1)], [(1, 0, 1), (1, 1, 1)]],
                     ("P", "Q", "R"), (2, 3, 2), 1.5)
        data = lib.to_json(ds, [("R", "P")], case["time"])
        for i, at in enumerate(case["places"]):
            order = list(ds["names"])
            order.insert(at, case["time"])
            data["samples"][i] = [{c: r[c] for c in order} for r in data["samples"][i]]
        imp = lib.JsonImporter(write([data]), "samples", "dyn.str", "variables", case["time"], "Name")
        for what in ("", " (imported a second time)"):
            imp.import_data(0)
            check_rows(imp, ds, what, rep)
            check_vars(imp, ds, [("R", "P")], what)
    elif k == "columns":
        # later trajectories may list their variables in another order: they are matched by name
        ds = rows_ds([[(0, 1, 0), (1, 1, 0), (1, 2, 0)], [(0, 2, 1), (0, 0, 1), (-1, -1, -1)], [(1, 0, 1), (1, 1, 1)]],
                     ("P", "Q", "R"), (2, 3, 2), 0.0)
        fr = lib.frames(ds)
        order = ["Time"] + [ds["names"][i] for i in case["perm"]]
        fr[1] = fr[1][order]
        imp = lib.SampleImporter(trajectory_list=fr, variables=lib.variables_frame(ds))
        imp.import_data()
        check_rows(imp, ds, "", rep)
        data = lib.to_json(ds, [])
        data["samples"][2] = [{c: r[c] for c in order} for r in data["samples"][2]]
        imp = lib.JsonImporter(write([data]), "samples", "dyn.str", "variables", "Time", "Name")
        imp.import_data(0)
        check_rows(imp, ds, "", rep)
