"""C04: the sample path against its importer, for all complete and incomplete importers."""
import itertools

import numpy as np
import pandas as pd

from mc import lib, ref
from mc.core import fail

ID = "C04"
RULE = ("a trace builds a sample path from an importer in one of the enumerated conditions (data, order of the variables, "
        "missing pieces, call order) and compares everything it exposes with the input, or requires the refusal; a state is a distinct "
        "outcome")
BOUNDS = {"quick": "data sets over cardinalities {2,3}^1..3 and walks, all edge sets on up to 3 variables, 3 importers, all orders of "
                   "up to 3 labels in the variables frame, all subsets of missing pieces; 1 to 5 variables whose "
                   "highest states are not in the data; cardinalities up to 70000, 8 variables with all 56 edges",
          "thorough": "adds {2,3,4}^4 and all orders of 4 labels"}


def cases(tier):
    big = tier == "thorough"
    for n in (1, 2, 3) + ((4,) if big else ()):
        for cards in itertools.product((2, 3), repeat=n):
            for via in ("sample", "frame", "json"):
                yield {"kind": "good", "cards": cards, "edges": [], "via": via}
    for n in (2, 3):
        pairs = list(itertools.permutations(range(n), 2))
        for es in ref.subsets(pairs, 1):
            for via in ("sample", "json"):
                yield {"kind": "good", "cards": (2, 3, 2)[:n], "edges": es, "via": via}
                yield {"kind": "good", "cards": (2, 3, 2)[:n], "edges": es[::-1], "via": via}
    for via in ("sample", "frame", "json"):
        yield {"kind": "good", "cards": (11, 2), "edges": [(1, 0)], "via": via}
    for n in (1, 2, 3) + ((4,) if big else ()):
        for perm in itertools.permutations(range(n)):
            for via in ("sample", "frame", "json"):
                for extra in ("", "more", "less", "rename"):
                    yield {"kind": "order", "n": n, "perm": perm, "via": via, "extra": extra}
    for n in (1, 2, 3, 4, 5):
        for more in itertools.product((0, 1, 3), repeat=n) if n < 4 else [tuple((i + j) % 3 for j in range(n)) for i in range(3)]:
            for via in ("sample", "frame", "json"):
                yield {"kind": "unseen", "n": n, "more": more, "via": via}
    for cards in ((130, 2), (2, 300), (40000, 2, 3), (2, 70000), (255, 256, 257), (2,) * 8, (3, 2, 2, 4, 2, 2, 3)):
        for via in ("sample", "frame", "json"):
            for every in (0, 1, 2):
                if via != "frame" or not every:
                    yield {"kind": "wide", "cards": cards, "every": every, "via": via}
    for ix in ("offset", "string", "reversed", "duplicate"):
        for es in ([], [(0, 2), (2, 1)]):
            yield {"kind": "index", "index": ix, "edges": es}
    for what in ("not imported", "no variables", "empty variables", "no intervals", "no samples", "empty frame", "empty array",
                 "samples None", "list"):
        for via in ("sample", "frame", "json"):
            yield {"kind": "bad", "what": what, "via": via}
    for seq in itertools.product(("t", "s"), repeat=2):
        yield {"kind": "calls", "seq": seq}


def refuse(f, what, rep):
    try:
        f()
    except Exception as e:
        rep.n("traces")
        rep.n("refusals")
        rep.state(("refused", what, type(e).__name__))
        return
    fail("no error although %s" % what)


def full(imp):
    sp = lib.SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def check(sp, ds, edges, rep, what=""):
    iv = ref.intervals(ds)
    tr = sp.trajectories
    n = len(ds["names"])
    got = [(float(t), [int(x) for x in r]) for t, r in zip(tr.times, tr.complete_trajectory)]
    exp = [(d, v0 + v1) for d, v0, v1 in iv]
    if len(got) != len(exp) or len(tr.times) != len(exp) or tr.size() != len(exp):
        fail("the sample path has %d intervals instead of %d%s" % (len(got), len(exp), what))
    for g, e in zip(got, exp):
        if not ref.close(g[0], e[0]) or g[1] != e[1]:
            fail("the sample path has the interval %r instead of %r%s" % (g, e, what))
    cur = [[int(x) for x in r] for r in tr.trajectory]
    if cur != [v0 for _, v0, _ in iv]:
        fail("the states during the intervals are wrong%s" % what, got=cur)
    st = sp.structure
    if list(st.nodes_labels) != ds["names"] or [int(x) for x in st.nodes_values] != list(ds["cards"]):
        fail("the variables are %r with %r states%s" % (list(st.nodes_labels), list(st.nodes_values), what))
    if [int(x) for x in st.nodes_indexes] != list(range(n)) or sp.total_variables_count != n or st.total_variables_number != n:
        fail("the indexes of the variables are %r, their number %r%s" % (list(st.nodes_indexes), sp.total_variables_count, what))
    for i, nm in enumerate(ds["names"]):
        if (int(st.get_node_indx(nm)), int(st.get_positional_node_indx(nm)), st.get_node_id(i), int(st.get_states_number(nm))) != \
                (i, i, nm, ds["cards"][i]):
            fail("wrong index, position, label or cardinality of %s%s" % (nm, what))
    if [tuple(e) for e in st.edges] != [tuple(e) for e in edges]:
        fail("the edges are %r instead of %r%s" % ([tuple(e) for e in st.edges], edges, what))
    if sp.has_prior_net_structure != bool(edges):
        fail("has_prior_net_structure is %r%s" % (sp.has_prior_net_structure, what))
    rep.n("transitions", len(exp))
    rep.n("traces")
    rep.state(repr((exp, ds["names"], ds["cards"], edges)))


def run(case, rep):
    k = case["kind"]
    if k == "good":
        ds = ref.covering(list(case["cards"]), ["X%d" % (10 - i) for i in range(len(case["cards"]))])
        edges = [(ds["names"][a], ds["names"][b]) for a, b in case["edges"]]
        check(lib.sample_path(ds, edges, case["via"]), ds, edges, rep)
        rep.sample({"cards": case["cards"], "edges": edges, "via": case["via"]}, 1)
    elif k == "wide":
        n = len(case["cards"])
        ds = ref.spread(list(case["cards"]), 120, ["X%d" % (20 - i) for i in range(n)])
        pr = [(a, b) for a in ds["names"][::-1] for b in ds["names"] if a != b]
        edges = pr[::case["every"]] if case["every"] else []
        check(lib.sample_path(ds, edges, case["via"]), ds, edges, rep)
    elif k == "unseen":
        # states that the declaration names and the data never visit
        n = case["n"]
        seen = [2, 2, 3, 2, 2][:n]
        ds = ref.walk(seen, ["X%d" % (10 - i) for i in range(n)], length=14, cut=(6,))
        ds["cards"] = [c + m for c, m in zip(seen, case["more"])]
        edges = list(zip(ds["names"], ds["names"][1:])) if case["via"] != "frame" else []
        check(lib.sample_path(ds, edges, case["via"]), ds, edges, rep)
    elif k == "order":
        n = case["n"]
        ds = ref.covering([2, 3, 2, 3][:n], ["C", "A", "D", "B"][:n])
        ds["trajs"] = ds["trajs"][:6]
        v = {"names": [ds["names"][i] for i in case["perm"]], "cards": [ds["cards"][i] for i in case["perm"]]}
        if case["extra"] == "more":
            v = {"names": v["names"] + ["Z"], "cards": v["cards"] + [2]}
        elif case["extra"] == "less":
            v = {"names": v["names"][:-1], "cards": v["cards"][:-1]}
        elif case["extra"] == "rename":
            v["names"][-1] += "x"
        if case["via"] == "json":
            import json
            d = lib.to_json(ds, [])
            d["variables"] = lib.to_json(dict(v, trajs=[]), [])["variables"]
            with open("c04.json", "w") as f:
                json.dump([d], f)
            imp = lib.JsonImporter("c04.json", "samples", "dyn.str", "variables", "Time", "Name")
        elif case["via"] == "sample":
            imp = lib.SampleImporter(trajectory_list=lib.frames(ds), variables=lib.variables_frame(v))
        else:
            imp = lib.FrameImporter(lib.frames(ds), lib.variables_frame(v))
        imp.import_data()
        if v["names"] == ds["names"]:
            check(full(imp), ds, [], rep)
        else:
            refuse(lambda: full(imp), "the variables are listed as %r and the data as %r" % (v["names"], ds["names"]), rep)
    elif k == "index":
        from mc.checks.c03 import reindex
        ds = ref.covering([2, 3, 2], ["C", "A", "D"])
        edges = [(ds["names"][a], ds["names"][b]) for a, b in case["edges"]]
        st = reindex(lib.edges_frame(edges), case["index"]) if edges else None
        imp = lib.SampleImporter(trajectory_list=[reindex(f, case["index"]) for f in lib.frames(ds)],
                                 variables=reindex(lib.variables_frame(ds), case["index"]), prior_net_structure=st)
        imp.import_data()
        check(full(imp), ds, edges, rep, " (%s index)" % case["index"])
    elif k == "calls":
        ds = ref.walk([2, 3], length=6)
        imp = lib.importer(ds, [("V0", "V1")], "sample")
        sp = lib.SamplePath(imp)
        done = set()
        for c in case["seq"]:
            if c in done and c == "t":
                return
            done.add(c)
            sp.build_trajectories() if c == "t" else sp.build_structure()
        if done == {"t", "s"}:
            check(sp, ds, [("V0", "V1")], rep, " (calls %r)" % (case["seq"],))
            sp.clear_memory()
            check(sp, ds, [("V0", "V1")], rep, " (after clear_memory)")
    elif k == "bad":
        bad(case, rep)


def bad(case, rep):
    ds = ref.walk([2, 3], length=4)
    w, via = case["what"], case["via"]
    if via == "json":
        import json
        d = lib.to_json(ds, [])
        if w == "empty variables":
            d["variables"] = []
        if w == "no intervals":
            d["samples"] = [s[:1] for s in d["samples"]] + [d["samples"][0][:1]]
        with open("c04.json", "w") as f:
            json.dump([d], f)
        imp = lib.JsonImporter("c04.json", "samples", "dyn.str", "variables", "Time", "Name")
    else:
        fr, var = lib.frames(ds), lib.variables_frame(ds)
        if w == "no variables":
            var = None
        if w == "empty variables":
            var = var.iloc[0:0]
        if w == "no intervals":
            fr = [f.iloc[:1] for f in fr] * 2
        imp = lib.SampleImporter(trajectory_list=fr, variables=var) if via == "sample" else lib.FrameImporter(fr, var)

    def go():
        if w != "not imported":
            imp.import_data()
        if w == "no variables":
            imp._df_variables = None
        if w in ("no samples", "empty frame"):
            imp.clear_concatenated_frame()
        if w == "empty array":
            imp._concatenated_samples = np.empty((0, 5))
        if w == "samples None":
            imp._concatenated_samples = None
        if w == "list":
            imp._concatenated_samples = []
        lib.SamplePath(imp)
    refuse(go, "the importer has the defect: " + w, rep)
    rep.n("transitions")
