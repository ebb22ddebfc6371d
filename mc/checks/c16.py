"""C16: every sequence of draws of generate_graph, with the exact probability of each graph."""
import itertools
from fractions import Fraction
from math import comb

import numpy as np

from mc import lib, ref, rnd
from mc.core import fail
from mc.explore import Stats, explore

ID = "C16"
RULE = ("a trace is one generated network under one sequence of random draws; the probabilities of the sequences are added up per graph "
        "and compared with the distribution the mode requires; a state is a distinct (size, density, mode, graph)")
BOUNDS = {"quick": "2-3 variables: all draws, all numbers of edges, 8 densities, exact distribution; 4 variables: all draws for two "
                   "densities without fixing, at most 2 non-default draws with a fixed density; 5 variables: at most 1 (fixed) or 3; 6-9 variables: 1 or 2, probabilities bounded from above; two "
                   "successive generations on one generator for 2-3 variables; densities k/m for m up to 42, 1-9 variables: exact count or "
                   "error",
          "thorough": "4 variables: 5 densities without fixing, at most 3 non-default draws when fixed; 5 variables: 2 and 4"}
ASSUMPTIONS = ["a random draw is uniform over its alternatives, or has the probabilities it is given"]
LABELS = ["b", "A", "10", "z z", "c", "Q", "x1", "x2", "y"]


def cases(tier):
    big = tier == "thorough"
    for n in range(1, 10):
        for m in range(1, 43):
            yield {"kind": "count", "n": n, "m": m}
    for n in (1, 2, 3):
        for k in range(n * (n - 1) + 1):
            yield {"kind": "fixed", "n": n, "k": k, "dev": None, "twice": False}
        for d in (0.0, 0.1, 0.25, 1 / 3.0, 0.5, 0.7, 0.9, 1.0):
            yield {"kind": "free", "n": n, "d": d, "dev": None, "twice": False}
    for k in range(3):
        yield {"kind": "fixed", "n": 2, "k": k, "dev": None, "twice": True}
    for k in range(7):
        yield {"kind": "fixed", "n": 3, "k": k, "dev": 3, "twice": True}
    for d in (0.0, 0.3, 1.0):
        yield {"kind": "free", "n": 2, "d": d, "dev": None, "twice": True}
        yield {"kind": "free", "n": 3, "d": d, "dev": 3, "twice": True}
    for d in (0.2, 0.6, 0.05, 0.5, 0.95) if big else (0.2, 0.6):
        yield {"kind": "free", "n": 4, "d": d, "dev": None, "twice": False}
    for k in range(13):
        yield {"kind": "fixed", "n": 4, "k": k, "dev": 3 if big else 2, "twice": False}
    for k in range(0, 21, 2):
        yield {"kind": "fixed", "n": 5, "k": k, "dev": 2 if big else 1, "twice": False}
    for d in (0.2, 0.8):
        yield {"kind": "free", "n": 5, "d": d, "dev": 4 if big else 3, "twice": False}
    for n in (4, 5, 6, 8, 10, 13):
        for d in (0.0, 1.0):
            yield {"kind": "free", "n": n, "d": d, "dev": 1, "twice": n < 9}
    for n in (6, 7, 9):
        for d in (0.2, 0.8, 0.02):
            yield {"kind": "free", "n": n, "d": d, "dev": 2 if n < 9 or big else 1, "twice": False}
        for k in {1, n, n * (n - 1) // 2, n * (n - 1) - 2}:
            yield {"kind": "fixed", "n": n, "k": k, "dev": 1, "twice": False}


def inspect(g, labels, vals, labels0, vals0, seen=None):
    """Check what a generator shows of its network (in full once per graph in `seen`); returns the set of edges."""
    if seen is not None:
        edges = [(str(a), str(b)) for a, b in g.graph.edges]
        if len(set(edges)) == len(edges) and frozenset(edges) in seen:
            return frozenset(edges)
        e = inspect(g, labels, vals, labels0, vals0)
        seen.add(e)
        return e
    if list(labels) != labels0 or [int(v) for v in vals] != vals0:
        fail("generating a network changed the labels or cardinalities given", labels=labels, vals=vals)
    net = g.graph
    if [str(x) for x in net.nodes] != labels0:
        fail("the network has the nodes %s instead of %s" % (list(net.nodes), labels0))
    if [int(net.get_states_number(x)) for x in labels0] != vals0 or [int(x) for x in net.nodes_values] != vals0:
        fail("the network has other cardinalities than those given", given=vals0)
    if [int(net.get_node_indx(x)) for x in labels0] != list(range(len(labels0))):
        fail("the network has other indexes than the positions of its labels")
    edges = [(str(a), str(b)) for a, b in net.edges]
    if len(set(edges)) != len(edges) or any(a == b or a not in labels0 or b not in labels0 for a, b in edges):
        fail("the network has a self-loop, a repeated or an impossible edge", edges=edges)
    ds = [tuple(r) for r in g.dyn_str.values.tolist()]
    if sorted(ds) != sorted(edges) or list(g.dyn_str.columns) != ["From", "To"]:
        fail("the table of edges is %s; the network has %s" % (ds, edges))
    vs = [tuple(r) for r in g.variables.values.tolist()]
    if vs != list(zip(labels0, vals0)):
        fail("the table of variables is %s instead of %s" % (vs, list(zip(labels0, vals0))))
    for x in labels0:
        par, idx, cards = net.get_ordered_by_indx_set_of_parents(x)
        exp = [p for p in labels0 if (p, x) in edges]
        if list(par) != exp or [int(i) for i in idx] != [labels0.index(p) for p in exp] or \
                [int(c) for c in cards] != [vals0[labels0.index(p)] for p in exp]:
            fail("the parents of %s are %s %s %s; the edges are %s" % (x, par, idx, cards, edges))
    return frozenset(edges)


def weight(draws, d):
    w = 1.0
    for kind, p, v in draws:
        if kind == "below":
            w /= p
        elif kind == "bern":
            w *= p if v else 1 - p
        elif kind == "pick":
            w *= p[v]
        elif kind == "uniform":
            w *= d if v < d else 1 - d
    return w


def run(case, rep):
    n = case["n"]
    labels0 = (LABELS + ["more %d" % i for i in (3, 1, 0, 2)])[:n]
    vals0 = [2 + i % 3 for i in range(n)]
    if case["kind"] == "count":
        tot = n * (n - 1)
        for k in range(case["m"] + 1):
            fr = Fraction(k, case["m"])
            d = k / float(case["m"])
            whole = (fr * tot).denominator == 1
            labels, vals = list(labels0), np.array(vals0)
            g = lib.NetworkGenerator(labels, vals)
            rep.n("transitions")
            try:
                with rnd.controlled(rnd.Control(lib_first())):
                    g.generate_graph(d, fixed=True)
                ok = True
            except Exception:
                ok = False
            if ok != whole:
                fail("density %d/%d of %d variables (%s edges) is %s" % (k, case["m"], n, fr * tot, "accepted" if ok else "refused"))
            if ok and len(inspect(g, labels, vals, labels0, vals0)) != fr * tot:
                fail("density %d/%d of %d variables gives %d edges instead of %s" % (k, case["m"], n, len(g.graph.edges), fr * tot))
            rep.state((n, float(fr), ok))
            rep.n("traces")
        return
    fixed = case["kind"] == "fixed"
    tot = n * (n - 1)
    d = (case["k"] / float(tot) if tot else 0.5) if fixed else case["d"]
    st = Stats()
    full = set()
    menu = ([d / 2] if d > 0 else []) + ([(1 + d) / 2] if d < 1 else [])

    def execute(ch):
        labels, vals = list(labels0), list(vals0)
        g = lib.NetworkGenerator(labels, vals)
        out = []
        for i in range(2 if case["twice"] else 1):
            with rnd.controlled(rnd.Control(ch, unif_menu=menu)) as c:
                g.generate_graph(d, fixed=fixed)
            out.append((weight(c.draws, d), inspect(g, labels, vals, labels0, vals0, None if case["twice"] else full)))
        return out
    dist, pair = {}, {}
    for taken, out in explore(execute, deviations=case["dev"], stats=st):
        w = 1.0
        for x, e in out:
            w *= x
            if fixed and len(e) != case["k"]:
                fail("the network has %d edges instead of %d" % (len(e), case["k"]), edges=sorted(e))
            rep.state((n, d, fixed, e))
        key = tuple(e for _, e in out)
        dist[key] = dist.get(key, 0.0) + w
        rep.n("traces")
        rep.n("transitions", len(taken))
    if st.diverged:
        fail("the same draws do not give the same network", diverged=st.diverged)
    if case["dev"] is not None:
        rep.n("beyond_deviation_bound", st.bounded)
        seen = set(e for key in dist for e in key[-1])
        if not case["twice"] and n <= 4 and (fixed and 0 < case["k"]) and st.executions > 30:
            missing = [(a, b) for a in labels0 for b in labels0 if a != b and (a, b) not in seen]
            if missing:
                rep.n("edges_not_seen_within_bound", len(missing))
        for key, w in dist.items():       # a part of the sequences leading to a graph has at most the probability of the graph
            p = 1.0
            for e in key:
                p *= 1.0 / comb(tot, case["k"]) if fixed else d ** len(e) * (1 - d) ** (tot - len(e))
            if w > p * (1 + 1e-6):
                fail("the network with edges %s is generated with probability at least %.6g instead of %.6g (density %s%s)" % (
                    [sorted(e) for e in key], w, p, d, ", fixed" if fixed else ""))
            rep.n("probabilities_bounded")
        return
    allp = [(a, b) for a in labels0 for b in labels0 if a != b]
    exp1 = {}
    for s in ref.subsets(allp):
        if fixed and len(s) != case["k"]:
            continue
        exp1[frozenset(s)] = 1.0 if fixed else d ** len(s) * (1 - d) ** (tot - len(s))
    z = sum(exp1.values())
    exp = {}
    for key in itertools.product(exp1, repeat=2 if case["twice"] else 1):
        w = 1.0
        for e in key:
            w *= exp1[e] / z
        exp[key] = w
    for key in set(exp) | set(dist):
        if abs(exp.get(key, 0.0) - dist.get(key, 0.0)) > 1e-9:
            fail("the network with edges %s is generated with probability %.6g instead of %.6g (density %s%s)" % (
                [sorted(e) for e in key], dist.get(key, 0.0), exp.get(key, 0.0), d, ", fixed" if fixed else ""))
    rep.n("distributions")
    rep.sample({"n": n, "d": d, "fixed": fixed, "graphs": len(dist), "sequences": st.executions}, 2)


def lib_first():
    from mc.pool import Constant
    return Constant(0)
