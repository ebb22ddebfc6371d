"""C22: breadth-first exploration of the states of Structure and NetworkGraph under edits, against a plain model."""
import copy
import pickle

import numpy as np

from mc import lib, ref
from mc.core import fail

ID = "C22"
RULE = ("a state is a distinct state of the real objects (everything they hold); a transition is one edit applied to a copy of a state, "
        "after which every query is asked, compared with a plain labelled directed graph, and shown to change nothing; a trace is one "
        "history of edits leading to a state")
BOUNDS = {"quick": "structures of 1-6 nodes and of 12 with contiguous, non-contiguous and unordered indexes and mixed cardinalities: every history of "
                   "edits up to 7 edits on 2 nodes, 5 on 3, 3 on 4, 2 on 5 and 6, 1 on 12 (Structure alone), up to 4 edits on 2 nodes, 3 on 3, 2 on 4 and 5, 1 on 6 and 12 "
                   "(NetworkGraph and its Structure together); 2 more on built graphs of 4-6 nodes and 1 on built ones of 12",
          "thorough": "Structure alone 12 / 7 / 5 edits, NetworkGraph 7 / 5 / 4"}
ASSUMPTIONS = ["an edge is added once", "nodes are removed through the graph when there is one", "edges join nodes of the structure"]
WORLDS = [(["B", "A"], [0, 1], [2, 3], 2), (["BB", "AA"], [1, 3], [3, 2], 4), (["A", "B"], [2, 0], [2, 4], 3), (["X"], [2], [3], 5),
          (["C", "A", "B"], [0, 1, 2], [2, 3, 4], 3), (["C", "A", "B"], [1, 2, 4], [3, 2, 2], 5), (["node", "node two", "x1"], [0, 2, 3], [2, 2, 3], 4),
          (["D", "B", "A", "C"], [0, 1, 2, 3], [2, 3, 4, 5], 4), (["D4", "B2", "A1", "C3"], [0, 2, 3, 5], [3, 2, 2, 4], 6),
          (["E", "D", "B", "A", "C"], [0, 1, 2, 3, 4], [2, 3, 4, 5, 2], 5), (["E5", "V10", "V1", "V2", "C"], [1, 2, 4, 5, 8], [3, 2, 2, 4, 2], 9),
          (["f", "E", "D", "B", "A", "C"], [0, 1, 2, 4, 5, 6], [2, 3, 4, 5, 2, 6], 7),
          (["V%d" % i for i in range(12)], list(range(12)), [2 + i % 3 for i in range(12)], 12)]
DEPTH = {"quick": {"s": {1: 3, 2: 7, 3: 5, 4: 3, 5: 2, 6: 2, 12: 1}, "g": {1: 4, 2: 4, 3: 3, 4: 2, 5: 2, 6: 1, 12: 1}},
         "thorough": {"s": {1: 3, 2: 12, 3: 7, 4: 5, 5: 3, 6: 3, 12: 1}, "g": {1: 6, 2: 7, 3: 5, 4: 4, 5: 2, 6: 2, 12: 1}}}


class Plain(object):
    """A labelled directed graph (the structure) and the graph built from it."""

    def __init__(self, world, start):
        labels, idx, cards, tot = world
        self.nodes = list(zip(labels, idx, cards))
        self.total = tot
        self.edges = set(start)
        self.gnodes = False
        self.gedges = set()
        self.ready = None        # (node, parents) the indexing structures were last built for

    def labels(self):
        return [n for n, _, _ in self.nodes]

    def parents(self, v):
        return [n for n in self.labels() if (n, v) in self.gedges]

    def remove(self, v):
        self.nodes = [x for x in self.nodes if x[0] != v]
        self.edges = {e for e in self.edges if v not in e}
        self.gedges = {e for e in self.gedges if v not in e}


def pairs(ls):
    return [(a, b) for a in ls for b in ls if a != b]


def edits(m, graph):
    ls = m.labels()
    for e in pairs(ls):
        yield ("del_edge" if e in m.edges else "add_edge", e)
    if m.edges:
        yield ("clean", None)
    if not graph:
        for v in ls:
            if len(ls) > 1:
                yield ("remove", v)
        return
    yield ("nodes", tuple(ls))
    if len(ls) > 1:
        yield ("nodes", tuple(ls[::-1]))
        yield ("nodes", tuple(ls[1:]))
    for v in ls:
        yield ("init", v)
    if m.gnodes:
        for e in pairs(ls):
            yield ("g_add", (e,))
            yield ("g_del", (e,))
        if len(ls) > 1:
            yield ("g_add", ((ls[0], ls[-1]), (ls[-1], ls[0])))
            yield ("g_del", ((ls[0], ls[-1]), (ls[1], ls[0])))
            for v in ls:
                yield ("g_remove", v)
    yield ("clear", None)


def twin(x, like):
    """an equal label that is another object: a new string or numpy's"""
    if isinstance(x, str):
        return np.str_(x) if like else (x + "~")[:-1]
    return tuple(twin(y, like) for y in x) if isinstance(x, tuple) else x


def apply(m, s, g, op, arg, like=0):
    arg = twin(arg, like)
    if op == "add_edge":
        s.add_edge(arg)
        m.edges.add(arg)
    elif op == "del_edge":
        s.remove_edge(arg)
        m.edges.discard(arg)
    elif op == "clean":
        s.clean_structure_edges()
        m.edges = set()
    elif op == "remove":
        s.remove_node(arg)
        m.remove(arg)
    elif op == "nodes":
        g.add_nodes(list(arg))
        m.gnodes = m.gnodes or set(arg) == set(m.labels())
        m.part = set(arg)
    elif op == "init":
        g.fast_init(arg)
        m.gnodes = True
        m.gedges |= m.edges
        m.ready = (arg, tuple(m.parents(arg)))
    elif op == "g_add":
        g.add_edges(list(arg))
        m.gedges |= set(arg)
    elif op == "g_del":
        g.remove_edges(list(arg))
        m.gedges -= set(arg)
    elif op == "g_remove":
        g.remove_node(arg)
        m.remove(arg)
        m.ready = None
    elif op == "clear":
        g.clear_indexing_filtering_structures()
        m.ready = None


def holds(what, got, want, hist):
    if got != want:
        fail("%s is %r instead of %r after %s" % (what, got, want, hist))


def ask_structure(m, s, hist):
    ls = m.labels()
    holds("the list of labels", [str(x) for x in s.nodes_labels], ls, hist)
    holds("the list of indexes", [int(x) for x in s.nodes_indexes], [i for _, i, _ in m.nodes], hist)
    holds("the list of cardinalities", [int(x) for x in s.nodes_values], [c for _, _, c in m.nodes], hist)
    holds("the edges", sorted(tuple(e) for e in s.edges), sorted(m.edges), hist)
    holds("the number of variables of the data", int(s.total_variables_number), m.total, hist)
    for k, (n, i, c) in enumerate(m.nodes):
        holds("the index of %s" % n, int(s.get_node_indx(n)), i, hist)
        holds("the position of %s" % n, int(s.get_positional_node_indx(n)), k, hist)
        holds("the cardinality of %s" % n, int(s.get_states_number(n)), c, hist)
        holds("the node of index %d" % i, str(s.get_node_id(i)), n, hist)
    for e in pairs(ls):
        holds("the presence of the edge %s" % (e,), bool(s.contains_edge(e)), e in m.edges, hist)
    r = repr(s)
    for n in ls:
        if n not in r:
            fail("the description of the structure leaves out %s after %s" % (n, hist))


def ask_graph(m, g, hist):
    ls = m.labels()
    holds("the list of nodes", [str(x) for x in g.nodes], ls, hist)
    holds("the list of indexes of the graph", [int(x) for x in g.nodes_indexes], [i for _, i, _ in m.nodes], hist)
    holds("the list of cardinalities of the graph", [int(x) for x in g.nodes_values], [c for _, _, c in m.nodes], hist)
    holds("the edges of the graph", sorted(tuple(e) for e in g.edges), sorted(m.gedges), hist)
    for e in pairs(ls):
        holds("the presence of %s in the graph" % (e,), bool(g.has_edge(e)), e in m.gedges, hist)
    part = set(ls) if m.gnodes else getattr(m, "part", set())
    card = {n: (k, i, c) for k, (n, i, c) in enumerate(m.nodes)}
    for n in sorted(part):
        k, i, c = card[n]
        holds("the index of %s in the graph" % n, int(g.get_node_indx(n)), i, hist)
        holds("the position of %s in the graph" % n, int(g.get_positional_node_indx(n)), k, hist)
        holds("the cardinality of %s in the graph" % n, int(g.get_states_number(n)), c, hist)
        holds("the parents of %s" % n, sorted(map(str, g.get_parents_by_id(n))), sorted(m.parents(n)), hist)
        p = m.parents(n)
        got = g.get_ordered_by_indx_set_of_parents(n)
        holds("the ordered parents of %s" % n, ([str(x) for x in got[0]], [int(x) for x in got[1]], [int(x) for x in got[2]]),
              (p, [card[x][1] for x in p], [card[x][2] for x in p]), hist)
    if m.ready is None:
        for what in ("time_scalar_indexing_strucure", "transition_scalar_indexing_structure", "time_filtering", "transition_filtering", "p_combs"):
            if getattr(g, what) is not None:
                fail("%s is %r although it was never built or was cleared, after %s" % (what, getattr(g, what), hist))


def built(m, g, node, hist, tot):
    """The indexing structures just built for a node, against those of a graph made directly of the node and its parents."""
    p = m.parents(node)
    keep = [x for x in m.nodes if x[0] == node or x[0] in p]
    s = lib.Structure([x[0] for x in keep], np.array([x[1] for x in keep]), np.array([x[2] for x in keep]), [(q, node) for q in p], tot)
    f = lib.NetworkGraph(s)
    f.fast_init(node)
    card = {n: c for n, _, c in m.nodes}
    holds("the list of configurations of the parents of %s" % node, sorted(tuple(int(x) for x in r) for r in g.p_combs),
          ref.configs([card[q] for q in p]), hist)
    for what in ("time_scalar_indexing_strucure", "transition_scalar_indexing_structure", "time_filtering", "transition_filtering", "p_combs"):
        holds("%s of %s" % (what, node), np.array(getattr(g, what)).tolist(), np.array(getattr(f, what)).tolist(), hist)


def dump(s, g):
    if g is None:
        return pickle.dumps(plain(vars(s)))
    return pickle.dumps((plain(vars(s)), plain({k: v for k, v in vars(g).items() if k not in ("_graph_struct", "_graph")}),
                         [(n, plain(g._graph.nodes[n])) for n in g._graph.nodes] if hasattr(g, "_graph") else plain(vars(g)),
                         [tuple(e) for e in g.edges]))


def plain(o):
    if isinstance(o, dict):
        return [(k, plain(v)) for k, v in sorted(o.items(), key=lambda t: str(t[0]))]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, set):
        return sorted(map(repr, o))
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)


def starts(world):
    ps = pairs(world[0])
    return [[], ps[:1], ps[::2], ps[::-1]] if len(ps) > 2 else [[], ps]


def big_starts(world):
    ls = world[0]
    return [pairs(ls)[:1], [(ls[-1], ls[-2])], list(zip(ls, ls[1:])), [(v, ls[-1]) for v in ls[:-1]] + [(ls[-1], ls[0])], pairs(ls)]


def cases(tier):
    for w in range(len(WORLDS)):
        n = len(WORLDS[w][0])
        for st in range(len(starts(WORLDS[w]))):
            for kind in "sg":
                yield {"world": w, "start": st, "kind": kind, "depth": DEPTH[tier][kind][n]}
    for w in range(len(WORLDS)):
        n = len(WORLDS[w][0])
        if n >= 4:          # graphs that are built: with edges at either end, a path, a star, all edges
            for st in range(5):
                yield {"world": w, "start": st, "kind": "b", "depth": 1 if n > 6 else 2}


def run(case, rep):
    world = WORLDS[case["world"]]
    graph = case["kind"] in "gb"
    start = starts(world)[case["start"]] if case["kind"] in "sg" else big_starts(world)[case["start"]]

    def fresh():
        s = lib.Structure(list(world[0]), np.array(world[1]), np.array(world[2]), list(start), world[3])
        return s, (lib.NetworkGraph(s) if graph else None)
    s, g = fresh()
    m = Plain(world, start)
    frontier = [(m, s, g, ())]
    seen = set()
    check(m, s, g, ())
    if case["kind"] == "b":
        hist = ()
        for op, arg in (("nodes", tuple(world[0])), ("g_add", tuple(start))):
            hist += ((op, arg),)
            apply(m, s, g, op, arg, case["world"] % 2)
            check(m, s, g, hist)
        frontier = [(m, s, g, hist)]
    for depth in range(case["depth"]):
        nxt = []
        for m, s, g, hist in frontier:
            for op, arg in edits(m, graph):
                m2, (s2, g2) = copy.deepcopy(m), copy.deepcopy((s, g))
                h2 = hist + ((op, arg),)
                apply(m2, s2, g2, op, arg, case["world"] % 2)
                if op == "init":
                    built(m2, g2, arg, h2, world[3])
                check(m2, s2, g2, h2)
                rep.n("transitions")
                d = dump(s2, g2)
                if d in seen:
                    continue
                seen.add(d)
                rep.state((case["world"], case["kind"], d))
                rep.n("traces")
                rep.top("depth", depth + 1)
                nxt.append((m2, s2, g2, h2))
        frontier = nxt
        if len(rep.samples) < 2 and nxt:
            rep.sample({"world": world[0], "history": nxt[-1][3]})
    rep.n("states_at_the_last_depth", len(frontier))


def check(m, s, g, hist):
    for h in (hist, hist + ("all queries",)):      # asking changes no later answer
        ask_structure(m, s, h)
        if g is not None:
            ask_graph(m, g, h)
