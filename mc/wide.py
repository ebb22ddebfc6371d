"""Whole-network estimations with every evaluation logged, serially or on a controlled pool of worker processes."""
import json
import os

from . import lib, pool, ref, rnd, search
from .core import fail
from .ctpc import CIOracle
from .explore import Chooser, Stats, explore

LOG = "wide.log"


class Rotor(object):
    """A fixed sequence of draws that goes through all alternatives."""

    def __init__(self, start, step):
        self.at, self.by, self.trace = start, step, []

    def choose(self, n):
        self.at += self.by
        return (self.at // 3 if self.by % 3 == 0 else self.at) % n


def note(*row):
    with open(LOG, "a") as f:
        f.write(json.dumps(row) + "\n")


def rows():
    if not os.path.exists(LOG):
        return []
    with open(LOG) as f:
        return [json.loads(l) for l in f]


def score(mode, fam, node):
    """Scores of a family: larger is better, an order without pattern, or the number of variables kept out."""
    h = sum((i + 3) * ord(c) for i, c in enumerate(node)) * 7
    for p in sorted(fam):
        h = (h * 31 + sum(map(ord, p)) * 17 + 5) % 9973
    if mode == "large":
        return float(len(fam)) + (h % 5) / 10.0
    if mode == "mixed":
        return float(h % 23)
    return float(h % 7) - 2 * len(fam)


class Logged(lib.StructureScoreBasedEstimator):
    mode = "large"

    def get_score_from_graph(self, graph, node_id):
        graph.fast_init(node_id)
        fam = sorted(a for a, b in graph.edges if b == node_id)
        s = score(self.mode, fam, node_id)
        note(node_id, fam, s)
        return s


class Asked(CIOracle):
    mode = 0

    def complete_test(self, test_parent, test_child, parent_set, *a, **k):
        sep = list(parent_set)
        h = (sum(map(ord, test_parent + 2 * test_child)) * 13 + 7 * sum(map(ord, sep)) * (len(sep) + 1) + 5 * self.mode) % 101
        ans = h % (self.mode + 2) == 0
        note(test_parent, test_child, sep, ans)
        return ans


def names_of(n):
    return search.NAMES[:n]


def fresh():
    if os.path.exists(LOG):
        os.unlink(LOG)


def how(cfg):
    return {"disable_multiprocessing": True} if cfg["procs"] == "serial" else {"processes_number": cfg["procs"]}


def cardinals(n):
    return ([2, 3] + [2] * 12)[:n]


def scored(cfg, ch=None):
    """Runs cfg; returns ({node: [(family, score)]}, edges)."""
    names = names_of(cfg["n"])
    ds = ref.walk(cardinals(cfg["n"]), names, length=12)
    est = Logged(lib.sample_path(ds), known_edges=[(names[a], names[b]) for a, b in cfg["known"]])
    est.mode = cfg["mode"]
    fresh()
    with pool.schedule(ch or Chooser(), pool.NoMemo(), 8), rnd.controlled(rnd.Control(Rotor(*cfg["draws"]))):
        e = est.estimate_structure(max_parents=cfg["max"], iterations_number=cfg["iters"], patience=cfg["patience"],
                                   tabu_length=cfg.get("length"), tabu_rules_duration=cfg.get("duration"),
                                   optimizer=cfg["opt"], **how(cfg))
    traces = {n: [] for n in names}
    for node, fam, s in rows():
        traces[node].append((frozenset(fam), s))
    fresh()
    return traces, [tuple(map(str, x)) for x in e]


def asked(cfg, ch=None):
    """Runs the constraint-based search of cfg; returns ([(parent, child, separating set, answer)], edges)."""
    names = names_of(cfg["n"])
    ds = ref.walk(cardinals(cfg["n"]), names, length=12)
    est = Asked(lib.sample_path(ds), 0.1, 0.1, known_edges=[(names[a], names[b]) for a, b in cfg["known"]])
    est.mode = cfg["mode"]
    fresh()
    with pool.schedule(ch or Chooser(), pool.NoMemo(), 8):
        e = est.estimate_structure(**how(cfg))
    log = [(p, c, s, a) for p, c, s, a in rows()]
    fresh()
    return log, [tuple(map(str, x)) for x in e]


def node_cfg(cfg, node):
    names = names_of(cfg["n"])
    return dict(cfg, node=node, known=[names[a] for a, b in cfg["known"] if names[b] == node])


def model_check(cfg, traces, edges):
    """Every variable's evaluations and result against the reference search."""
    names = names_of(cfg["n"])
    for node in names:
        c, mine = node_cfg(cfg, node), [e for e in edges if e[1] == node]
        if search.keeps_scores(cfg["opt"]):
            search.judge_memo(c, names, traces[node], mine)
            continue
        m = search.Model(c, names)
        for fam, s in traces[node]:
            m.step(fam, s)
        m.end(mine)
    for p, c in edges:
        if c not in names or p not in names or p == c:
            fail("the result has the impossible edge %s" % ((p, c),))


KNOWN = {3: [[], [(0, 1)], [(1, 0), (2, 0), (0, 2)]],
         4: [[], [(3, 1)], [(0, 1), (2, 1), (3, 1)], [(0, 3), (1, 3), (3, 0)]],
         5: [[], [(4, 3)], [(0, 4), (1, 4)], [(1, 3), (2, 3), (0, 1), (4, 0)], [(0, 2), (1, 2), (3, 2), (4, 2)]],
         6: [[], [(0, 5), (1, 5), (2, 4)], [(5, 0), (4, 0), (3, 0)]],
         7: [[], [(6, 5), (5, 6), (0, 6)]],
         9: [[], [(i, 4) for i in (0, 2, 5, 8)] + [(i, 0) for i in range(1, 9)]],
         10: [[(1, 9), (2, 9)] + [(9 - i, i) for i in range(5)]],
         12: [[], [(a, b) for a in range(12) for b in range(12) if a != b and (3 * a + 5 * b) % 4 == 0]]}


def settings(opts, ns, maxs, modes=("large", "mixed"), procs=("serial", None, 2), iters=14, patience=None, draws=((0, 1), (2, 5))):
    for opt in opts:
        for n in ns:
            for known in KNOWN[n]:
                for mx in maxs:
                    for k, mode in enumerate(modes):
                        for pr in procs:
                            yield {"wide": True, "n": n, "known": known, "max": mx, "mode": mode, "procs": pr, "opt": opt,
                                   "iters": iters, "patience": patience, "draws": draws[(k + n) % len(draws)], "length": None,
                                   "duration": None}


def schedules(cfg, f, rep):
    """f under the schedules of the worker processes that are at most cfg["dev"] choices away from the default."""
    if cfg["procs"] == "serial":
        return [f(Chooser())]
    st, out = Stats(), []
    for taken, r in explore(f, deviations=cfg.get("dev", 1), stats=st, max_executions=60):
        out.append(r)
    rep.n("schedules", len(out))
    return out


def check_scored(cfg, rep, judge):
    for traces, edges in schedules(cfg, lambda ch: scored(cfg, ch), rep):
        judge(cfg, traces, edges)
        for node, t in traces.items():
            rep.n("traces")
            rep.n("transitions", len(t))
            rep.state((node, tuple(t), cfg["max"], tuple(cfg["known"])))


def check_asked(cfg, rep, judge):
    names = names_of(cfg["n"])
    known = [(names[a], names[b]) for a, b in cfg["known"]]
    for log, edges in schedules(cfg, lambda ch: asked(cfg, ch), rep):
        judge(names, known, log, edges)
        rep.n("traces")
        rep.n("transitions", len(log))
        rep.state((tuple(known), repr(sorted(map(repr, log)))))
