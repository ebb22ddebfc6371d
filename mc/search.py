"""Exhaustive exploration of the two score-based searches: every draw and every answer of an abstract score."""
import copy

from . import lib, ref, rnd
from .core import Violation, fail
from .explore import Stats, explore
from .pool import Constant


class Oracle(lib.StructureScoreBasedEstimator):
    """Answers score requests by `self.answer(parents, node)` instead of computing them."""
    answer = None

    def get_score_from_graph(self, graph, node_id):
        graph.fast_init(node_id)
        return self.answer(frozenset(a for a, b in graph.edges if b == node_id), node_id)


class Recorder(lib.StructureScoreBasedEstimator):
    """Computes the scores and tells them to `self.note(parents, node, score)`."""
    note = None

    def get_score_from_graph(self, graph, node_id):
        s = super(Recorder, self).get_score_from_graph(graph, node_id)
        fam = frozenset(a for a, b in graph.edges if b == node_id)
        if self.note is not None:
            self.note(fam, node_id, float(s))
        return s


NAMES = ["D", "A", "C", "B", "E", "F", "H", "G", "J", "I", "M", "K", "L", "N"]       # not in alphabetical order


def tiny(n):
    return ref.walk(([2, 3, 2, 2, 3, 2] + [2] * 8)[:n], NAMES[:n], length=12)


class Model(object):
    """The reference search, advanced by the families the implementation evaluates."""

    def __init__(self, cfg, names):
        self.node = cfg["node"]
        self.known = frozenset(cfg["known"])
        self.others = [n for n in names if n != self.node and n not in self.known]
        self.maxp, self.iters, self.patience = cfg["max"], cfg["iters"], cfg["patience"]
        self.tabu = cfg["opt"] == "tabu"
        self.length = cfg.get("length") if cfg.get("length") is not None else len(self.others)
        self.duration = cfg.get("duration") if cfg.get("duration") is not None else len(self.others)
        self.cur, self.best = self.known, None
        self.moves = self.bad = self.count = 0
        self.queue = []

    def stuck(self):
        return not self.others or (self.maxp is not None and len(self.known) >= self.maxp)

    def over(self):
        return self.stuck() or self.moves >= self.iters or (self.patience is not None and self.bad > self.patience)

    def candidates(self):
        if not self.tabu:
            return list(self.others)
        free = [c for c in self.others if c not in self.queue]
        return free if free else self.queue[:1]

    def moved(self, c):
        """The families that trying candidate c can lead to."""
        if c in self.cur:
            return [self.cur - {c}]
        if self.maxp is not None and len(self.cur) >= self.maxp:
            return [self.cur - {r} | {c} for r in self.cur - self.known]
        return [self.cur | {c}]

    def allowed(self):
        return {f for c in self.candidates() for f in self.moved(c)}

    def step(self, fam, score):
        """Advance by one evaluated family; fails when the family is not allowed."""
        if self.best is None:
            if fam != self.known:
                fail("the search on %s starts from %s instead of the known parents %s" % (
                    self.node, sorted(fam), sorted(self.known)))
            self.best = score
            return
        if self.over():
            fail("family %s of %s is tried after the search should have ended (%d moves, %d in a row without improvement)" % (
                sorted(fam), self.node, self.moves, self.bad))
        cs = [c for c in self.candidates() if fam in self.moved(c)]
        if not cs:
            why = ""
            if self.tabu:
                why = " (tabu: %r)" % (self.queue,)
            fail("move from %s to %s is not allowed for %s with known %s, max_parents %r%s" % (
                sorted(self.cur), sorted(fam), self.node, sorted(self.known), self.maxp, why))
        c = cs[0]
        if self.tabu and c in self.queue:
            self.queue.remove(c)
        self.moves += 1
        if score > self.best:
            self.best, self.cur, self.bad = score, fam, 0
        else:
            self.bad += 1
        if self.tabu:
            self.queue.append(c)
            if len(self.queue) > self.length:
                self.queue.pop(0)
            self.count += 1
            if self.count % self.duration == 0:
                self.queue[:1] = []
                self.count = 0

    def end(self, edges):
        got = sorted(tuple(e) for e in edges)
        exp = sorted((p, self.node) for p in self.cur)
        if got != exp:
            fail("the search on %s returns %s instead of its best family %s" % (self.node, got, exp))
        if self.best is None:
            if not self.stuck() and self.iters > 0:
                fail("the search on %s ended without evaluating anything" % self.node)
        elif not self.over():
            fail("the search on %s ended after %d moves of %d, %d in a row without improvement (patience %r)" % (
                self.node, self.moves, self.iters, self.bad, self.patience))


def silent(models, scores):
    """A search may keep the scores it computed: the states reachable by moves to families already evaluated."""
    out, todo = {}, list(models)
    while todo:
        m = todo.pop()
        key = (m.cur, m.best, m.moves, m.bad, tuple(m.queue), m.count)
        if key in out:
            continue
        out[key] = m
        if m.best is None or m.over():
            continue
        for fam in m.allowed():
            if fam in scores:
                c = copy.copy(m)
                c.queue = list(m.queue)
                c.step(fam, scores[fam])
                todo.append(c)
    return list(out.values())


def judge_memo(cfg, names, trace, edges):
    """As Model, when the search does not evaluate a family twice: some choice of unseen moves must explain the trace."""
    scores, models = {}, [Model(cfg, names)]
    for fam, s in trace:
        after, why = [], None
        for m in silent(models, scores):
            c = copy.copy(m)
            c.queue = list(m.queue)
            try:
                c.step(fam, s)
                after.append(c)
            except Violation as e:
                why = e
        if not after:
            raise why
        models = after
        scores[fam] = s
    why = None
    for m in silent(models, scores):
        try:
            m.end(edges)
            return
        except Violation as e:
            why = e
    raise why


_memo = {}


def keeps_scores(opt):
    """Whether the search draws moves without evaluating them again: then it keeps the scores of the families it has seen."""
    if opt not in _memo:
        seen = []
        for iters in (2, 8):
            est = Oracle(lib.sample_path(tiny(3)))
            trace = []
            est.answer = lambda fam, node: trace.append(fam) or -float(len(fam))
            with rnd.controlled(rnd.Control(Constant(0))) as c:
                call(est, {"node": "A", "max": None, "iters": iters, "patience": None, "opt": opt})
            seen.append((len(trace), len(set(trace)), len(c.draws)))
        (a, da, na), (b, db, nb) = seen
        _memo[opt] = b == db and nb > na and b < 9
    return _memo[opt]


def call(est, cfg):
    return est.estimate_parents(cfg["node"], cfg["max"], cfg["iters"], cfg["patience"], cfg.get("length"),
                                cfg.get("duration"), cfg["opt"])


def explore_config(cfg, rep, check_draws=True, cap=400000, judge=None):
    """All executions of one search configuration.  judge(cfg, trace, edges), if given, replaces the full model check."""
    names = NAMES[:cfg["n"]]
    ds = tiny(cfg["n"])
    sp = lib.sample_path(ds)
    est = Oracle(sp, known_edges=[(k, cfg["node"]) for k in cfg["known"]] + [tuple(e) for e in cfg.get("more", [])])
    nexts = {}
    st = Stats()
    # improvements that are large, tiny, and tiny next to the score
    base, unit = ((0.0, 1.0), (0.0, 2.0 ** -30), (-300000.0, 2.0 ** -25))[sum(map(ord, repr(sorted(cfg.items())))) % 3]

    def execute(ch):
        table, trace = {}, []
        best = [0.0]

        def answer(fam, node):
            if node != cfg["node"]:
                fail("a family of %s is scored while searching the parents of %s" % (node, cfg["node"]))
            if fam not in table:
                if not table:
                    table[fam] = best[0] = base
                else:
                    table[fam] = best[0] + (-unit, unit, 0.0)[ch.choose(3)]
            s = table[fam]
            best[0] = max(best[0], s)
            trace.append((fam, s))
            return s
        est.answer = answer
        with rnd.controlled(rnd.Control(ch)):
            edges = call(est, cfg)
        return trace, edges

    for taken, (trace, edges) in explore(execute, stats=st, max_executions=cap):
        rep.n("traces")
        rep.n("transitions", len(trace))
        if judge is not None:
            judge(cfg, trace, edges)
            rep.state((cfg["node"], tuple(trace), cfg["max"], tuple(cfg["known"])))
            continue
        if keeps_scores(cfg["opt"]):
            judge_memo(cfg, names, trace, edges)
            rep.n("traces_of_a_search_that_keeps_scores")
            continue
        m = Model(cfg, names)
        pre = ()
        for fam, s in trace:
            if m.best is not None and not m.over():
                if pre not in nexts:
                    nexts[pre] = (m.allowed(), set())
                nexts[pre][1].add(fam)
            m.step(fam, s)
            pre = pre + ((fam, s),)
            rep.state((m.cur, m.best, m.moves, m.bad, tuple(m.queue), m.maxp, m.patience, m.known))
        m.end(edges)
    rep.n("diverged", st.diverged)
    rep.n("bounded", st.bounded)
    rep.top("choice_points", st.maxdepth)
    if check_draws and judge is None and not st.bounded and not st.diverged:
        for pre, (allowed, seen) in nexts.items():
            if allowed != seen:
                fail("after %s the candidates for %s can only lead to %s instead of %s" % (
                    [(sorted(f), s) for f, s in pre], cfg["node"], sorted(map(sorted, seen)), sorted(map(sorted, allowed))))
            rep.n("draw_sets_compared")


class Around(object):
    """Draws near a fixed sequence: the explorer's alternative 0 is what the sequence says."""

    def __init__(self, ch, start, step):
        self.ch, self.at, self.by, self.trace = ch, start, step, []

    def choose(self, n):
        self.at += self.by
        return (self.at // 3 + self.ch.choose(n)) % n


def explore_line(cfg, rep, score, judge=None):
    """A long search on fixed scores: one sequence of draws and every alternative to each of its draws."""
    names = NAMES[:cfg["n"]]
    sp = lib.sample_path(tiny(cfg["n"]))
    est = Oracle(sp, known_edges=[(k, cfg["node"]) for k in cfg["known"]])
    st, line, nexts = Stats(), None, {}

    def execute(ch):
        trace = []

        def answer(fam, node):
            s = cfg["base"] + cfg["unit"] * score(fam, node)
            trace.append((fam, s))
            return s
        est.answer = answer
        with rnd.controlled(rnd.Control(Around(ch, *cfg["line"]))):
            edges = call(est, cfg)
        return trace, edges
    for taken, (trace, edges) in explore(execute, deviations=1, stats=st):
        rep.n("traces")
        rep.n("transitions", len(trace))
        if judge is not None:
            judge(cfg, trace, edges)
            rep.state((cfg["node"], tuple(trace), cfg["max"], tuple(cfg["known"])))
            continue
        if keeps_scores(cfg["opt"]):
            judge_memo(cfg, names, trace, edges)
            continue
        m = Model(cfg, names)
        line = line or trace
        same = True
        for i, (fam, s) in enumerate(trace):
            if same and i and not m.over():
                nexts.setdefault(i, (m.candidates(), [m.moved(c) for c in m.candidates()], set()))[2].add(fam)
            same = same and i < len(line) and line[i] == (fam, s)
            m.step(fam, s)
            rep.state((m.cur, m.best, m.moves, m.bad, tuple(m.queue), m.maxp, m.patience, m.known))
        m.end(edges)
    for i, (cands, moves, seen) in nexts.items():
        for c, fams in zip(cands, moves):
            if not seen & set(fams):
                fail("at move %d of the search on %s no draw tries %s, which is a candidate" % (i, cfg["node"], c), seen=sorted(map(sorted, seen)))
        rep.n("draw_sets_compared")
    rep.n("diverged", st.diverged)


def explore_real(ds, cfg, rep, cap=20000, tau=0.1, alpha=1):
    """All draw sequences of one search on real data; the scores are those of the reference."""
    sp = lib.sample_path(ds)
    est = Recorder(sp, tau, alpha, known_edges=[(k, cfg["node"]) for k in cfg["known"]])
    scores = {}
    st = Stats()

    def execute(ch):
        trace = []
        est.note = lambda fam, node, s: trace.append((fam, s))
        with rnd.controlled(rnd.Control(ch)):
            edges = call(est, cfg)
        return trace, edges
    for taken, (trace, edges) in explore(execute, stats=st, max_executions=cap):
        memo = keeps_scores(cfg["opt"])
        m = Model(cfg, ds["names"])
        for fam, s in trace:
            if fam not in scores:
                scores[fam] = ref.score(ds, cfg["node"], fam, tau, alpha)
            if not ref.close(s, scores[fam], 1e-8):
                fail("score of %s given %s during the search is %r instead of %r" % (cfg["node"], sorted(fam), s, scores[fam]))
            if memo:
                continue
            m.step(fam, s)
            rep.state((m.cur, round(m.best, 6), m.moves, m.bad, tuple(m.queue)))
        if memo:
            judge_memo(cfg, ds["names"], trace, edges)
        else:
            m.end(edges)
        if trace:
            final = frozenset(p for p, _ in edges)
            if any(scores[f] > scores[final] + 1e-7 for f, _ in trace):
                fail("the search on %s returns %s although it evaluated a better family" % (cfg["node"], sorted(final)))
        rep.n("traces")
        rep.n("real_data_traces")
        rep.n("transitions", len(trace))
    rep.n("diverged", st.diverged)
    rep.n("bounded", st.bounded)
