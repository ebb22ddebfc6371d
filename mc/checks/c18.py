"""C18: sampled trajectories are well formed and stop where asked, under every sequence of draws."""
from mc import ref, sampling
from mc.core import fail
from mc.explore import Chooser, Stats, explore

ID = "C18"
RULE = ("a trace is one sampled trajectory under one sequence of draws (dwell multiples, jump targets) and one stopping rule; the same "
        "draws are replayed with every smaller max_tr and with a t_end in every gap and at every change; a state is a distinct "
        "trajectory prefix")
BOUNDS = {"quick": "every graph of 1-3 variables, mixed cardinalities 2-4, chosen graphs of 4-5 variables with up to 4 parents; dwell "
                   "multiples {1, 1/2, 3}, all jumps; 4 changes for 1-2 variables (all draws for 1, at most 2 non-default for 2), 3 changes "
                   "with at most 1 non-default draw for 3 variables; two successive samples on one generator; "
                   "4 time scales from 0.01 to 40000; trajectories of 300 changes under 6 fixed sequences of draws, 1-8 and 11 variables",
          "thorough": "one more change and one more non-default draw; all graphs of 4 variables"}
ASSUMPTIONS = ["every state has a positive exit intensity", "times are rounded to four decimals"]
MENU = (1.0, 0.5, 3.0)


def cases(tier):
    big = tier == "thorough"
    for cards in ((2,), (3,), (4,)):
        yield {"cards": cards, "edges": [], "k": 4 if big else 3, "dev": None if big or cards[0] < 4 else 4}
    for cards in ((2, 2), (2, 3), (3, 2), (4, 2)):
        for e in ref.subsets([(0, 1), (1, 0)]):
            yield {"cards": cards, "edges": e, "k": 5 if big else 4, "dev": 3 if big else 2}
    pr = [(a, b) for a in range(3) for b in range(3) if a != b]
    for cards in ((2, 3, 2), (3, 2, 4), (2, 2, 2)):
        for e in ref.subsets(pr):
            yield {"cards": cards, "edges": e, "k": 4 if big else 3, "dev": 2 if big else 1}
    for cards, e in [((2, 3, 2, 2), [(1, 0), (2, 0), (3, 0)]), ((2, 3, 4, 2), [(3, 1), (2, 1), (0, 1), (1, 0), (1, 2)]),
                     ((3, 2, 2, 2, 2), [(1, 0), (2, 0), (3, 0), (4, 0), (0, 4)]), ((2, 2, 3, 2), [(0, 1), (1, 2), (2, 3), (3, 0)]),
                     ((11, 2, 2), [(0, 1), (2, 1), (1, 0)])]:
        yield {"cards": cards, "edges": e, "k": 3, "dev": 2 if big else 1}
    for scale in (0.0123, 3.3377, 71.7731, 40963.717):
        for cards, e in [((2,), []), ((3,), []), ((2, 2), [(0, 1)]), ((2, 3), [(0, 1), (1, 0)]), ((3, 2, 2), [(0, 1), (1, 2)])]:
            yield {"cards": cards, "edges": e, "k": 4, "dev": 3 if big else 2 if len(cards) < 3 else 1, "scale": scale}
    for c in range(len(sampling.CYCLES)):
        for cards, e in [((2,), []), ((3, 2), [(0, 1), (1, 0)]), ((3, 2, 2, 3), [(0, 1), (1, 2), (3, 2), (2, 0)]),
                         ((2, 3, 2, 2, 2, 2, 2, 2), [(1, 0), (2, 0), (7, 1), (6, 5), (5, 6), (4, 7), (0, 4)]),
                         ((2, 3, 2, 2, 2, 2, 2, 2, 2, 3, 2), [(1, 0), (2, 0), (7, 1), (6, 5), (5, 6), (4, 7), (0, 4), (10, 9), (9, 10), (8, 3)])]:
            yield {"cards": cards, "edges": e, "k": 1200 if big else 300, "cycle": c}
    if big:
        for e in ref.subsets([(a, b) for a in range(4) for b in range(4) if a != b]):
            yield {"cards": (2, 3, 2, 2), "edges": e, "k": 3, "dev": 1}


def long(case, net, rep):
    """one long trajectory, asked for with many smaller max_tr and t_end under the same draws"""
    names, cards, K = net.names, net.cards, case["k"]
    before = net.snapshot()
    gen = net.generator()

    def sample(**kw):
        f, _ = sampling.play(gen, sampling.Cycle(*sampling.CYCLES[case["cycle"]]), MENU, **kw)
        tr = sampling.rows(f, names)
        sampling.well_formed(names, cards, tr, " (%s)" % kw)
        rep.n("transitions", len(tr))
        rep.n("traces")
        rep.state(tuple((t, tuple(s)) for t, s in tr))
        return tr
    tr = sample(max_tr=K + 1)
    if len(tr) != K + 2:
        fail("with max_tr=%d the trajectory has %d rows" % (K + 1, len(tr)))
    for k in (1, 2, 9, 10, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, K - 1, K):
        got = sample(max_tr=k)
        if got[:-1] != tr[:k] or got[-1] != (tr[k][0], [-1] * len(names)):
            fail("with max_tr=%d the same draws give %s; with max_tr=%d they give %s" % (k, got[-3:], K + 1, tr[k - 3:k + 1]))
    times = [t for t, _ in tr[:-1]]
    for k in range(1, K, 37):
        if times[k] > times[k - 1] + 4e-4:
            for te in (times[k - 1] + 2e-4, times[k] - 2e-4):
                got = sample(t_end=te)
                if got != tr[:k - 1] + [(times[k - 1], [-1] * len(names))]:
                    fail("with t_end=%r the same draws give %s instead of %s" % (te, got[-3:], tr[k - 3:k]))
    if net.snapshot() != before:
        fail("sampling altered the network")
    rep.top("rows", len(tr))


def run(case, rep):
    net = sampling.Net(case["cards"], [tuple(e) for e in case["edges"]], exact=True)
    if "cycle" in case:
        return long(case, net, rep)
    names, cards, K = net.names, net.cards, case["k"]
    before = net.snapshot()
    gen = net.generator()
    scale = case.get("scale")
    menu = MENU if scale is None else [scale * (m + 0.0371 * i) for i, m in enumerate(MENU)]
    st = Stats()

    def sample(prefix, **kw):
        ch = prefix if isinstance(prefix, Chooser) else Chooser(prefix)
        f, _ = sampling.play(gen, ch, menu, **kw)
        tr = sampling.rows(f, names)
        sampling.well_formed(names, cards, tr, " (%s)" % kw)
        rep.n("transitions", len(tr))
        rep.n("traces")
        rep.state(tuple((t, tuple(s)) for t, s in tr))
        return tr

    def execute(ch):
        return sample(ch, max_tr=K + 1)
    for taken, tr in explore(execute, deviations=case["dev"], stats=st):
        if len(tr) != K + 2:
            fail("with max_tr=%d the trajectory has %d rows" % (K + 1, len(tr)), rows=tr)
        times = [t for t, _ in tr[:-1]]              # of the K changes that are visible, after the start
        for k in range(1, K + 1) if sum(map(bool, taken)) < 2 else [1 + len(taken) % K]:
            got = sample(taken, max_tr=k)
            if got[:-1] != tr[:k] or got[-1] != (tr[k][0], [-1] * len(names)):
                fail("with max_tr=%d the same draws give %s; with max_tr=%d they give %s" % (k, got, K + 1, tr))
        ends = [(a + b) / 2 for a, b in zip(times, times[1:]) if b > a] + times[1:]
        if scale is not None:           # rounding: stay clear of the changes themselves
            ends = [x for a, b in zip(times, times[1:]) if b > a + 0.004 for x in (a + 0.001, (a + b) / 2, b - 0.001)]
        if sum(map(bool, taken)) >= 2:
            ends = ends[len(taken) % 2::2]
        for te in ends:
            got = sample(taken, t_end=te)
            keep = [r for r in tr[:-1] if r[0] < te]
            exp = keep[:-1] + [(keep[-1][0], [-1] * len(names))]
            if got != exp:
                fail("with t_end=%r the same draws give %s instead of %s" % (te, got, exp))
    if st.diverged:
        fail("the same draws do not give the same trajectory", diverged=st.diverged)
    if net.snapshot() != before:
        fail("sampling altered the network")
    if case["dev"] is not None:
        rep.n("beyond_deviation_bound", st.bounded)
    rep.top("draws", st.maxdepth)
    rep.sample({"cards": cards, "edges": net.edges, "executions": st.executions, "last": tr})
