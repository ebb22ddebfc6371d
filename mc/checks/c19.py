"""C19: the draws of the sampler decoded against the intensity matrices, under every sequence of draws."""
from mc import ref, sampling
from mc.core import fail
from mc.explore import Stats, explore

ID = "C19"
RULE = ("a trace is one sampled trajectory under one sequence of draws; every state of every variable under every configuration has its "
        "own exit intensity, so each exponential draw is decoded to the (variable, parents' states, state) it was made for; which clock "
        "runs out, when, and the jump probabilities are recomputed from the matrices; a state is a distinct (network, joint state, "
        "remaining clocks)")
BOUNDS = {"quick": "every graph of 1-3 variables, mixed cardinalities 2-4, chosen graphs of 4-5 variables with up to 4 parents; dwell "
                   "multiples {1, 0.23, 3.1}, all jumps; 4 changes, with at most 3 non-default draws for 1-2 variables and 1-2 for more; 4 time "
                   "scales from 0.01 to 40000, intensities from 5e-6 to 50000; 300 changes under 6 fixed sequences of draws, "
                   "1-8 and 11 variables; labels that run into one another",
          "thorough": "one more change and non-default draw, all graphs of 4 variables"}
ASSUMPTIONS = ["every state has a positive exit intensity",
               "drawing a clock anew more often than needed is not held against the sampler (an exponential clock has no memory)"]
MENU = (1.0, 0.23, 3.1)


LABELS = [["X1", "X11", "X111", "X", "1", "11", "X 1", "x1", "X10", "10", "x11"], ["the first one", "first one", "one", "the first", "o", "n", "e", "the", "first", "t", "on"],
          ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"], ["Time2", "index", "Name", "From", "To", "Value", "a,b", "b", "a", "from", "None"]]


def cases(tier):
    big = tier == "thorough"
    for cards in ((2,), (3,), (4,), (5,)):
        yield {"cards": cards, "edges": [], "k": 4, "dev": None if cards[0] < 4 and big else 3}
    for cards in ((2, 2), (2, 3), (3, 2), (4, 2), (3, 4)):
        for e in ref.subsets([(0, 1), (1, 0)]):
            for o in ([0, 1], [1, 0]) if len(e) == 2 else ([0],):
                yield {"cards": cards, "edges": e, "order": o if e else None, "k": 5 if big else 4, "dev": 4 if big else 3 if cards in ((2, 3), (3, 2)) else 2}
    pr = [(a, b) for a in range(3) for b in range(3) if a != b]
    for cards in ((2, 3, 2), (3, 2, 4), (2, 2, 2), (2, 4, 3)):
        for i, e in enumerate(ref.subsets(pr)):
            yield {"cards": cards, "edges": e, "order": list(range(len(e)))[::-1] if i % 2 else None, "k": 5 if big else 4,
                   "dev": 3 if big else 2 if (cards == (2, 3, 2)) == (i % 2 == 0) and cards in ((2, 3, 2), (3, 2, 4)) else 1}
    for cards, e in [((2, 3, 2, 2), [(1, 0), (2, 0), (3, 0)]), ((2, 3, 4, 2), [(3, 1), (2, 1), (0, 1), (1, 0), (1, 2)]),
                     ((3, 2, 2, 2, 2), [(4, 0), (2, 0), (3, 0), (1, 0), (0, 4)]), ((2, 2, 3, 2), [(0, 1), (1, 2), (2, 3), (3, 0)]),
                     ((11, 2, 2), [(2, 1), (0, 1), (1, 0)]), ((2, 12, 3), [(2, 0), (1, 0), (0, 1), (0, 2)])]:
        yield {"cards": cards, "edges": e, "order": None, "k": 5, "dev": 3 if big else 2}
    for scale in (0.0123, 3.3377, 71.7731, 40963.717):
        for cards, e in [((2,), []), ((3,), []), ((2, 2), [(0, 1)]), ((2, 3), [(0, 1), (1, 0)]), ((3, 2, 2), [(0, 1), (1, 2)])]:
            yield {"cards": cards, "edges": e, "order": None, "k": 5, "dev": 3 if big else 2, "scale": scale}
    for unit in (1e-5, 1e-3, 0.02, 50.0, 1e4):
        for cards, e in [((3,), []), ((2, 3), [(0, 1), (1, 0)]), ((3, 2, 2), [(0, 1), (1, 2)]), ((2, 4, 2), [(0, 1), (2, 1)])]:
            yield {"cards": cards, "edges": e, "order": None, "k": 5, "dev": 3 if big else 2 if len(cards) < 3 else 1, "unit": unit,
                   "scale": max(1.0, unit)}
    for c in range(len(sampling.CYCLES)):
        for k, (cards, e) in enumerate([((2,), []), ((3, 2), [(0, 1), (1, 0)]), ((3, 2, 2, 3), [(0, 1), (1, 2), (3, 2), (2, 0)]),
                                        ((2, 3, 2, 2, 2, 2, 2, 2), [(1, 0), (2, 0), (7, 1), (6, 5), (5, 6), (4, 7), (0, 4), (7, 0)]),
                                        ((2, 3, 2, 2, 2, 2, 2, 2, 2, 3, 2),
                                         [(1, 0), (2, 0), (7, 1), (6, 5), (5, 6), (4, 7), (0, 4), (10, 9), (9, 10), (8, 3)])]):
            yield {"cards": cards, "edges": e, "order": None, "k": 1200 if big else 300, "cycle": c, "labels": (c + k) % len(LABELS)}
    for lab in range(len(LABELS)):
        for cards, e in [((2, 3, 2), [(0, 1), (1, 2), (2, 0)]), ((2, 2, 3), [(0, 1), (0, 2)]), ((3, 2, 2, 2, 2, 2), [(0, 5), (5, 2), (3, 4), (1, 5)])]:
            yield {"cards": cards, "edges": e, "order": None, "k": 4, "dev": 2 if big else 1, "labels": lab}
    if big:
        for i, e in enumerate(ref.subsets([(a, b) for a in range(4) for b in range(4) if a != b])):
            yield {"cards": ((2, 3, 2, 2), (3, 2, 4, 2))[i % 2], "edges": e, "order": list(range(len(e)))[::-1], "k": 4, "dev": 2}


def run(case, rep):
    net = sampling.Net(case["cards"], [tuple(e) for e in case["edges"]], edge_order=case.get("order"), unit=case.get("unit", 1.0),
                       names=LABELS[case["labels"]] if "labels" in case else None)
    gen = net.generator()
    if "cycle" in case:
        f, draws = sampling.play(gen, sampling.Cycle(*sampling.CYCLES[case["cycle"]]), MENU, max_tr=case["k"] + 1)
        sampling.follows(net, sampling.rows(f, net.names), draws, rep)
        rep.n("traces")
        return
    st = Stats()

    def execute(ch):
        f, draws = sampling.play(gen, ch, [case.get("scale", 1) * m for m in MENU], max_tr=case["k"] + 1)
        return sampling.rows(f, net.names), draws
    for taken, (tr, draws) in explore(execute, deviations=case["dev"], stats=st):
        sampling.follows(net, tr, draws, rep)
        rep.n("traces")
    rep.n("diverged", st.diverged)
    rep.n("beyond_deviation_bound", st.bounded)
    rep.top("draws", st.maxdepth)
    rep.sample({"cards": net.cards, "edges": net.edges, "executions": st.executions, "last": tr})
