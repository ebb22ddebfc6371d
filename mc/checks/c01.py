"""C01: sufficient statistics of every family of every data set of the bounded space, against the row-by-row count."""
import itertools

from mc import lib, ref
from mc.core import fail

ID = "C01"
RULE = ("a trace is a history of observations appended row by row (any joint state to any joint state, interval k lasting "
        "2^k/8, trajectories closed by -1 or not, several trajectories); it is imported and every family (child, set of "
        "parents) of it is estimated and compared; a state is a distinct reference table")
BOUNDS = {
    "quick": "all histories: 2 variables (2,3) 4 rows; (2,2) two trajectories of up to 3 rows; (3,2) 1 trajectory with up to "
             "3 rows and equal times; 3 variables (2,3,2) 3 rows; 4 variables 2 rows; 64 walks with irregular durations and late times; histories of up "
             "to 250000 rows; up to 40 equal short trajectories in a row; families of up to 7 parents, 4096 configurations and 300 states; plus, for every vector of cardinalities in "
             "{2,3,4}^1..4 and a list with 5 variables and up to 13 states, the data set with every single change of every joint state",
    "thorough": "as quick with one more row for 2 and 3 variables, 3 trajectories of 2 variables, cardinalities {2,3,4,5}^1..4 and {2,3}^5..6"}
ASSUMPTIONS = ["first column is the time, durations are dyadic so that sums are exact and identify the set of intervals"]


def hist(cards, shapes, via, offset=0.0):
    """All data sets with trajectories of the given numbers of rows; the last row may be -1."""
    joint = ref.configs(cards)
    end = [tuple([-1] * len(cards))]
    pools = []
    for k in shapes:
        pools.append([list(h) + [l] for h in itertools.product(joint, repeat=k - 1) for l in end + joint])
    for combo in itertools.product(*pools):
        yield {"kind": "hist", "cards": cards, "rows": combo, "via": via, "offset": offset}


def cases(tier):
    big = tier == "thorough"
    via = itertools.cycle(["sample", "frame", "sample", "json"])
    for n in (1, 2, 3, 4):
        for cards in itertools.product((2, 3, 4, 5) if big else (2, 3, 4), repeat=n):
            yield {"kind": "cover", "cards": cards, "via": next(via), "prior": n == 3}
    for cards in [(11, 2), (2, 12), (13,), (2, 11, 3), (12, 2, 2), (3, 2, 11), (2, 3, 2, 2, 3), (3, 2, 2, 2, 2),
                  (2, 2, 3, 4, 2), (5, 3, 2, 2), (2, 7, 5)]:
        yield {"kind": "cover", "cards": cards, "via": next(via), "prior": False}
    if big:
        for n in (5, 6):
            for cards in itertools.product((2, 3), repeat=n):
                yield {"kind": "cover", "cards": cards, "via": next(via), "prior": False}
    for cards in [(2, 3, 4), (3, 2, 2, 3), (4, 4), (2, 2, 2, 2, 2)]:
        for k in range(12):
            yield {"kind": "walk", "cards": cards, "k": k, "via": next(via)}
    for cards, least in ref.WIDE:
        for fam in ref.wide_families(cards, least):
            yield {"kind": "wide", "cards": cards, "fam": fam, "via": next(via)}
    # durations that are not round, late times, and many repetitions of a history
    for cards in [(2,), (2, 2), (3, 2), (2, 3, 2)]:
        for off in (0.0, 0.1, 98765.4321, 1e7 + 0.3):
            for unit in (0.1, 1.1, 1.0 / 3, 1234.567):
                yield {"kind": "real", "cards": cards, "off": off, "unit": unit, "via": next(via)}
    for cards in [(2, 2), (3, 2)]:
        for times in (200, 4500, 25000) + ((100000,) if big else ()):
            yield {"kind": "long", "cards": cards, "times": times, "via": "sample"}
    # many short trajectories, the same one several times in a row
    for cards in [(2, 2), (3, 2), (2, 3, 2)]:
        for rep_ in (1, 2, 7, 40):
            for via in ("sample", "frame", "json"):
                yield {"kind": "short", "cards": cards, "times": rep_, "via": via}
    for c in hist((2,), [5 if big else 4], "json"):
        yield c
    for c in hist((2, 3), [5 if big else 4], "sample"):
        yield c
    for a, b in [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1)] + ([(3, 3)] if big else []):
        for c in hist((2, 2), [a, b], "frame", 5.0):
            yield c
    for c in hist((2, 3, 2), [3], "sample"):
        yield c
    if big:
        for c in hist((2, 2, 3), [4], "sample"):
            yield c
        for c in hist((2, 2), [2, 2, 3], "sample"):
            yield c
    for c in hist((2, 3, 2, 2), [2], "json"):
        yield c
    # observations at the same time: an interval of no duration still counts its change
    for rows in itertools.product(ref.configs((3, 2)), repeat=3):
        for same in (0, 1):
            yield {"kind": "same", "cards": (3, 2), "rows": rows, "same": same}


def dataset(case):
    cards = list(case["cards"])
    names = ["N%d" % i for i in range(len(cards))]
    if case["kind"] == "cover":
        return ref.covering(cards, names)
    if case["kind"] == "wide":
        return ref.spread(cards, names=names)
    if case["kind"] == "walk":
        k = case["k"]
        return ref.walk(cards, names, length=30 + k, mult=3 + 2 * k, add=k + 1, cut=(7, 8, 19) if k % 2 else ())
    if case["kind"] == "real":
        ds = ref.walk(cards, names, length=60, mult=5, cut=(9, 31))
        ds["trajs"] = [[(case["off"] + case["unit"] * (1.0 + 0.37 * i) * t, v) for t, v in tr] for i, tr in enumerate(ds["trajs"])]
        return ds
    if case["kind"] == "long":
        # a cycle that moves one variable often and the others now and then
        one = [[0] * len(cards)]
        for i in range(9):
            v = 0 if i % 4 else 1
            n = list(one[-1])
            n[v] = (n[v] + 1) % cards[v]
            one.append(n)
        rows = [list(r) for _ in range(case["times"]) for r in one]
        return {"names": names, "cards": cards, "trajs": [[(0.25 * i, r) for i, r in enumerate(rows)]]}
    if case["kind"] == "short":
        trajs = []
        for s in ref.configs(cards):
            for i, c in enumerate(cards):
                n = list(s)
                n[i] = (n[i] + 1) % c
                trajs += [[(0.0, list(s)), (1.5, n), (2.0 + i, [-1] * len(cards))]] * case["times"]
                trajs += [[(0.0, list(s)), (0.75, [-1] * len(cards))]] * (i + 1)
        return {"names": names, "cards": cards, "trajs": trajs}
    if case["kind"] == "same":
        t = [0.0, 0.0, 1.0] if case["same"] == 0 else [0.0, 1.0, 1.0]
        tr = [(a, list(r)) for a, r in zip(t, case["rows"])] + [(t[-1] + 2.0, [-1] * len(cards))]
        return {"names": names, "cards": cards, "trajs": [tr]}
    trajs, k = [], 0
    for rows in case["rows"]:
        t, tr = case["offset"], []
        for r in rows:
            tr.append((t, list(r)))
            t += 2.0 ** k / 8
            k += 1
        trajs.append(tr)
    return {"names": names, "cards": cards, "trajs": trajs}


def run(case, rep):
    ds = dataset(case)
    if not ref.intervals(ds):
        return
    names = ds["names"]
    prior = [(names[0], names[1]), (names[2], names[1])] if case.get("prior") else None
    sp = lib.sample_path(ds, prior, case.get("via", "sample"))
    rep.n("transitions", len(ref.intervals(ds)))
    rep.n("datasets")
    fams = list(lib.families(names))
    if case["kind"] == "cover" and len(names) > 4:
        fams = [f for f in fams if len(f[1]) <= 3]
    if case["kind"] == "wide":
        ci, ps = case["fam"]
        fams = [(names[ci], [names[p] for p in ps])]
    if case["kind"] == "hist":
        rep.sample({"rows": case["rows"], "via": case["via"]}, 1)
    for child, parents in fams:
        edges = [(p, child) for p in parents]
        struct = lib.structure(ds, edges[::-1])
        exp = lib.same_stats(ds, child, parents, lib.estimate(sp, struct, child))
        rep.n("traces")
        rep.state(repr((ds["cards"], sorted(exp.items()))) if case["kind"] != "wide" else repr(case))
        if len(names) > 1 and len(parents) < len(names) - 1:
            sub = lib.sub_structure(ds, set(parents) | {child}, edges)
            lib.same_stats(ds, child, parents, lib.estimate(sp, sub, child), " (structure over the family only)")
            rep.n("traces")
    if prior:
        sofc = lib.estimate(sp, sp.structure, names[1])
        lib.same_stats(ds, names[1], [names[0], names[2]], sofc, " (prior structure)")
        rep.n("traces")
    # the data are read, not consumed: one family again
    child, parents = fams[len(fams) // 2]
    lib.same_stats(ds, child, parents, lib.estimate(sp, lib.structure(ds, [(p, child) for p in parents]), child),
                   " (second time)")
    rep.n("traces")
