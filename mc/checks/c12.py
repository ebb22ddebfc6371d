"""C12: every sequence of independence queries on one estimator against a fresh estimator per query; cache histories."""
import itertools

from mc import lib, ref
from mc.core import fail

ID = "C12"
RULE = ("a trace is one sequence of independence queries on one estimator, each answer compared with that of an estimator that was "
        "asked nothing else; or one history of put/find/clear on the cache compared with a dictionary; a state is a distinct (data "
        "set, set of queries asked so far)")
BOUNDS = {"quick": "3 variables: all 12 queries, every sequence of 3 on 14 data sets (6 of them sparse); 4 variables: all 48 queries, every "
                   "sequence of 2, every sequence of 3 among the queries of two children; histories of 60 and 144 queries in "
                   "12 orders, of 340 queries on 5 variables in 3, of 620 on 6 variables; labels that run into one another (A, B, AB, \"A,B\"); cache: every history of 5 operations, 4 keys, and histories with up to 300 keys",
          "thorough": "sequences of 4 on all 3-variable data sets, of 3 on 4 variables, cache histories of 7"}
ASSUMPTIONS = ["a fresh estimator's answer is the right one (that is C11)"]

SETS = [((2, 2, 2), 200, 3, 0, (0.1, 0.1)), ((2, 2, 2), 90, 7, 0, (0.4, 0.1)), ((2, 3, 2), 200, 5, 0, (0.1, 0.1)),
        ((3, 2, 3), 300, 3, 25, (0.1, 0.2)), ((3, 3, 2), 120, 9, 4, (0.05, 0.3)), ((2, 2, 3), 400, 11, 2, (0.5, 0.5)),
        ((2, 4, 2), 150, 3, 1, (0.1, 0.1)), ((3, 3, 3), 700, 13, 10, (0.1, 0.1)),
        # sparse data: states left once or never
        ((2, 2, 2), 10, 3, 0, (0.3, 0.3)), ((2, 2, 2), 16, 5, 0, (0.1, 0.1)), ((2, 3, 2), 14, 7, 0, (0.2, 0.2)),
        ((3, 2, 2), 24, 3, 0, (0.5, 0.1)), ((2, 2, 2), 7, 9, 0, (0.1, 0.1)), ((2, 2, 3), 40, 3, 0, (0.1, 0.5))]


ODD = ["A", "B", "AB", "BA", "ABA", "A,B", "B,A", "A B", "1", "11", "111", "12"]       # labels that run into one another


def cases(tier):
    big = tier == "thorough"
    for k in range(len(SETS)):
        for first in range(12):
            yield {"set": k, "n": 3, "depth": 4 if big else 3, "first": first}
    for k, cards in enumerate([(2, 3, 2, 2), (2, 2, 3, 3)]):
        for first in range(48):
            yield {"set": k, "n": 4, "cards": cards, "depth": 3 if big else 2, "first": first}
    for first in range(24):
        yield {"set": 0, "n": 4, "cards": (2, 2, 2, 2), "depth": 3, "first": first, "children": [0, 2]}
    # long histories: every query, again and again, in several orders
    for k in range(len(SETS)):
        for step in (1, 5, 7, 11):
            yield {"set": k, "n": 3, "walk": 60, "step": step}
    for k, cards in enumerate([(2, 3, 2, 2), (2, 2, 3, 3)]):
        for step in (1, 5, 7, 11, 17, 23, 31, 47):
            yield {"set": k, "n": 4, "cards": cards, "walk": 144, "step": step}
    for keys in (30, 70, 130, 300):
        for stride in (1, 3, 7):
            yield {"cachelong": keys, "stride": stride}
            yield {"cachelong": keys, "stride": stride, "names": ODD}
    for names in (["A", "B", "AB"], ["B", "AB", "A"], ["1", "11", "111"], ["x,y", "x", "y"], ["a b", "a", "b"]):
        for k in (0, 2, 5):
            for step in (1, 5, 7):
                yield {"set": k, "n": 3, "walk": 60, "step": step, "names": names}
    for names in (["A", "B", "AB", "BA"], ["A", "B", "C", "A,B"], ["1", "2", "12", "21"]):
        for step in (1, 11, 31):
            yield {"set": 0, "n": 4, "cards": (2, 3, 2, 2), "walk": 144, "step": step, "names": names}
    for step in (1, 77, 113):     # five variables: 160 queries on 80 families, twice
        yield {"set": 0, "n": 5, "cards": (2, 2, 3, 2, 2), "walk": 340, "step": step}
    for step in (1, 77, 113):     # six variables: separating sets of up to four
        yield {"set": 0, "n": 6, "cards": (2, 2, 3, 2, 2, 2), "walk": 620, "step": step}
    for first in range(9):
        yield {"cache": 7 if big else 5, "first": first}


def queries(names):
    for child in names:
        for parent in names:
            if parent != child:
                for sep in ref.subsets([x for x in names if x not in (parent, child)]):
                    yield (parent, child, tuple(sep))


_MEM = {}


def setup(case):
    key = (case["set"], case["n"], str(case.get("names")))
    if key not in _MEM or case.get("cards") and _MEM[key][0]["cards"] != list(case["cards"]):
        _MEM.clear()
        if case["n"] == 3:
            cards, length, mult, thr, lv = SETS[case["set"]]
        else:
            cards, length, mult, thr, lv = case["cards"], 500, 5 + case["set"], 2, (0.2, 0.2)
        if case["set"] % 2:
            ds = ref.coupled(list(cards), length, mult, cut=(20,) if length > 40 else (length // 2,))
        else:
            ds = ref.walk(list(cards), length=length, mult=mult, cut=(20,) if length > 40 else (length // 2,))
        if case.get("names"):
            ds = dict(ds, names=list(case["names"]))
        sp = lib.sample_path(ds)
        _MEM[key] = (ds, sp, thr, lv, {})
    return _MEM[key]


def ask(est, ds, q):
    parent, child, sep = q
    n = ds["names"]
    arg = list(sep)
    r = bool(est.complete_test(parent, child, arg, ds["cards"][n.index(child)], len(n), n.index(parent), n.index(child)))
    if arg != list(sep):
        fail("the list given as separating set was changed from %s to %s" % (list(sep), arg))
    return r


def new(sp, thr, lv):
    return lib.StructureConstraintBasedEstimator(sp, lv[0], lv[1], thumb_threshold=thr)


def run(case, rep):
    if "cache" in case:
        return cache(case, rep)
    if "cachelong" in case:
        return cache_long(case, rep)
    ds, sp, thr, lv, fresh = setup(case)
    qs = list(queries(ds["names"]))
    if case.get("children"):
        qs = [q for q in qs if ds["names"].index(q[1]) in case["children"]]
    if not fresh:
        for q in queries(ds["names"]):
            fresh[q] = ask(new(sp, thr, lv), ds, q)
    if "walk" in case:
        est = new(sp, thr, lv)
        for i in range(case["walk"]):
            q = qs[(i * case["step"] + i // len(qs)) % len(qs)]
            got = ask(est, ds, q)
            rep.n("transitions")
            rep.state((case["set"], case["n"], case["step"], i))
            if got != fresh[q]:
                fail("after %d queries (step %d), %s and %s given %s are judged %s; a fresh estimator says the opposite" % (
                    i, case["step"], q[0], q[1], list(q[2]), "independent" if got else "dependent"), dataset=ds, levels=lv, thr=thr)
        rep.n("traces")
        return
    first = qs[case["first"] % len(qs)]
    rep.sample({"cards": ds["cards"], "first": first, "queries": len(qs), "answers_true": sum(fresh.values())})
    for rest in itertools.product(qs, repeat=case["depth"] - 1):
        est = new(sp, thr, lv)
        seq = (first,) + rest
        for i, q in enumerate(seq):
            got = ask(est, ds, q)
            rep.n("transitions")
            if got != fresh[q]:
                fail("after the queries %s, %s and %s given %s are judged %s; a fresh estimator says the opposite" % (
                    seq[:i], q[0], q[1], list(q[2]), "independent" if got else "dependent"), dataset=ds, levels=lv, thr=thr)
        rep.state((case["set"], case["n"], frozenset(seq)))
        rep.n("traces")


def key(child, parents):
    """The key of a family, in the first form the cache takes."""
    for k in ((child, set(parents)), (child, frozenset(parents)), frozenset([child + "<-"] + list(parents))):
        try:
            c = lib.Cache()
            c.find(k)
            c.put(k, None)
            c.find(k)
            return k
        except TypeError:
            pass
    fail("the cache takes no key for a family")


def cache_long(case, rep):
    """Many families stored: each looked up gives its own entry or nothing, before and after clearing."""
    n, step = case["cachelong"], case["stride"]
    names = case.get("names") or ["V%d" % i for i in range(12)]
    fams = [(c, frozenset(s)) for s in ref.subsets(names[1:], 0, 3) for c in names if c not in s][:n]
    c = lib.Cache()
    for rnd in range(2):
        model = {}
        for i in range(0, n * step, step):
            child, s = fams[i % len(fams)]
            if (child, s) in model:
                continue
            model[(child, s)] = object()
            c.put(key(child, s), model[(child, s)])
            if i % 5 == 0 or i > n * step - 20:
                for (ch, ps), v in model.items():
                    got = c.find(key(ch, ps))
                    rep.n("transitions")
                    if got is not None and got is not v:
                        fail("with %d families stored, looking up %s given %s gives the entry of another family" % (
                            len(model), ch, sorted(ps)))
        c.clear()
        for child, s in fams:
            if c.find(key(child, s)) is not None:
                fail("after clearing, %s given %s is still found" % (child, sorted(s)))
    rep.state(("cachelong", n, step))
    rep.n("traces")


def cache(case, rep):
    keys = [lambda: key("A", {"B"}), lambda: key("B", {"A"}), lambda: key("A", {"B", "C"}), lambda: key("A", set())]
    ops = [("put", i) for i in range(4)] + [("find", i) for i in range(4)] + [("clear", None)]
    for rest in itertools.product(range(9), repeat=case["cache"] - 1):
        seq = [ops[case["first"]]] + [ops[k] for k in rest]
        c = lib.Cache()
        model = {}
        for n, (op, i) in enumerate(seq):
            if op == "put":
                if i in model:       # the library never stores a second entry for a key
                    continue
                model[i] = object()
                c.put(keys[i](), model[i])
            elif op == "clear":
                c.clear()
                model.clear()
            else:
                got = c.find(keys[i]())
                rep.n("transitions")
                if got is not model.get(i):
                    fail("after %s, looking up %s gives %s" % (seq[:n], keys[i](), "nothing" if got is None else "another entry"))
        for i in range(4):
            if c.find(keys[i]()) is not model.get(i):
                fail("after %s, looking up %s gives a wrong entry" % (seq, keys[i]()))
        rep.state(("cache", tuple(sorted(model))))
        rep.n("traces")
