"""C06: hill climbing, every draw sequence and every order of the scores."""
from mc import ref, search, wide
from mc.core import fail

ID = "C06"
OPT = "hill"
RULE = ("a trace is one complete search under one sequence of draws and one answer (worse, better or equal to the best so far) "
        "for each newly evaluated family; it is advanced in lockstep with the reference search; a state is a distinct state of the "
        "reference (family, best, moves, failures, tabu list, settings)")
BOUNDS = {"quick": "3 variables: iterations up to 6; 4 variables: iterations 5 (6 for a few settings); 5 variables: 4; 8-13 variables: 2; all known "
                   "sets, max_parents None/0..n, patience None/0..3; plus all draws on 8 real data sets; whole "
                   "networks of 3 to 12 variables and up to 230 iterations, serial and on worker processes (at most one choice away from the default schedule); "
                   "5 to 9 variables and 22 moves with every alternative to each draw of a fixed sequence",
          "thorough": "3 variables: iterations up to 8; 4 variables: 6 (7 for a few settings); 5 variables: 5"}
ASSUMPTIONS = ["scores are compared only with the best score so far, so three answers per new family cover every score function"]


def conf(n, node, known, mx, iters, pat, **kw):
    return dict(kw, n=n, node=node, known=known, max=mx, iters=iters, patience=pat, opt=OPT)


def real(opt):
    for i, cards in enumerate([(2, 2, 2), (2, 3, 2), (3, 2, 2), (3, 3, 2), (2, 2, 2, 2), (2, 3, 2, 4)]):
        for node in range(len(cards)):
            for known in ([], [1]):
                if node in known:
                    continue
                for mx in (None, 1, 2):
                    yield {"real": True, "cards": cards, "node": node, "known": known, "max": mx, "k": i,
                           "iters": 4 if len(cards) == 3 else 3, "patience": 2 if i % 2 else None, "opt": opt,
                           "length": None, "duration": None}


def whole(opt):
    """all variables at once, serially and on worker processes"""
    for c in wide.settings([opt], (3, 4, 5, 6), (None, 0, 1, 3), procs=("serial", None, 2)):
        yield dict(c, iters=9)
    # many candidates, and long searches
    for c in wide.settings([opt], (9, 10, 12), (None, 2, 5), ("large", "mixed"), ("serial",), 60):
        yield c
    for pat in (None, 7, 40):
        for mode in ("large", "mixed", "small"):
            for c in wide.settings([opt], (3, 5), (None, 1, 3), (mode,), ("serial",), 230, pat, ((0, 1), (1, 7), (5, 3))):
                yield c
    for pat in (0, 1, 3):
        for c in wide.settings([opt], (4, 5), (None, 2), ("mixed",), ("serial", None, 3), 9, pat):
            yield c
            if opt == "tabu":
                for ln, du in ((1, 1), (2, 1), (1, 3), (3, 2)):
                    yield dict(c, length=ln, duration=du)


def many(opt):
    """every draw of the first moves among many candidates"""
    N = search.NAMES
    for n, iters in ((8, 2), (10, 2), (13, 2)):
        for known, mx in (([], None), ([], 1), ([N[0]], 2), ([N[2], N[n - 1]], None)):
            yield dict(conf(n, N[1], known, mx, iters, None), opt=opt, length=None, duration=None)


def lines(opt, big):
    """long searches among several candidates, with every alternative to each draw"""
    N = search.NAMES
    for n in (5, 7, 9) + ((11,) if big else ()):
        for known, mx in (([], None), ([N[0]], 3), ([N[2], N[n - 1]], None), ([N[0], N[2], N[3], N[4]][:n - 2], n - 1), ([], n // 2)):
            for k, (ln, du) in enumerate(((None, None), (None, 3), (4, None), (3, 2), (n, 5), (2, n)) if opt == "tabu" else ((None, None),)):
                for pat in (None, 5):
                    i = n + len(known) + k + (pat or 0)
                    yield {"kind": "line", "n": n, "node": N[1], "known": known, "max": mx, "iters": 36 if big else 22, "patience": pat,
                           "opt": opt, "length": ln, "duration": du, "mode": ("large", "mixed", "small")[i % 3], "line": [i, 2 + i % 4],
                           "base": (0.0, -200000.0)[i % 2], "unit": (1.0, 2.0 ** -20)[i // 2 % 2]}


def cases(tier):
    big = tier == "thorough"
    N = search.NAMES
    for n, iters in ((2, (0, 1, 3)), (3, (0, 1, 2, 3, 4, 5, 6) + ((7, 8) if big else ()))):
        for node in N[:n]:
            others = [x for x in N[:n] if x != node]
            for it in iters:
                if node != N[0] and it not in (3, 4):
                    continue
                for known in ref.subsets(others):
                    for mx in (None, 0, 1, 2, 3):
                        for pat in (None, 0, 1, 2, 3):
                            if pat is not None and pat > it:
                                continue
                            yield conf(n, node, known, mx, it, pat)
    for c in real(OPT):
        yield c
    for c in whole(OPT):
        yield c
    for c in many(OPT):
        yield c
    for c in lines(OPT, big):
        yield c
    for node in (N[1],):
        others = [x for x in N[:4] if x != node]
        for known in ref.subsets(others):
            for mx in (None, 1, 2, 3):
                for pat in (None, 0, 1, 2):
                    yield conf(4, node, known, mx, 6 if big else 5, pat)
    for mx, pat in ((None, 1), (2, None)):
        yield conf(4, N[2], [N[0]], mx, 7 if big else 6, pat)
    for known in ([], [N[0]], [N[0], N[4]]):
        for mx in (None, 1, 2, 3):
            yield conf(5, N[2], known, mx, 5 if big else 4, None)


def run(case, rep):
    if case.get("wide"):
        wide.check_scored(case, rep, wide.model_check)
    elif case.get("kind") == "line":
        search.explore_line(case, rep, lambda fam, node: wide.score(case["mode"], fam, node))
    elif case.get("real"):
        ds = ref.walk(list(case["cards"]), search.NAMES[:len(case["cards"])], length=40, mult=3 + 2 * case["k"], cut=(11,))
        names = ds["names"]
        search.explore_real(ds, dict(case, node=names[case["node"]], known=[names[i] for i in case["known"]]), rep)
    else:
        search.explore_config(case, rep)
    rep.sample(case, 1)
