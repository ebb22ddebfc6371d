"""C07: tabu search, every draw sequence and every order of the scores."""
from mc import ref, search
from mc.checks import c06

ID = "C07"
RULE = c06.RULE
BOUNDS = {"quick": "3 variables: iterations up to 7; 4 variables: iterations 5; 5 variables: 4; tabu_length None/0..4, "
                   "tabu_rules_duration None/1..6, known sets, max_parents, patience; plus all draws on real data sets; "
                   "2 moves with 8-13 variables; whole networks of 3 to 12 variables and up to 230 iterations, serial and on worker processes (at most one choice away from the default "
                   "schedule); 5 to 9 variables and 22 moves with every alternative to each draw of a fixed sequence",
          "thorough": "3 variables: iterations up to 9; 4 variables: 6; 5 variables: 5"}
ASSUMPTIONS = c06.ASSUMPTIONS + ["tabu_rules_duration is at least 1"]


def conf(n, node, known, mx, iters, pat, length, duration):
    return dict(n=n, node=node, known=known, max=mx, iters=iters, patience=pat, opt="tabu", length=length, duration=duration)


def cases(tier):
    big = tier == "thorough"
    N = search.NAMES
    for n in (2, 3):
        node = N[n - 1]
        others = [x for x in N[:n] if x != node]
        for it in (0, 1, 2, 4, 7) + ((9,) if big else ()):
            for known in ref.subsets(others):
                for mx in (None, 0, 1, 2):
                    for pat in (None, 0, 1, 2):
                        if pat is not None and pat > it:
                            continue
                        for length in (None, 0, 1, 2, 3):
                            for duration in (None, 1, 2, 3, 5):
                                if it < 4 and (length == 3 or duration == 5):
                                    continue
                                yield conf(n, node, known, mx, it, pat, length, duration)
    for c in c06.real("tabu"):
        yield c
    for c in c06.whole("tabu"):
        yield c
    for c in c06.many("tabu"):
        yield c
    for c in c06.lines("tabu", big):
        yield c
    node = N[1]
    for known, mx in (([], None), ([], 1), ([], 2), ([N[0]], None), ([N[3]], 2)):
        for pat in (None, 1, 2):
            for length in (None, 0, 1, 2, 3, 4):
                for duration in (None, 1, 2, 3, 4, 6):
                    if mx == 2 and (length == 1 or duration == 1) and not big:
                        yield conf(4, node, known, mx, 3, pat, length, duration)
                    else:
                        yield conf(4, node, known, mx, (6 if big else 5) if pat is None or pat > 1 else 5, pat, length, duration)
    for length in (None, 0, 2, 3):
        for duration in (None, 2, 3):
            yield conf(5, N[2], [], None, 5 if big else 4, None, length, duration)


def run(case, rep):
    c06.run(case, rep)
