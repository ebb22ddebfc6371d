"""Plain reference: statistics, coefficients, score and independence decision, one row at a time, no numpy tricks.

A data set is {"names": [...], "cards": [...], "trajs": [[(time, [values]), ...], ...]}.
"""
import itertools
import math


def configs(cards):
    return list(itertools.product(*[range(c) for c in cards]))


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    for k in range(lo, (len(xs) if hi is None else hi) + 1):
        for s in itertools.combinations(xs, k):
            yield list(s)


def intervals(ds):
    """(duration, values during, values after) of every interval, trajectory by trajectory."""
    out = []
    for tr in ds["trajs"]:
        for (t0, v0), (t1, v1) in zip(tr, tr[1:]):
            out.append((t1 - t0, list(v0), list(v1)))
    return out


def stats(ds, child, parents):
    """{configuration of parents, in the order of the variables: (T, M)}; M[x][x] counts what leaves x."""
    names = ds["names"]
    ci = names.index(child)
    pi = sorted(names.index(p) for p in parents)
    c = ds["cards"][ci]
    out = {u: ([0.0] * c, [[0] * c for _ in range(c)]) for u in configs([ds["cards"][i] for i in pi])}
    for d, v0, v1 in intervals(ds):
        T, M = out[tuple(v0[i] for i in pi)]
        x, y = v0[ci], v1[ci]
        T[x] += d
        if y >= 0 and y != x:
            M[x][y] += 1
            M[x][x] += 1
    return out


def cim(T, M):
    c = len(T)
    return [[((1 - M[x][x]) if x == y else (M[x][y] + 1)) / (T[x] + 1.0) for y in range(c)] for x in range(c)]


def score(ds, child, parents, tau, alpha):
    c = ds["cards"][ds["names"].index(child)]
    axx = alpha / (c - 1)
    tot = 0.0
    for T, M in stats(ds, child, parents).values():
        for x in range(c):
            m = M[x][x]
            tot += math.lgamma(alpha + m + 1) + (alpha + 1) * math.log(tau)
            tot -= math.lgamma(alpha + 1) + (alpha + m + 1) * math.log(tau + T[x])
            tot += math.lgamma(alpha) - math.lgamma(alpha + m)
            for y in range(c):
                if y != x:
                    tot += math.lgamma(axx + M[x][y]) - math.lgamma(axx)
    return tot


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _div(a, b):
    if b != 0:
        return a / b
    if a == 0 or a != a:
        return float("nan")
    return math.copysign(float("inf"), a) * math.copysign(1.0, b)


_F, _C = {}, {}


def fppf(p, d1, d2):
    from scipy.stats import f
    k = (p, d1, d2)
    if k not in _F:
        _F[k] = float(f.ppf(p, d1, d2))
    return _F[k]


def cppf(p, df):
    from scipy.stats import chi2
    k = (p, df)
    if k not in _C:
        _C[k] = float(chi2.ppf(p, df))
    return _C[k]


def ci_test(ds, parent, child, sep, exp_alfa, chi_alfa, thumb):
    """(independent?, some data insufficient?, decided by a hair?)"""
    names, cards = ds["names"], ds["cards"]
    c = cards[names.index(child)]
    pn = names.index(parent)
    order = sorted(list(sep) + [parent], key=names.index)
    pos = order.index(parent)
    s1 = stats(ds, child, sep)
    s2 = stats(ds, child, list(sep) + [parent])
    df = (c - 1) ** 2 * cards[pn]
    for s in sep:
        df *= cards[names.index(s)]
    indep, short, hair = True, False, False
    for u, (T1, M1) in s1.items():
        if c > 2 and sum(M1[x][x] for x in range(c)) / float(df) < thumb:
            short = True
            indep = False
        for w in range(cards[pn]):
            T2, M2 = s2[u[:pos] + (w,) + u[pos:]]
            for x in range(c):
                r1, r2 = M1[x][x], M2[x][x]
                q1, q2 = (1 - r1) / (T1[x] + 1.0), (1 - r2) / (T2[x] + 1.0)
                F = _div(q2, q1)
                for lim, side in ((fppf(exp_alfa / 2, r1, r2), -1), (fppf(1 - exp_alfa / 2, r1, r2), 1)):
                    if F == F and lim == lim:
                        if (F - lim) * side > 0:
                            indep = False
                        if F != lim and abs(F - lim) <= 1e-9 * max(abs(F), abs(lim)):
                            hair = True
                        if F == lim:
                            hair = True
                K = math.sqrt(_div(r1, r2)) if r2 or r1 else float("nan")
                L = math.sqrt(_div(r2, r1)) if r2 or r1 else float("nan")
                chi = 0.0
                for y in range(c):
                    if y == x:
                        continue
                    a, b = M1[x][y], M2[x][y]
                    if a + b == 0:
                        continue
                    k = K * b if not (K == float("inf") and b == 0) else float("nan")
                    l = L * a if not (L == float("inf") and a == 0) else float("nan")
                    term = (k - l) ** 2 / (a + b)
                    if term == term:
                        chi += term
                lim = cppf(1 - chi_alfa, c - 1)
                if chi > lim:
                    indep = False
                if abs(chi - lim) <= 1e-9 * max(1.0, abs(lim)):
                    hair = True
    return indep, short, hair


# ---- data sets -------------------------------------------------------------------------------------------------

def covering(cards, names=None, rows=None, durations=None):
    """Every joint state and every change of one variable, each for its own duration, in short trajectories."""
    names = names or ["V%d" % i for i in range(len(cards))]
    trajs, k = [], 0
    for s in configs(cards):
        for i, c in enumerate(cards):
            for y in range(c):
                if y == s[i]:
                    continue
                n = list(s)
                n[i] = y
                d0, d1 = 1 + (k * 7) % 101 + k * 0.125, 2 + (k * 13) % 57 + k * 0.25
                k += 1
                trajs.append([(0.0, list(s)), (d0, n), (d0 + d1, [-1] * len(cards))])
    return {"names": names, "cards": list(cards), "trajs": trajs}


def walk(cards, names=None, length=40, mult=7, add=3, cut=()):
    """A deterministic single-change walk (a small linear congruential sequence picks variable and value)."""
    names = names or ["V%d" % i for i in range(len(cards))]
    x, t = add, 0.0
    cur = [0] * len(cards)
    trajs, tr = [], [(0.0, list(cur))]
    for i in range(length):
        x = (x * mult * 2 + 1 + i * add) % 9973
        v = x % len(cards)
        x = (x * 31 + 17) % 9973
        step = 1 + x % (cards[v] - 1)
        cur = list(cur)
        cur[v] = (cur[v] + step) % cards[v]
        t += 0.25 * (1 + (x // 7) % 9)
        tr.append((t, list(cur)))
        if i in cut:
            tr.append((t + 0.5, [-1] * len(cards)))
            trajs.append(tr)
            t, tr = 0.0, [(0.0, list(cur))]
    tr.append((t + 1.0, [-1] * len(cards)))
    trajs.append(tr)
    return {"names": names, "cards": list(cards), "trajs": trajs}


def spread(cards, length=300, names=None, seed=1):
    """Two trajectories over joint states far apart: small, large and boundary values of every variable (several may change at once)."""
    names = names or ["V%d" % i for i in range(len(cards))]
    menus = [sorted({v for v in (0, 1, 2, 5, 126, 127, 128, 129, 254, 255, 256, c // 2, c - 2, c - 1) if 0 <= v < c}) for c in cards]
    x, t, trajs = seed, 0.0, []
    for k in range(2):
        tr, t = [], 1.5 * k
        for i in range(length // 2):
            row = []
            for m in menus:
                x = (x * 1103515245 + 12345) % 2147483648
                row.append(m[(x >> 8) % len(m)])
            if i == 0 and k == 0:
                row = [c - 1 for c in cards]
            if i == 1 and k == 0:
                row = [0] + [c - 1 for c in cards[1:]]
            tr.append((t, row))
            t += 0.25 * (1 + (x >> 10) % 13)
        tr.append((t, [-1] * len(cards)))
        trajs.append(tr)
    return {"names": names, "cards": list(cards), "trajs": trajs}


WIDE = [((2,) * 8, 6), ((2, 3, 2, 2, 3, 2, 2), 5), ((3,) * 7, 6), ((300, 2), 0), ((2, 300), 0), ((130, 2, 2), 1), ((2, 2, 200), 1),
        ((17, 16, 16, 16), 3), ((2, 16, 17, 16), 3), ((40, 41, 2), 2)]


def wide_families(cards, least):
    """The families with many parents or large matrices that are looked at."""
    n = len(cards)
    for ci in range(n):
        for ps in subsets([i for i in range(n) if i != ci], least, n - 1):
            size = cards[ci] ** 2
            for p in ps:
                size *= cards[p]
            if size <= 1300000 and (n < 6 or ci in (0, n // 2, n - 1)) and (size < 200000 or ci == 0):
                yield ci, ps


def coupled(cards, length=120, seed=1, names=None, cut=()):
    """A deterministic walk in which every variable hurries while the one before it is in its last state."""
    n = len(cards)
    names = names or ["V%d" % i for i in range(n)]
    x, t, cur = seed, 0.0, [0] * n
    trajs, tr = [], [(0.0, list(cur))]
    for i in range(length):
        x = (x * 137 + 29) % 9973
        w = [1 + (8 if j and cur[j - 1] == cards[j - 1] - 1 else 0) for j in range(n)]
        r, v = x % sum(w), 0
        while r >= w[v]:
            r -= w[v]
            v += 1
        x = (x * 31 + 17) % 9973
        cur = list(cur)
        cur[v] = (cur[v] + 1 + x % (cards[v] - 1)) % cards[v]
        t += (1 + (x // 7) % 5) / float(sum(w))
        tr.append((t, list(cur)))
        if i in cut:
            tr.append((t + 0.25, [-1] * n))
            trajs.append(tr)
            t, tr = 0.0, [(0.0, list(cur))]
    tr.append((t + 1.0, [-1] * n))
    trajs.append(tr)
    return {"names": names, "cards": list(cards), "trajs": trajs}


def table_ds(cards, child, table, names=None):
    """A data set with prescribed statistics for one variable.

    table: list of (joint values of all variables (child included), target value or None, count, total time):
    `count` jumps of the child to the target.  The other variables do not move within a trajectory; the jumps of one
    configuration are chained into as few trajectories as possible.
    """
    names = names or ["V%d" % i for i in range(len(cards))]
    byconf = {}
    for vals, y, m, t in table:
        u = tuple(v for i, v in enumerate(vals) if i != child)
        M, T = byconf.setdefault(u, ({}, {}))
        x = vals[child]
        T[x] = T.get(x, 0.0) + float(t)
        if m:
            M.setdefault(x, {})[y] = M.get(x, {}).get(y, 0) + m
    trajs = []
    for u, (M, T) in sorted(byconf.items()):
        row = lambda v: list(u[:child]) + [v] + list(u[child:])
        out = {x: sum(r.values()) for x, r in M.items()}
        step = {x: (T[x] / out[x] if out.get(x) else T[x]) for x in T}
        for x in T:
            if not out.get(x) and T[x]:
                trajs.append([(0.0, row(x)), (T[x], [-1] * len(cards))])
        left = {x: dict(r) for x, r in M.items()}
        while any(any(r.values()) for r in left.values()):
            net = {x: sum(r.values()) for x, r in left.items()}
            live = [x for x in net if net[x]]
            for r in left.values():
                for y, m in r.items():
                    net[y] = net.get(y, 0) - m
            x = max(sorted(live), key=lambda v: net[v])
            t, tr = 0.0, [(0.0, row(x))]
            while any(left.get(x, {}).values()):
                y = max(sorted(left[x]), key=lambda v: (left[x][v], v))
                left[x][y] -= 1
                t += step[x]
                x = y
                tr.append((t, row(x)))
            trajs.append(tr)
    return {"names": names, "cards": list(cards), "trajs": trajs}
