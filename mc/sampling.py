"""Running the trajectory sampler under chosen draws, and judging what it did."""
import itertools

import numpy as np

from . import lib, ref, rnd
from .core import fail

NAMES = ["b", "A", "10", "z z", "c", "B", "X", "X1", "m", "K", "9"]


def parents(names, edges, v):
    return [p for p in names if (p, v) in edges]


def intensities(names, cards, edges, exact=False, unit=1.0):
    """{label: {configuration: matrix}} with a different exit intensity in every row (exact: powers of two)."""
    out, k = {}, 0
    for v, c in zip(names, cards):
        out[v] = {}
        for u in ref.configs([cards[names.index(p)] for p in parents(names, edges, v)]):
            m = np.zeros((c, c))
            for x in range(c):
                q = (2.0 ** (k % 4) if exact else 0.53 + 0.37 * k) * unit
                w = [(1, 2, 5, 0)[(y + k) % 4] if c > 3 else (1, 2, 5)[(y + k) % 3] for y in range(c)]
                w[x] = 0
                if not sum(w):
                    w[(x + 1) % c] = 1
                for y in range(c):
                    m[x, y] = q * w[y] / float(sum(w)) if y != x else -q
                k += 1
            out[v][u] = m
    return out


class Net(object):
    def __init__(self, cards, edges, exact=False, edge_order=None, names=None, unit=1.0):
        self.names = (names or NAMES)[:len(cards)]
        self.cards = list(cards)
        self.edges = [(self.names[a], self.names[b]) for a, b in edges]
        self.q = intensities(self.names, self.cards, self.edges, exact, unit)
        self.cims = lib.generated(self.names, self.cards, self.edges, self.q)
        es = self.edges if edge_order is None else [self.edges[i] for i in edge_order]
        import pandas as pd
        self.variables = pd.DataFrame([[n, c] for n, c in zip(self.names, self.cards)], columns=["Name", "Value"])
        self.dyn_str = lib.edges_frame(es)

    def generator(self):
        return lib.TrajectoryGenerator(variables=self.variables, dyn_str=self.dyn_str, dyn_cims=self.cims)

    def parents(self, v):
        return parents(self.names, self.edges, v)

    def children(self, v):
        return [c for c in self.names if (v, c) in self.edges]

    def matrix(self, v, state):
        return self.q[v][tuple(state[self.names.index(p)] for p in self.parents(v))]

    def snapshot(self):
        return [(v, m.cim.tobytes() if hasattr(m.cim, "tobytes") else repr(m.cim)) for v in self.names
                for m in self.cims[v].actual_cims] + [self.dyn_str.values.tolist(), self.variables.values.tolist()]


class Cycle(object):
    """A fixed endless sequence of choices."""

    def __init__(self, a, b):
        self.a, self.b, self.i = a, b, 0

    def choose(self, n):
        self.i += 1
        return (self.i * self.a + self.i // self.b) % n


CYCLES = [(0, 10 ** 6), (0, 3), (1, 7), (1, 2), (2, 5), (3, 11)]


def play(gen, chooser, menu, max_tr=-1, t_end=-1):
    """Sample once; returns (frame, draws)."""
    with rnd.controlled(rnd.Control(chooser, exp_menu=menu)) as c:
        kw = {"max_tr": max_tr} if t_end == -1 else {"t_end": t_end}
        f = gen.CTBN_Sample(**kw)
    return f, c.draws


def rows(frame, names):
    """[(time, [states])] with checks on types and columns."""
    cols = [str(c) for c in frame.columns]
    if sorted(cols) != sorted(["Time"] + names):
        fail("the trajectory has the columns %s" % cols)
    out = []
    times = frame["Time"].tolist()
    vals = [frame[n].tolist() for n in names]
    for i, t in enumerate(times):
        r = []
        for v in vals:
            x = v[i]
            if x != int(x):
                fail("a state of the trajectory is %r" % (x,))
            r.append(int(x))
        out.append((float(t), r))
    return out


def well_formed(names, cards, tr, what=""):
    if not tr:
        fail("the trajectory is empty" + what)
    if tr[-1][1] != [-1] * len(names):
        fail("the last row of the trajectory is %s%s" % (tr[-1], what), rows=tr)
    if tr[0][0] != 0 or (len(tr) > 1 and tr[0][1] != [0] * len(names)):
        fail("the trajectory starts with %s%s" % (tr[0], what), rows=tr)
    for i in range(len(tr) - 1):
        t, s = tr[i]
        if any(not 0 <= x < c for x, c in zip(s, cards)):
            fail("row %d holds an impossible state: %s%s" % (i, s, what), rows=tr)
        if tr[i + 1][0] < t:
            fail("time decreases after row %d%s" % (i, what), rows=tr)
        if i and sum(1 for a, b in zip(tr[i - 1][1], s) if a != b) != 1:
            fail("%d variables change in row %d%s" % (sum(1 for a, b in zip(tr[i - 1][1], s) if a != b), i, what), rows=tr)


def follows(net, tr, draws, rep=None):
    """Check draws and rows of one sampled trajectory (max_tr reached) against the intensity matrices."""
    names, n = net.names, len(net.names)
    where = {}
    for v in names:
        for u, m in net.q[v].items():
            for x in range(len(m)):
                where[-m[x, x]] = (v, u, x)

    def decode(scale):
        for r, w in where.items():
            if abs(scale * r - 1) < 1e-9:
                return w
        return None
    seg, picks = [[]], []
    for kind, p, v in draws:
        if kind == "exp":
            seg[-1].append((p, v))
        elif kind == "pick":
            picks.append((p, v))
            seg.append([])
    t, clock = 0.0, {}
    due = set(names)
    visible = [s for _, s in tr[:-1]]
    for k in range(len(tr)):
        s = visible[k] if k < len(visible) else None
        if s is not None:
            fresh = set()
            for scale, val in seg[k] if k < len(seg) else []:
                w = decode(scale)
                if w is None:
                    fail("an exponential time with mean %r is drawn in state %s; no state of any variable has it" % (scale, s), rows=tr)
                v, u, x = w
                if tuple(s[names.index(p)] for p in net.parents(v)) != u or s[names.index(v)] != x:
                    fail("the time of %s is drawn with the intensity of its state %d under parents %s=%s while the state is %s" % (
                        v, x, net.parents(v), u, dict(zip(names, s))), rows=tr)
                clock[v] = t + val
                fresh.add(v)
            if not due <= fresh:
                fail("the clock of %s is not drawn anew in row %d" % (sorted(due - fresh), k), rows=tr)
        if k + 1 >= len(visible):
            break
        nxt = visible[k + 1]
        ch = [i for i in range(n) if nxt[i] != s[i]][0]
        v = names[ch]
        first = min(clock, key=clock.get)
        if clock[first] != clock[v]:
            fail("%s changes at row %d although %s has the earliest clock" % (v, k + 1, first), clocks=clock, rows=tr)
        t = clock[v]
        if abs(tr[k + 1][0] - t) > 5.1e-5:
            fail("row %d is at time %r instead of %r" % (k + 1, tr[k + 1][0], t), rows=tr)
        m = net.matrix(v, s)
        q = m[s[ch]]
        if k < len(picks):
            p, j = picks[k]
            e = q[nxt[ch]] / sum(q[y] for y in range(len(q)) if y != s[ch])
            if abs(p[j] - e) > 1e-9:
                fail("%s jumps from %d to %d with probability %r instead of %r" % (v, s[ch], nxt[ch], p[j], e), rows=tr)
        if q[nxt[ch]] == 0:
            fail("%s jumps from %d to %d, whose intensity is zero" % (v, s[ch], nxt[ch]), rows=tr)
        due = set([v] + net.children(v))
        for d in due:
            clock.pop(d, None)
        if rep is not None:
            rep.state((tuple(net.edges), tuple(net.cards), tuple(s), tuple(sorted((a, round(b - t, 9)) for a, b in clock.items()))))
            rep.n("transitions")
