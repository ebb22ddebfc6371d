"""C26: the saved plot shows the estimated structure, whatever was plotted before."""
import itertools
import os
import tempfile

import numpy as np

from mc import lib, ref, rnd
from mc.checks.c15 import Steered, data, pairs
from mc.core import fail

ID = "C26"
RULE = ("a trace is a session of estimations (steered to given graphs) and plots on one or two estimators; the labels and arrows of the figure are "
        "taken where matplotlib writes it to the file; a state is a distinct (graph, what was plotted before)")
BOUNDS = {"quick": "1-3 variables: every graph; 4 variables: every graph (written to a file for one in 64, otherwise taken before the file is written); 5-13 variables: chosen "
                   "graphs; sessions of 3 operations among 6 (plot of either of two estimators, new estimation, plot that cannot be saved, drawings of the user, change of "
                   "directory); 25 plots in a row",
          "thorough": "sessions of 5 operations; every graph of 4 variables written to a file"}
ASSUMPTIONS = ["the positions of the nodes are random and not judged", "labels without the dollar signs of matplotlib's formulas"]

OPS = ("plot", "other", "estimate", "unsaved", "user", "chdir")


def cases(tier):
    big = tier == "thorough"
    for n in (1, 2, 3):
        for t in ref.subsets(pairs(n)):
            yield {"kind": "graph", "n": n, "targets": [t], "write": True}
    allg = list(ref.subsets(pairs(4)))
    for k in range(0, len(allg), 16):
        yield {"kind": "graph", "n": 4, "targets": allg[k:k + 16], "write": big or k % 64 == 0}
    for n in (5, 6, 8, 10, 13):
        full = pairs(n)
        for t in ([], full[::2], full[::7], [(i, (i + 1) % n) for i in range(n)], [(i, j) for i, j in full if j == n - 1], [(i, j) for i, j in full if i == n - 1],
                  full if n < 9 else full[:-1:3], full[-1:]):
            yield {"kind": "graph", "n": n, "targets": [t], "write": True}
    for s in itertools.product(OPS, repeat=5 if big else 3):
        if s[-1] in ("plot", "other"):
            yield {"kind": "session", "ops": s}
    yield {"kind": "session", "ops": ("plot", "other", "plot", "estimate", "plot") * 5}


class Taken(object):
    """What is about to be written: the labels with their places, and the arrows with both ends."""

    def __init__(self, fig):
        from matplotlib.patches import FancyArrowPatch
        from matplotlib.text import Annotation
        self.labels, self.arrows = [], []
        for ax in fig.axes:
            arrows = [p for p in ax.findobj(FancyArrowPatch) if p.get_visible()]
            for t in ax.texts:
                if t.get_visible() and t.get_text() and not (isinstance(t, Annotation) and t.arrow_patch is not None):
                    self.labels.append((t.get_text(), tuple(map(float, t.get_position()))))
                if isinstance(t, Annotation) and t.arrow_patch is not None:
                    arrows = [p for p in arrows if p is not t.arrow_patch]
                    self.arrows.append((tuple(map(float, t.xyann)), tuple(map(float, t.xy)), t.arrow_patch.get_arrowstyle()))
            self.arrows += [(tuple(map(float, p._posA_posB[0])), tuple(map(float, p._posA_posB[1])), p.get_arrowstyle()) for p in arrows]
        self.text = [t.get_text() for t in fig.texts]

    def edges(self):
        def near(p):
            return min(self.labels, key=lambda l: (l[1][0] - p[0]) ** 2 + (l[1][1] - p[1]) ** 2)[0]
        out = []
        for a, b, style in self.arrows:
            how = getattr(style, "arrow", None) or "->"
            if "<" in how:
                out.append((near(b), near(a)))
            if ">" in how or "<" not in how:
                out.append((near(a), near(b)))
        return out


class Watch(object):
    """Takes what matplotlib is asked to write; the file itself is only written when `write`."""

    def __init__(self, write):
        self.write, self.taken = write, []

    def __enter__(self):
        from matplotlib.backend_bases import FigureCanvasBase
        self.orig = FigureCanvasBase.print_figure
        w = self

        def print_figure(canvas, filename, *a, **k):
            w.taken.append((os.path.abspath(str(filename)), Taken(canvas.figure)))
            if w.write:
                return w.orig(canvas, filename, *a, **k)
        FigureCanvasBase.print_figure = print_figure
        np.random.RandomState = rnd._orig["np.RandomState"]     # layouts ask for its type
        return self

    def __exit__(self, *a):
        from matplotlib.backend_bases import FigureCanvasBase
        FigureCanvasBase.print_figure = self.orig


def plot(rep, w, est, names, target, path, what, refused=False):
    import matplotlib.pyplot as plt
    before, adj = plt.get_fignums(), np.asarray(est.adjacency_matrix()).tolist()
    del w.taken[:]
    try:
        est.save_plot_estimated_structure_graph(path)
    except OSError:
        if not refused:
            raise
        if plt.get_fignums() != before:
            fail("a plot that could not be saved leaves its figure open (%s)" % what)
        return
    if refused:
        fail("no error although the plot could not be saved (%s)" % what)
    if [p for p, _ in w.taken] != [os.path.abspath(path)]:
        fail("the plot was written to %s instead of %s (%s)" % ([p for p, _ in w.taken], os.path.abspath(path), what))
    t = w.taken[0][1]
    if sorted(l for l, _ in t.labels) != sorted(names):
        fail("the plot shows the variables %s instead of %s (%s)" % (sorted(l for l, _ in t.labels), sorted(names), what))
    if len({p for _, p in t.labels}) != len(names):
        fail("two variables are plotted at the same place (%s)" % what)
    if sorted(t.edges()) != sorted(target):
        fail("the plot shows the edges %s instead of %s (%s)" % (sorted(t.edges()), sorted(target), what))
    if t.text:
        fail("the plot shows the text %s (%s)" % (t.text, what))
    if w.write:
        with open(path, "rb") as f:
            if f.read(8) != b"\x89PNG\r\n\x1a\n":
                fail("the file of the plot is no image (%s)" % what)
        os.remove(path)
    if plt.get_fignums() != before:
        fail("plotting leaves other figures open: %s before, %s after (%s)" % (before, plt.get_fignums(), what))
    if np.asarray(est.adjacency_matrix()).tolist() != adj:
        fail("plotting changes the estimated structure (%s)" % what)
    rep.n("transitions")


def steer(n, k=0):
    ds = data(n)
    return ds["names"], Steered(lib.sample_path(ds, [], via="sample"), 0.1, 0.1)


def named(names, t):
    return [(names[a], names[b]) for a, b in t]


def run(case, rep):
    import matplotlib.pyplot as plt
    plt.close("all")
    if case["kind"] == "graph":
        names, est = steer(case["n"])
        with Watch(case["write"]) as w:
            for t in case["targets"]:
                target = named(names, t)
                est.target = frozenset(target)
                est.estimate_structure(disable_multiprocessing=True)
                plot(rep, w, est, names, target, os.path.join(os.getcwd(), "plot.png"), "constraint-based")
                if case["n"] < 4:
                    sc = lib.StructureScoreBasedEstimator(lib.sample_path(data(case["n"]), [], via="sample"), known_edges=target)
                    sc.estimate_structure(iterations_number=0, optimizer="hill", disable_multiprocessing=True)
                    plot(rep, w, sc, names, target, os.path.join(os.getcwd(), "plot.png"), "score-based")
                rep.n("traces")
                rep.state((case["n"], tuple(target)))
        return rep.sample({"target": case["targets"][0]}, 1)
    na, a = steer(3)
    nb, b = steer(2)
    graphs = [[(0, 1)], [(1, 2), (2, 0)], [], pairs(3), [(2, 1)]]
    at, ta = 0, named(na, graphs[0])
    tb = named(nb, [(1, 0)])
    a.target, b.target = frozenset(ta), frozenset(tb)
    a.estimate_structure(disable_multiprocessing=True)
    b.estimate_structure(disable_multiprocessing=True)
    home, user = os.getcwd(), []
    try:
        with Watch(True) as w:
            for i, op in enumerate(case["ops"]):
                what = "operation %d of %s" % (i, list(case["ops"]))
                if op == "plot":
                    plot(rep, w, a, na, ta, os.path.join(os.getcwd(), "a.png"), what)
                elif op == "other":
                    plot(rep, w, b, nb, tb, "b.png", what)
                elif op == "estimate":
                    at = (at + 1) % len(graphs)
                    ta = named(na, graphs[at])
                    a.target = frozenset(ta)
                    a.estimate_structure(disable_multiprocessing=True)
                elif op == "unsaved":
                    plot(rep, w, b, nb, tb, os.path.join(home, "missing", "b.png"), what, refused=True)
                elif op == "user":
                    f = plt.figure()
                    f.gca().plot([0, 1], [1, 0])
                    f.gca().text(0.5, 0.5, "mine %d" % i)
                    user.append((f, i))
                else:
                    os.chdir(tempfile.mkdtemp(dir=home))
                for f, k in user:
                    if len(f.axes) != 1 or len(f.axes[0].lines) != 1 or [t.get_text() for t in f.axes[0].texts] != ["mine %d" % k] or f.axes[0].patches:
                        fail("plotting changed a figure of the user (%s)" % what)
                rep.state((tuple(case["ops"][:i + 1]), tuple(ta)))
    finally:
        os.chdir(home)
        plt.close("all")
    rep.n("traces")
    rep.sample({"ops": case["ops"]}, 1)
