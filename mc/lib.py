"""How the checks reach the library: only through what a user can call."""
import json
import os

import numpy as np
import pandas as pd

from PyCTBN.PyCTBN import (AbstractImporter, JsonImporter, SampleImporter, SamplePath, Structure, NetworkGraph,
                           ParametersEstimator, SetOfCims, ConditionalIntensityMatrix, StructureConstraintBasedEstimator,
                           StructureScoreBasedEstimator, FamScoreCalculator, Cache, Trajectory)
from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter

from . import ref
from .core import fail


class FrameImporter(AbstractImporter):
    """An importer written as the README says."""

    def __init__(self, frames, variables, structure=None):
        super(FrameImporter, self).__init__(None, frames, variables, structure)

    def import_data(self):
        self._sorter = self.build_sorter(self._df_samples_list[0])
        self.compute_row_delta_in_all_samples_frames(self._df_samples_list)

    def build_sorter(self, sample_frame):
        return list(sample_frame.columns)[1:]

    def dataset_id(self):
        return None


def frames(ds, time="Time"):
    return [pd.DataFrame([[t] + list(v) for t, v in tr], columns=[time] + ds["names"]) for tr in ds["trajs"]]


def variables_frame(ds):
    return pd.DataFrame({"Name": ds["names"], "Value": ds["cards"]})


def edges_frame(edges):
    return pd.DataFrame([list(e) for e in edges], columns=["From", "To"])


_PACK = {}


def importer(ds, edges=None, via="sample"):
    st = edges_frame(edges) if edges else None
    if via == "sample":
        imp = SampleImporter(trajectory_list=frames(ds), variables=variables_frame(ds), prior_net_structure=st)
        imp.import_data()
    elif via == "frame":
        imp = FrameImporter(frames(ds), variables_frame(ds), st)
        imp.import_data()
    elif via == "json":
        path = os.path.join(os.getcwd(), "ds.json")
        with open(path, "w") as f:
            json.dump([to_json(ds, edges or [])], f)
        imp = JsonImporter(path, "samples", "dyn.str", "variables", "Time", "Name")
        imp.import_data(0)
    return imp


def to_json(ds, edges, time="Time"):
    return {"dyn.str": [{"From": a, "To": b} for a, b in edges],
            "variables": [{"Name": n, "Value": c} for n, c in zip(ds["names"], ds["cards"])],
            "samples": [[dict([(time, t)] + list(zip(ds["names"], v))) for t, v in tr] for tr in ds["trajs"]]}


def sample_path(ds, edges=None, via="sample"):
    sp = SamplePath(importer(ds, edges, via))
    sp.build_trajectories()
    sp.build_structure()
    return sp


def structure(ds, edges):
    return Structure(list(ds["names"]), np.arange(len(ds["names"])), np.array(ds["cards"]), list(edges), len(ds["names"]))


def sub_structure(ds, nodes, edges):
    """The structure over some of the variables only (its indexes are those of the full data)."""
    idx = [i for i, n in enumerate(ds["names"]) if n in nodes]
    return Structure([ds["names"][i] for i in idx], np.array(idx), np.array([ds["cards"][i] for i in idx]),
                     list(edges), len(ds["names"]))


def estimate(sp, struct, child):
    """The SetOfCims of a child in a structure."""
    g = NetworkGraph(struct)
    g.fast_init(child)
    p = ParametersEstimator(sp.trajectories, g)
    p.fast_init(child)
    return p.compute_parameters_for_node(child)


def tables(sofc):
    """[(configuration, T, M, cim)] as the library labels them."""
    out = []
    cims = sofc.actual_cims
    combs = [tuple(int(x) for x in np.ravel(c)) for c in sofc.p_combs]
    if len(cims) != len(combs):
        fail("%d matrices for %d configurations of the parents" % (len(cims), len(combs)), sig="labels")
    for u, c in zip(combs, cims):
        out.append((u, [float(x) for x in c.state_residence_times],
                    [[int(x) for x in r] for r in c.state_transition_matrix],
                    [[float(x) for x in r] for r in c.cim]))
    return out


def same_stats(ds, child, parents, sofc, what=""):
    """Compare the library's statistics of a family with the reference; returns the reference."""
    exp = ref.stats(ds, child, parents)
    got = tables(sofc)
    if sorted(u for u, _, _, _ in got) != sorted(exp):
        fail("parent configurations of %s given %s are not each listed once%s" % (child, parents, what),
             listed=[u for u, _, _, _ in got])
    for u, T, M, _ in got:
        eT, eM = exp[u]
        for x in range(len(eT)):
            if len(T) != len(eT) or not ref.close(T[x], eT[x]):
                fail("residence time of %s=%d given %s=%s is %r instead of %r%s" % (
                    child, x, parents, u, T[x] if x < len(T) else None, eT[x], what))
            if M[x] != eM[x]:
                fail("transitions of %s from %d given %s=%s are %r instead of %r%s" % (
                    child, x, parents, u, M[x], eM[x], what))
    return exp


def families(names):
    for c in names:
        for s in ref.subsets([n for n in names if n != c]):
            yield c, s


_FLIPS = {}


def network(labels, vals, edges, again=None):
    """A NetworkGenerator whose graph has exactly these edges, obtained through generate_graph under chosen draws."""
    from . import rnd
    from .explore import Chooser, explore
    n = len(labels)
    g = again if again is not None else NetworkGenerator(labels, vals)

    def draw(prefix):
        ch = prefix if isinstance(prefix, Chooser) else Chooser(prefix)
        with rnd.controlled(rnd.Control(ch, unif_menu=(0.75, 0.25))):
            g.generate_graph(0.5)
        return frozenset((list(labels).index(a), list(labels).index(b)) for a, b in g.graph.edges), ch
    if n not in _FLIPS:
        none, ch = draw([])
        m = {}
        if not none:
            for i in range(len(ch.trace)):
                e, _ = draw([0] * i + [1])
                if len(e) == 1:
                    m.setdefault(next(iter(e)), i)
        _FLIPS[n] = m
    want = frozenset((list(labels).index(a), list(labels).index(b)) for a, b in edges)
    m = _FLIPS[n]
    if all(e in m for e in want):
        on = set(m[e] for e in want)
        got, _ = draw([1 if i in on else 0 for i in range(max(on) + 1 if on else 0)])
        if got == want:
            return g
    for taken, (got, _) in explore(lambda ch: draw(ch)):
        if got == want:
            return g
    fail("no sequence of draws of generate_graph gives the edges %s" % sorted(want))


def generated(labels, vals, edges, cims):
    """Intensities {label: {configuration: matrix}} as the library's SetOfCims, configurations in its usual order."""
    names = list(labels)
    card = dict(zip(names, [int(v) for v in vals]))
    out = {}
    for v in names:
        par = [p for p in names if (p, v) in set(map(tuple, edges))]
        pc = NetworkGraph.build_p_comb_structure_for_a_node([card[p] for p in par])
        out[v] = SetOfCims(node_id=v, parents_states_number=[card[p] for p in par], node_states_number=card[v], p_combs=pc,
                           cims=np.array([ConditionalIntensityMatrix(cim=np.array(cims[v][tuple(int(x) for x in np.ravel(c))]))
                                          for c in pc]))
    return out
