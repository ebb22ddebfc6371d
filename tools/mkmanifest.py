"""Writes /verif/MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("explicit enumeration of data sets and families, run on the real code against a row-by-row reference", "Exhaustive over the data-set alphabet; trusts the reference counter."),
 "C02": ("explicit enumeration of families and masks on the real code against the definition", "Exhaustive over cardinalities, parent sets and masks within the bounds."),
 "C03": ("explicit enumeration of import histories on the real importers against the rows written", "Exhaustive over the alphabet of trajectories, labels, frames and histories."),
 "C04": ("explicit enumeration of imports in good and bad conditions and of prior networks on the real sample path, against the input", "Exhaustive over the alphabet of imports, cardinalities and edge sets."),
 "C05": ("explicit enumeration of histories of families on the real graphs and estimators, real score against the closed form", "Exhaustive over the histories and families within the bounds; trusts math.lgamma."),
 "C06": ("stateless model checking: all draws and score answers, lockstep with a reference search", "Every draw and score order within the bounds on the real code."),
 "C07": ("stateless model checking: all draws and score answers, lockstep with a reference tabu search", "Every draw and score order within the bounds on the real code."),
 "C08": ("stateless model checking of both searches under all draws and score answers", "Every draw and score order within the bounds on the real code."),
 "C09": ("stateless model checking of the three searches under all draws and answers, all known edge sets", "Every execution within the bounds on the real code."),
 "C10": ("stateless model checking of the constraint-based search under all oracle answers", "Every oracle within the bounds; the oracle replaces the test (which C11 decides)."),
 "C11": ("explicit enumeration of count tables on the real test against the textbook decision", "Exhaustive over the table alphabet; quantiles are scipy's; decisions within 1e-9 of a quantile are not judged."),
 "C12": ("explicit exploration of all query histories up to a depth on the real estimator and cache", "Every history within the bounds."),
 "C13": ("exploration of all assignments and completion orders of pool tasks under a controlled executor", "The real estimators in real forked workers under a controlled ProcessPoolExecutor; a few runs use the real one."),
 "C14": ("explicit exploration of all sessions of estimations up to a depth on shared objects", "Every session within the bounds, on the real code."),
 "C15": ("exploration of all estimated graphs (by oracle) and prior networks, outputs compared", "Every graph of up to 3 variables (chosen ones of 4) is produced by a real run."),
 "C16": ("exploration of all random draws of the graph generator", "Every outcome of the draws, including shuffles, within the bounds."),
 "C17": ("exploration of extreme random draws of the CIM generator over all graphs", "Every combination of a menu of draws within the deviation bound."),
 "C18": ("stateless model checking of the sampler under all draws of a menu", "Every draw sequence within the bounds, on the real sampler."),
 "C19": ("lockstep model checking of the sampler with a reference CTBN simulator under all draws of a menu", "Requests of draws (means, weights) and the rows are compared with the reference on every sequence."),
 "C20": ("model checking of all interleavings of the sampling workers under a controlled scheduler", "Real worker functions in forked processes; scheduling points are the operations on shared objects."),
 "C21": ("explicit enumeration of networks round-tripped through the real files, behaviour compared under all draws", "Exhaustive over the alphabet of networks, labels and orders."),
 "C22": ("breadth-first explicit-state exploration of the real objects under edits against a plain graph", "All reachable states up to the depth."),
 "C25": ("fault injection at every crash point of each operation, followed by sessions on the same objects", "Every call into the environment fails in turn, on the real code; a fault fires once and is not swallowed."),
 "C26": ("explicit exploration of all sessions of estimations and plots up to a depth, and of all estimated graphs, on the real code", "What is shown is read from the figure at the moment matplotlib writes it."),
 "C23": ("explicit enumeration of presentations of the same data, results compared on the real code", "Metamorphic: every presentation of the alphabet; searches over all draws."),
}
checks = []
for c in sorted(T):
    if os.path.exists(os.path.join(V, "mc", "checks", c.lower() + ".py")):
        t, note = T[c]
        checks.append({"property": c, "quick_cmd": "python3 mc/run.py %s" % c, "thorough_cmd": "python3 mc/run.py %s --tier thorough" % c,
                       "technique": "model checking: " + t, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q mc", "checks": checks,
     "not_applicable": [{"property": "C24", "reason": "A statement about a probability in the limit of infinite data: no bounded set of "
                         "executions, and no finite-state model, decides it; sampled experiments would be another technique."}],
     "notes": "No hooks: the checks reach the library through its public calls, with the random and process modules it imports replaced "
              "by controlled ones in the harness process. Findings and repairs are in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
