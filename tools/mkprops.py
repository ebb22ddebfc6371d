"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one readable place)."""
import json, os
P = []
E = "PyCTBN/PyCTBN/estimators/"
O = "PyCTBN/PyCTBN/optimizers/"
G = "PyCTBN/PyCTBN/structure_graph/"
U = "PyCTBN/PyCTBN/utility/"


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Sufficient statistics equal those counted directly from the trajectories",
  "For every data set, every variable and every set of parents, the residence time of each state and the number of "
  "transitions between each pair of states that the library computes, for each configuration of the parents, are "
  "exactly those obtained by walking the trajectories one row at a time. Time between two trajectories is never "
  "counted, the closing row of -1 is never a transition but ends the last residence, and a row in which the "
  "variable does not change adds time and no transition.",
  ["inputs"], "all cardinalities, parent sets, numbers and lengths of trajectories, and positions of the changes",
  "The existing tests compute statistics on one network with equal cardinalities and compare shapes, or the code "
  "with a copy of itself; data files are missing, so none of these runs here.",
  [E + "parameters_estimator.py", G + "network_graph.py", G + "set_of_cims.py", G + "trajectory.py", U + "abstract_importer.py"],
  [("bincount over mixed-radix row indexes", E + "parameters_estimator.py compute_state_res_time_for_node, compute_state_transitions_for_a_node"),
   ("indexing and filtering structures", G + "network_graph.py build_*_structure_for_a_node")],
  [("T, M", "residence times and transition counts per parents configuration", E + "parameters_estimator.py")],
  ["ParametersEstimator.compute_parameters_for_node(...).actual_cims"])

p("C02", "Each parent configuration has exactly one CIM, with the right coefficients",
  "The matrices estimated for a variable correspond one to one to the configurations of its parents: every "
  "combination of parent states is listed exactly once, and the matrix listed with it holds the statistics observed "
  "under that combination. Off the diagonal a coefficient is (M[x,x']+1)/(T[x]+1), on the diagonal (1-M[x])/(T[x]+1), "
  "and for a variable with two or more parents, selecting matrices by the states of some of them returns exactly those that agree.",
  ["inputs"], "all cardinalities and orders of the parents, all data sets, all masks of two or more parents",
  "Tests use equal cardinalities, where a swapped configuration order goes unnoticed, and only look at shapes.",
  [G + "network_graph.py", G + "set_of_cims.py", G + "conditional_intensity_matrix.py", E + "parameters_estimator.py"],
  [("p_combs built to match the index order", G + "network_graph.py build_p_comb_structure_for_a_node"),
   ("compute_cim_coefficients", G + "conditional_intensity_matrix.py"),
   ("filter_cims_with_mask", G + "set_of_cims.py")],
  [("p_combs", "the parents configurations, in the order of the matrices", G + "set_of_cims.py")],
  ["SetOfCims.p_combs / actual_cims / filter_cims_with_mask"])

p("C03", "Import keeps every observation: times, states, trajectories, variables",
  "Importing data from JSON or from data frames yields, for every trajectory in order, one row per observed interval "
  "holding its exact duration, the state of every variable during it and the state of every variable after it, under "
  "the right variable; nothing is carried from one trajectory to the next. It does not depend on the name of the time "
  "column or its place in the records of a JSON file, on the labels of the variables, on the index of the frames or on which data set of the file was imported "
  "before, and the caller's data are not modified.",
  ["inputs", "histories"], "all trajectories, labels (also prefixes of one another), frame indexes, data set positions and import histories",
  "Tests import one fixed file each (absent here) and compare a few lengths.",
  [U + "abstract_importer.py", U + "json_importer.py", U + "sample_importer.py"],
  [("difference and shift per trajectory", U + "abstract_importer.py compute_row_delta_sigle_samples_frame"),
   ("concatenation and column selection", U + "abstract_importer.py compute_row_delta_in_all_samples_frames"),
   ("import_data(indx)", U + "json_importer.py")],
  [("concatenated samples", "all intervals of all trajectories", U + "abstract_importer.py")],
  ["importer.concatenated_samples, variables, structure, sorter"])

p("C04", "A sample path holds the imported data faithfully or refuses them",
  "A sample path built from an importer exposes exactly the imported intervals, the variables in order with their "
  "cardinalities and positions, and the prior edges. It raises an error, instead of building anything, when the data "
  "were never imported, are empty, have no variables, or list the variables in another order than the data columns.",
  ["inputs", "histories"], "all imported data sets and all incomplete or inconsistent importer states",
  "Tests build one sample path from a file and check types and lengths.",
  [G + "sample_path.py", G + "trajectory.py", G + "structure.py"],
  [("validation in the constructor and in build_structure", G + "sample_path.py"),
   ("Trajectory slicing", G + "trajectory.py")],
  [("trajectories, structure", "what every estimator reads", G + "sample_path.py")],
  ["SamplePath.trajectories, .structure, .total_variables_count, .has_prior_net_structure"])

p("C05", "The family score is the closed-form Bayesian score of the counted data",
  "For every variable, parent set, data set and hyperparameters, the score is the logarithm of the closed-form "
  "marginal likelihood of the intensities and of the jump probabilities (Nodelman et al.), evaluated on the "
  "statistics counted from the trajectories with alpha divided evenly over the other states. It does not depend on "
  "the scores computed before on the same graph or estimator.",
  ["inputs", "histories"], "all data sets, families, cardinalities, hyperparameters and orders of evaluation",
  "Tests check single terms against numbers obtained from the same formula, never a score of mixed cardinalities.",
  [E + "fam_score_calculator.py", E + "structure_score_based_estimator.py"],
  [("marginal_likelihood_q / _theta", E + "fam_score_calculator.py"), ("get_score_from_graph", E + "structure_score_based_estimator.py")],
  [], ["StructureScoreBasedEstimator.get_score_from_graph, FamScoreCalculator.get_fam_score"])

p("C06", "Hill climbing returns its best family within its budget, whatever it draws",
  "Under every sequence of random draws, hill climbing on a variable ends and returns the best-scoring family it "
  "evaluated, never worse than the starting one; each evaluated family differs from the current one by adding, "
  "removing or (when the maximum of parents is reached) replacing one non-known parent, and a move is kept exactly "
  "when it strictly improves the score. iterations_number moves are tried, unless no move is possible or more than patience consecutive moves failed to improve, "
  "which ends the search at once; every variable that is not a known parent can be drawn at each move.",
  ["schedules", "inputs", "configurations"], "all draw sequences, score functions, known edges, max_parents, iterations and patience",
  "Tests run one random sequence on one data set and assert that the true edges are among the result.",
  [O + "hill_climbing_search.py", E + "structure_score_based_estimator.py"],
  [("move, compare, undo", O + "hill_climbing_search.py optimize_structure")],
  [("current graph and best score", "what the next move starts from", O + "hill_climbing_search.py")],
  ["StructureScoreBasedEstimator.estimate_parents(optimizer='hill'), scores requested through get_score_from_graph"])

p("C07", "Tabu search returns its best family and respects the tabu list on every draw",
  "Under every sequence of random draws, tabu search on a variable ends and returns the best-scoring family it "
  "evaluated, with the same rules on moves, budget and patience as hill climbing. A candidate tried recently is not "
  "tried again while it is on the tabu list, which holds at most the tabu_length most recently tried candidates and releases its "
  "oldest one every tabu_rules_duration moves; only when every candidate is listed is the oldest one tried again.",
  ["schedules", "inputs", "configurations"], "all draw sequences, score functions, known edges, max_parents, iterations, patience, tabu_length and tabu_rules_duration",
  "Tests run one random sequence with default lists and assert that the true edges are among the result.",
  [O + "tabu_search.py", E + "structure_score_based_estimator.py"],
  [("tabu queue and set", O + "tabu_search.py optimize_structure")],
  [("tabu queue", "recently tried candidates, oldest first", O + "tabu_search.py")],
  ["StructureScoreBasedEstimator.estimate_parents(optimizer='tabu')"])

p("C08", "No estimated or evaluated family exceeds max_parents",
  "When max_parents is given, no variable of a score-based result, and no family evaluated on the way, has more than "
  "max_parents parents (or than its known parents, when those are already more), for both optimizers, serial or "
  "parallel. A variable is never its own parent.",
  ["schedules", "inputs", "configurations"], "all draw sequences, max_parents, known edges and both optimizers",
  "One test uses max_parents, with one value, one data set and no known edges.",
  [O + "hill_climbing_search.py", O + "tabu_search.py"],
  [("replace a parent when full", O + "hill_climbing_search.py"), ("replace a parent when full", O + "tabu_search.py")],
  [], ["estimate_structure(max_parents=...) result"])

p("C09", "Known edges are in every estimated structure",
  "Every edge passed as known is in the estimated structure and is never removed or swapped out on the way, for the "
  "constraint-based estimator and both score-based optimizers, whatever the data, the random draws, max_parents and "
  "the number of known edges. No edge is treated as known that was not passed.",
  ["schedules", "inputs", "configurations"], "all known edge sets, data, draws and settings",
  "Tests never combine known edges with max_parents, the thumb rule or data contradicting the edges.",
  [E + "structure_estimator.py", O + "hill_climbing_search.py", O + "tabu_search.py", O + "constraint_based_optimizer.py"],
  [("removable edges matrix", E + "structure_estimator.py build_removable_edges_matrix")],
  [("_removable_edges_matrix", "False for known edges", E + "structure_estimator.py")],
  ["estimate_structure() result with known_edges"])

p("C10", "The constraint-based search removes exactly the edges its tests justify",
  "For every outcome of the independence tests, an edge absent from the constraint-based result was found independent "
  "given a set of other candidate parents of its child, and an edge present (and not known) was found dependent given "
  "every subset of the other parents kept for its child. Sets are tried by increasing size, a set never contains the "
  "tested pair or an already removed candidate, and variables are treated independently of one another.",
  ["inputs", "histories"], "all answers of the independence oracle on up to four variables, and all known edge sets",
  "Tests run one data set; one oracle among all the possible ones.",
  [O + "constraint_based_optimizer.py", E + "structure_constraint_based_estimator.py", E + "structure_estimator.py"],
  [("two nested loops over candidates and sizes", O + "constraint_based_optimizer.py optimize_structure"),
   ("generate_possible_sub_sets_of_size", E + "structure_estimator.py")],
  [("u", "candidate parents left", O + "constraint_based_optimizer.py")],
  ["calls of complete_test and estimate_structure() result"])

p("C11", "Independence decisions match the F and chi-square tests on the counted data",
  "An independence query (child, tested parent, separating set) is answered dependent exactly when, for some "
  "configuration and state, the ratio of the estimated intensities falls outside the F quantiles of the given level, "
  "or the two-sample chi-square statistic of the jumps exceeds its quantile, both computed from the counted data; or "
  "when a child of more than two states has fewer transitions than the rule of thumb requires. In a full run an edge "
  "whose data are too few already without a separating set is kept.",
  ["inputs", "configurations"], "all data sets, cardinalities, separating sets, levels and thresholds",
  "Tests query a handful of pairs of one network whose variables all have three states.",
  [E + "structure_constraint_based_estimator.py", G + "set_of_cims.py"],
  [("complete_test", E + "structure_constraint_based_estimator.py"), ("independence_test", E + "structure_constraint_based_estimator.py"),
   ("compute_thumb_value", E + "structure_constraint_based_estimator.py")],
  [], ["complete_test(...) answers; estimate_structure() result"])

p("C12", "Independence answers do not depend on the queries asked before",
  "The answer to an independence query is a function of the data and of the query alone: any sequence of queries on "
  "one estimator, for any children, parents and sets, gives each query the answer a fresh estimator gives. Statistics "
  "kept from earlier queries are only reused for the same child and the same parents.",
  ["histories"], "all sequences of queries up to a depth, on several data sets",
  "Tests query a fresh estimator, or run the one order of queries of the algorithm.",
  [U + "cache.py", E + "structure_constraint_based_estimator.py", O + "constraint_based_optimizer.py"],
  [("Cache.find / put / clear", U + "cache.py"), ("complete_test", E + "structure_constraint_based_estimator.py")],
  [("cache", "statistics by set of parents", U + "cache.py")],
  ["complete_test answers along a history, Cache.find"])

p("C13", "Results do not depend on worker processes, their number or their schedule",
  "Estimating the structure serially, or in parallel with any number of processes and any assignment and order of the "
  "per-variable tasks to the workers, gives the same edges (given the same random draws per variable). No task sees "
  "what another one did, and no more processes are used than asked.",
  ["schedules", "configurations"], "all assignments of the variables to workers and all execution orders, all numbers of processes",
  "Tests run the schedule the machine happens to produce, and never compare with the serial run.",
  [E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py"],
  [("executor.map over the variables", E + "structure_constraint_based_estimator.py ctpc_algorithm"),
   ("executor.map over the variables", E + "structure_score_based_estimator.py estimate_structure")],
  [("estimator object", "pickled to the workers, shared by the tasks of one worker", E + "structure_estimator.py")],
  ["estimate_structure(disable_multiprocessing=..., processes_number=...)"])

p("C14", "Estimations do not disturb one another or the data",
  "On one sample path, any sequence of estimations (constraint-based or score-based, repeated, with the same or new "
  "estimators, different settings and known edges) gives each the result it would give on freshly imported data. The "
  "trajectories, variables and cardinalities of the sample path are never altered by estimating.",
  ["histories"], "all sequences of estimations up to a depth, with several settings",
  "Every test builds its own estimator and runs it once.",
  [E + "structure_estimator.py", E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py", G + "structure.py"],
  [("clean_structure_edges before each run", G + "structure.py"), ("cache and matrix restored after each variable", O + "constraint_based_optimizer.py")],
  [("sample path", "shared by all estimators", G + "sample_path.py")],
  ["sequences of estimate_structure() on shared objects"])

p("C15", "All outputs describe the estimated structure",
  "After an estimation, the returned edges, the adjacency matrix (rows parents, columns children, in variable order) and "
  "the saved JSON graph describe the same directed graph over all the variables, isolated ones included. The spurious edges are exactly "
  "the estimated edges that are not in the prior network, and none when there is no prior network.",
  ["inputs", "histories"], "all estimated graphs on up to four variables and all prior networks",
  "Tests compare sizes of the matrix, or the file with one graph, on one data set.",
  [E + "structure_estimator.py", E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py"],
  [("adjacency_matrix, save_results, spurious_edges", E + "structure_estimator.py")],
  [("_complete_graph", "the estimated structure", E + "structure_estimator.py")],
  ["estimate_structure(), adjacency_matrix(), save_results(), spurious_edges()"])

p("C16", "Generated graphs respect the density and can be any graph",
  "A generated network has the given labels and cardinalities and no self-loop or repeated edge. With a fixed density it has "
  "exactly density*n*(n-1) edges, or an error is raised when that is not a whole number; otherwise each possible edge is "
  "present independently with probability density, and in both modes every graph that satisfies this can be generated, "
  "all equally likely when the density is fixed.",
  ["schedules", "configurations"], "all random draws, numbers of nodes and densities",
  "The test draws one graph and checks one count.",
  [G + "network_generator.py"], [("generate_graph", G + "network_generator.py")],
  [], ["NetworkGenerator.graph, dyn_str, variables"])

p("C17", "Generated CIMs are valid intensity matrices for every parent configuration",
  "For every variable, the generated matrices correspond one to one to the configurations of its parents, have the "
  "size of the variable and are each drawn separately. In each, rows sum to zero up to rounding, off-diagonal coefficients are not negative and the "
  "exit intensity of every state lies in [min_val, max_val].",
  ["schedules", "configurations"], "all graphs on up to three nodes, mixed cardinalities, all extreme random draws",
  "The test draws one network of equal cardinalities.",
  [G + "network_generator.py", G + "network_graph.py"], [("generate_cims", G + "network_generator.py")],
  [], ["NetworkGenerator.cims"])

p("C18", "Sampled trajectories are well formed and stop where they were asked to",
  "Under every sequence of random draws, a sampled trajectory starts at time 0 with every variable in state 0, its times "
  "never decrease, exactly one variable changes from each row to the next, to another of its states, and the last row holds -1 for "
  "every variable. With max_tr there are max_tr changes before the closing one, which overwrites the last row; with t_end every "
  "time is below t_end (up to the rounding to four decimals) and the sampling continues until the next change would be later.",
  ["schedules", "configurations"], "all draw sequences from a menu of clock values and all jumps, all networks of an alphabet, t_end and max_tr",
  "The tests draw one trajectory from a file and look at its length.",
  [G + "trajectory_generator.py"], [("CTBN_Sample", G + "trajectory_generator.py")],
  [("clocks", "next change time of every variable", G + "trajectory_generator.py")], ["TrajectoryGenerator.CTBN_Sample"])

p("C19", "The sampler follows the intensity matrices of the current parent states",
  "While sampling, a variable in state x waits an exponential time with mean 1/q where q is its exit intensity in the "
  "matrix of the current states of its parents, and jumps to x' with probability q[x,x']/q. Its clock is drawn anew when it changes or when one of "
  "its parents changes and not reused, and only the variable with the earliest clock changes.",
  ["schedules", "configurations"], "all draw sequences from a menu, all networks of an alphabet (mixed cardinalities, 0 to 3 parents)",
  "No test looks at the law of the samples; statistical tests could only sample it.",
  [G + "trajectory_generator.py", G + "set_of_cims.py"], [("CTBN_Sample", G + "trajectory_generator.py")],
  [("clocks", "next change time of every variable", G + "trajectory_generator.py")], ["draws requested and trajectory returned"])

p("C20", "Parallel sampling gives one trajectory per request, each from its own randomness",
  "Requesting several trajectories returns exactly one well-formed trajectory for each requested t_end or max_tr, for "
  "every order in which the worker processes run and finish. No two of them, of the same or of successive requests, are sampled with the same random stream. A request "
  "one of whose processes fails or dies ends with an error and not with fewer trajectories.",
  ["schedules", "crash_points"], "all interleavings of the workers' operations on the shared list, all points at which a process can die, all requests up to three",
  "The test asks for some trajectories under the schedule the machine happens to produce and counts them.",
  [G + "trajectory_generator.py"], [("multi_trajectory, worker", G + "trajectory_generator.py")],
  [("shared list", "trajectories finished so far", G + "trajectory_generator.py")], ["TrajectoryGenerator.multi_trajectory"])

p("C21", "Exporting a network and importing it back gives the same network and samples",
  "A network exported to JSON and imported back has the same variables, cardinalities, edges and trajectories, and for "
  "every configuration of the parents the same matrix, labelled by the names and states of the parents. A trajectory "
  "generator built on the imported file behaves as one built on the network itself.",
  ["inputs", "configurations"], "all graphs on up to three nodes (and chosen ones on four), mixed cardinalities up to 12, label and edge orders",
  "The test exports one network and compares the keys of the file.",
  [U + "json_exporter.py", U + "json_importer.py", G + "trajectory_generator.py"],
  [("cims_to_json", U + "json_exporter.py"), ("parsing of the configurations", G + "trajectory_generator.py")],
  [], ["JsonExporter.out_file, JsonImporter.import_data, TrajectoryGenerator"])

p("C22", "Network structures stay consistent under any sequence of edits and queries",
  "After any sequence of adding and removing nodes and edges and of queries, a structure and its graph answer as a plain "
  "directed graph with labelled nodes would: the right edges, parents in variable order, and for every node its own "
  "index, position and cardinality. Queries change nothing.",
  ["histories"], "all sequences of operations up to a depth on up to four nodes, with non-contiguous indexes and mixed cardinalities",
  "Tests perform one edit at a time on one structure.",
  [G + "structure.py", G + "network_graph.py"], [("Structure.remove_node", G + "structure.py"), ("NetworkGraph.*", G + "network_graph.py")],
  [("labels, indexes, cardinalities", "parallel lists", G + "structure.py")], ["Structure and NetworkGraph getters"])

p("C23", "Results do not depend on how the same data are presented",
  "Statistics, scores, independence answers and estimated structures are unchanged, up to the renaming, when variables are "
  "renamed or listed in another order, trajectories are listed in another order, times are shifted, parents or known "
  "edges are listed in another order, or a trajectory is cut in two at an observation. For a constraint-based structure "
  "and another order of the variables this is meant where its independence answers leave no choice of order.",
  ["inputs"], "all such presentations of an alphabet of data sets",
  "Tests use each data set as it is in the file.",
  [E + "parameters_estimator.py", E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py", G + "network_graph.py"],
  [("indexes instead of labels", G + "network_graph.py get_ordered_by_indx_set_of_parents")],
  [], ["all estimation results"])

p("C26", "The saved plot shows exactly the estimated variables and edges",
  "For every estimated structure, the plot that is saved shows every variable once under its label and one arrow, in its direction, for each "
  "estimated edge and nothing else, whatever was plotted, estimated or drawn by the user before and even when an earlier plot could not "
  "be saved. Plotting changes neither the estimated structure nor the figures of the user and leaves no figure open.",
  ["inputs", "histories"], "all estimated graphs, labels, and sessions of estimations, plots, failed plots and drawings of the user",
  "The test of the plot needs a data file that is missing, and only looks whether the file exists.",
  [E + "structure_estimator.py"],
  [("figure of its own", E + "structure_estimator.py save_plot_estimated_structure_graph")],
  [("pyplot's current figure", "shared by everything that plots in the process", E + "structure_estimator.py")],
  ["what matplotlib is asked to write", "PNG file"])

p("C25", "A failed or interrupted estimation leaves everything as it was before it",
  "An estimation, independence test, score or parameter estimation that fails or is interrupted at any point (an argument that "
  "is refused, an error in a computation, an interrupt, a task that fails or a worker process that dies) ends with an error (or the complete result) and never with a "
  "partial result, and leaves the sample path, its prior edges included, and the outputs of the estimator as they were. "
  "Whatever is estimated afterwards on the same sample path, with the same or new estimators, gives what it gives on "
  "freshly imported data.",
  ["crash_points", "histories", "schedules"], "all calls into numpy, scipy, the random generator and the pool at which an estimation can fail, "
  "three kinds of errors, the operations before and after",
  "No test lets an estimation fail.",
  [E + "structure_estimator.py", E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py",
   O + "constraint_based_optimizer.py", U + "cache.py"],
  [("keep_prior_edges", E + "structure_estimator.py"), ("cache and matrix restored", E + "structure_constraint_based_estimator.py")],
  [("sample path", "shared by all estimators; its edges are taken away during a search", G + "sample_path.py"),
   ("cache", "sets of CIMs counted so far for a variable", U + "cache.py")],
  ["sequences of estimations of which one fails"])

p("C24", "With enough data the estimated structure converges to the true one",
  "As the trajectories sampled from a network grow, the probability that the structure estimated by each method is the "
  "network's own tends to one.",
  ["inputs"], "all networks, in the limit of infinite data",
  "Tests try one data set per network size.",
  [E + "structure_constraint_based_estimator.py", E + "structure_score_based_estimator.py"],
  [("consistency of the tests and of the score", E)], [], ["estimate_structure()"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
