From 205a4d7154eecb37cddcee749b41f66e4e620485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 01/35] fix: enumerate parent configurations of mixed
 cardinalities correctly

With the default 'xy' meshgrid indexing and the swap of the first two columns,
column 0 ranged over the states of parent 1 and column 1 over those of parent 0,
so for parents of different cardinality impossible configurations were listed
and real ones were missing.  The order for equal cardinalities is unchanged.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 7e965b610a3b166004bb5a6a3145340ec7066dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 02/35] fix: index the sufficient statistics with the right
 strides

The flat index of a (state, parent configuration) cell was built from the
cumulative product divided by the node's cardinality, which is the mixed radix
stride only when every variable has the same cardinality.  With mixed
cardinalities cells collided or the reshape failed.
---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..2119175 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,8 +81,8 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
-                           .astype(np.int), \
+        strides = np.append(1, scalar_indexes_struct[:-1])
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * strides, axis=1).astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
 
@@ -105,7 +105,8 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        strides = np.append(1, scalar_indexing[:-1])
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * strides, axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 94b8169e143cbb2ff6016864c5f1a3f161bfc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 03/35] fix: keep the times and the rows of a sampled
 trajectory

The frame was created with integer columns, so every sampled time was truncated
to an integer, and the new row was built as a view of the last one and written
through chained indexing, so each transition overwrote the row before it (the
trajectory did not even start in the initial state).
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..f4d5032 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,14 +77,13 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0.0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames))
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
 
         while True:
-            current_values = sigma.loc[len(sigma) - 1]
+            current_values = sigma[self._vnames].loc[len(sigma) - 1]
             
             for i in range(0, time.size):
                 if np.isnan(time[i]):
@@ -123,9 +122,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = sigma[-1:].copy()
+                new_row[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row["Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From b44085996fc9b0d3f51354c4caadd1557355f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 04/35] fix: sample dwell times with the mean given by the
 intensity

numpy's exponential takes the mean, not the rate: a variable that leaves its
state with intensity q has to wait 1/q on average, not q.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index f4d5032..fe094f9 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -98,7 +98,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 1b1c208697a6060292a9d803c3f2e0f8cf663ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 05/35] fix: give each process of multi_trajectory its own
 random stream

Forked workers inherit the same generator state, so all the trajectories of a
call were copies of each other.  The seeds are drawn from the parent's
generator, so that seeding it still makes the result reproducible.
---
 .../structure_graph/trajectory_generator.py       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index fe094f9..9896101 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -135,7 +135,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -144,8 +144,13 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: Seed of the process' random generator, if None the inherited state is used
+            :type seed: int
         """
-        
+
+        if seed is not None:
+            np.random.seed(seed)
+
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -164,10 +169,12 @@ class TrajectoryGenerator(object):
 
         trajectories = Manager().list()
 
+        seeds = np.random.randint(2 ** 32, size = len(t_ends if t_ends is not None else max_trs), dtype = np.uint64)
+
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, s)) for t, s in zip(t_ends, seeds)]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, s)) for m, s in zip(max_trs, seeds)]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 431eca6f073dfc1965ff60f245b3d2323e5aab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 06/35] fix: draw the tabu candidate from a sequence

random.sample rejects sets since Python 3.11, so the default optimizer always
failed with a TypeError.  Sorting also makes a seeded search independent of the
hash order of the labels.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..ccd856e 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = sample(sorted(current_possible_nodes),k=1)[0]
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From a17d70717d3ba075255fa26bc0f61e0f3ab598cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 07/35] fix: end the score searches at once when no move is
 possible

If every other node was a known parent of the node the hill climbing failed
with an IndexError and the tabu search waited forever on its empty queue; with
no room left by max_parents (for instance max_parents=0) both failed.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 6 +++++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..9d812ef 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -88,7 +88,11 @@ class HillClimbing(Optimizer):
                                             self.structure_estimator._sample_path.structure.nodes_labels if
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)]
-        
+
+        'No move is possible if every other node is a known parent or the known parents already fill max_parents'
+        if not other_nodes or (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
         patince_count = 0
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index ccd856e..6dd92c3 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -98,6 +98,10 @@ class TabuSearch(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)])
 
+        'No move is possible if every other node is a known parent or the known parents already fill max_parents'
+        if not other_nodes or (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
-- 
2.43.0


From 151cc689853b7b5b501ec206da31c41c88ca0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 08/35] fix: never swap out a known edge when max_parents is
 reached

The parent replaced by the new one was drawn from all the parents, the ones
given as prior knowledge included.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 2 +-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index 9d812ef..1f12ace 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -111,7 +111,7 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        parent_removed = (choice([p for p in parents_list if p not in prior_parents]), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 6dd92c3..386d92b 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -143,7 +143,7 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        parent_removed = (choice([p for p in parents_list if p not in prior_parents]), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
-- 
2.43.0


From e8637548fbda5553ae12c10f5b9ff2470940b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 09/35] fix: keep the isolated variables in the estimated
 structure

A variable without estimated edges was missing from the saved results, and
adjacency_matrix failed because it asked for it.
---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From de18caeab5d5b6eb2a4f4553c9e0017c09486004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 10/35] fix: make spurious_edges return the spurious edges

The estimation removes the prior edges from the structure, so the result was
always empty afterwards; before it, the edges of the real structure missing
from the graph were returned instead of the ones that are only in the graph.
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..f13f327 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -43,6 +43,7 @@ class StructureEstimator(object):
         self._nodes_indxs = self._sample_path.structure.nodes_indexes
         self._removable_edges_matrix = self.build_removable_edges_matrix(known_edges)
         self._complete_graph = StructureEstimator.build_complete_graph(self._sample_path.structure.nodes_labels)
+        self._prior_net_edges = list(map(tuple, self._sample_path.structure.edges))
         
 
     def build_removable_edges_matrix(self, known_edges: typing.List):
@@ -137,12 +138,12 @@ class StructureEstimator(object):
         :return: A list containing the spurious edges
         :rtype: List
         """
-        if not self._sample_path.has_prior_net_structure:
+        if not self._prior_net_edges:
             return []
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
-        real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        real_graph.add_edges_from(self._prior_net_edges)
+        return nx.difference(self._complete_graph, real_graph).edges
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
-- 
2.43.0


From 0a5234b7fbc086cdc0a9ee8816aac640a2a23c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 11/35] fix: do not carry the edges frozen by the thumb rule
 into the next run

The tests mark an edge they have too few data for as not removable in the
matrix that holds the prior knowledge.  In a single process the mark outlived
the search, so a second estimation could return a different structure.
---
 PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
index aeb67fc..945efa7 100644
--- a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
+++ b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
@@ -64,6 +64,7 @@ class ConstraintBasedOptimizer(Optimizer):
         
         u = other_nodes
         child_states_numb = self.structure_estimator._sample_path.structure.get_states_number(self.node_id)
+        removable_edges_matrix = self.structure_estimator._removable_edges_matrix.copy()
         b = 0
         while b < len(u):
             parent_indx = 0
@@ -84,4 +85,5 @@ class ConstraintBasedOptimizer(Optimizer):
                     parent_indx += 1
             b += 1
         self.structure_estimator._cache.clear()
+        self.structure_estimator._removable_edges_matrix = removable_edges_matrix
         return graph.edges
\ No newline at end of file
-- 
2.43.0


From efe66abdcdb9803cbf5b4ef2d8bed418107385e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 12/35] fix: skip empty cells in the chi-square test instead of
 disabling it

A transition never observed in either sample gave 0/0, the sum became NaN and
the test could not reject any more, whatever the other transitions were.
---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..dd21542 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -165,7 +165,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
                          (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
-- 
2.43.0


From 73a165f7529ff1ab7bad511e88278d806e4fb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 13/35] fix: do not overwrite a variable named like a shifted
 column

With variables A and AS the shifted copy of A took the place of the column AS.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..1a7b848 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -106,7 +106,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in self._sorter for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From dc2efcabc3102cc1d7f3b3cf5b35b76e880d0d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 14/35] fix: accept a time column that is not called Time

The name is configurable (time_key) and the importers take the first column as
the time, but the processed columns were selected with a fixed label.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 1a7b848..440a367 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -116,7 +116,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, df_samples_list[0].columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
-- 
2.43.0


From 7728d0ff9e7ecca727803755a1040687f822fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 15/35] fix: drop only the last row of a trajectory

Dropping by label removed every row that shares the last row's index label, up
to the whole trajectory, when the index of the frame is not unique.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 440a367..4bfd847 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 0785f5bc8a93b79cfd36a3900428f6fad18626f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 16/35] fix: number the variables by position, not by the
 frame's index

The node indexes select columns of the trajectories, so variables described by
a frame with another index (a filtered one, say) read the wrong columns.
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..eebf5c9 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(self._total_variables_count)
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From c5fee1e078ae02b1e019b302e7f6cf4e36c85b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 17/35] fix: reject an importer whose data were never imported

The samples are an empty list until import_data is called, which passed the
check and failed later with an AttributeError.
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index eebf5c9..0c569ca 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -36,6 +36,8 @@ class SamplePath(object):
         if isinstance(self._importer._concatenated_samples, pd.DataFrame) and\
             self._importer._concatenated_samples.empty:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
+        if isinstance(self._importer._concatenated_samples, list) and not self._importer._concatenated_samples:
+                raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         if isinstance(self._importer._concatenated_samples, np.ndarray) and\
             self._importer._concatenated_samples.size == 0:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
-- 
2.43.0


From 93e693a45165a2e81b68f318ae083c392589ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 18/35] fix: look up the label of a node by its index, not by
 its position

They differ after a node was removed and in the structures over a subset of the
variables, so get_node_id was not the inverse of get_node_indx.
---
 PyCTBN/PyCTBN/structure_graph/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index eb3edda..bd27b46 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -71,7 +71,7 @@ class Structure(object):
         :return: the node label
         :rtype: string
         """
-        return self._nodes_labels_list[node_indx]
+        return self._nodes_labels_list[list(self._nodes_indexes_arr).index(node_indx)]
 
     def clean_structure_edges(self):
         self._edges_list = list()
-- 
2.43.0


From 73678098bba0cb2f4edbc5aa8c9c549a2e598ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 19/35] fix: update the positional indexes when a node is
 removed

The nodes after the removed one kept their old position, unlike in the
structure the graph is built on.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index a6dc756..805a717 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -111,6 +111,7 @@ class NetworkGraph(object):
         """
         self._graph.remove_node(node_id)
         self._graph_struct.remove_node(node_id)
+        self.add_nodes(self._graph_struct.nodes_labels)
         self.clear_indexing_filtering_structures()
 
     def clear_indexing_filtering_structures(self) -> None:
-- 
2.43.0


From e134636532401b2ebf9fc91cb3fe075911667d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 20/35] fix: accept every fixed density that gives a whole
 number of edges

Rounding errors made valid densities fail (3/30 over six nodes), and an integer
density raised a TypeError.
---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..cbecfed 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if not np.isclose(n_edges, round(n_edges)):
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = int(round(n_edges))
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From cd251f1e24994500882ee16448f4b0abc899c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 21/35] fix: order the parents by variable and accept a net
 without edges

The columns of the parents configurations follow the order of the variables, but
the parents were taken in the order of the edges, so listing the edges in
another order applied the CIM of another configuration.  A net imported without
edges has no To column and failed with a KeyError.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 9896101..f5c153e 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -36,11 +36,11 @@ class TrajectoryGenerator(object):
         self._vnames = self._importer._df_variables.iloc[:, 0].to_list() if importer is not None else variables.iloc[:, 0].to_list()
  
         self._parents = {}
+        edges = self._importer._df_structure if importer is not None else dyn_str
         for v in self._vnames:
-            if importer is not None:
-                self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
-            else:
-                self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+            # In the order of the variables, as the parents configurations of the CIMs, and not of the edges
+            parents = [] if edges.empty else edges.loc[edges["To"] == v, "From"].tolist()
+            self._parents[v] = [p for p in self._vnames if p in parents]
         
         self._cims = {}
         if importer is not None:
-- 
2.43.0


From bf35e4b59e8b0d04b26d57e432377a7f7474575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 22/35] fix: read the parents configuration of an imported CIM
 by name

Only the first digit of a state was read, and the states were matched to the
parents by position whatever names the key gives them; with a single parent the
position of the key was even taken as the parent's state.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index f5c153e..567ba17 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -49,8 +49,12 @@ class TrajectoryGenerator(object):
             for v in sampled_cims.keys():
                 p_combs = []
                 v_cims = []
+                p_values = {}
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    values = dict(re.findall(r"([^,]+)=(\d+)", comb))
+                    p_values[comb] = [int(values[p]) for p in self._parents[v]]
+                for comb in sorted(p_values, key = p_values.get):
+                    p_combs.append(p_values[comb])
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From 9b0cb61584015f7036cf5159d26586ce57554de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 23/35] fix: name the exported parents configurations in
 variable order

The columns of the configurations follow the order of the variables, so listing
the edges in another order exported the CIMs under the wrong configurations.
---
 PyCTBN/PyCTBN/utility/json_exporter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 43b11da..9a2b25e 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -51,7 +51,8 @@ class JsonExporter(AbstractExporter):
 
         for i, l in enumerate(self._variables.iloc[:, 0].to_list()):
             json_cims[l] = {}
-            parents = self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist()
+            parents = self._dyn_str.loc[self._dyn_str["To"] == l, "From"].tolist()
+            parents = [p for p in self._variables.iloc[:, 0].to_list() if p in parents]
             for j, comb in enumerate(self._dyn_cims[l].p_combs):
                 comb_key = ""
                 if len(parents) != 0:
-- 
2.43.0


From b55cf9a97fa7631f8e152a1fa0969e1aa3c9e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 24/35] fix: accept imported variables whose columns are not
 Name and Value

Their names are configurable (variables_key) and everything else reads them by
position; the cardinalities stored with the CIMs were whole Series.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 567ba17..ff2c8f3 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -45,6 +45,7 @@ class TrajectoryGenerator(object):
         self._cims = {}
         if importer is not None:
             sampled_cims = self._importer._cims
+            cards = dict(zip(self._vnames, self._importer._df_variables.iloc[:, 1].to_list()))
         
             for v in sampled_cims.keys():
                 p_combs = []
@@ -58,12 +59,8 @@ class TrajectoryGenerator(object):
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-                if importer is not None:
-                    sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables["Name"] == p)["Value"] for p in self._parents[v]], 
-                        node_states_number = self._importer._df_variables.where(self._importer._df_variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
-                else:
-                    sof = SetOfCims(node_id = v, parents_states_number = [variables.where(variables["Name"] == p)["Value"] for p in self._parents[v]], 
-                        node_states_number = variables.where(variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
+                sof = SetOfCims(node_id = v, parents_states_number = [cards[p] for p in self._parents[v]],
+                    node_states_number = cards[v], p_combs = np.array(p_combs), cims = v_cims)
                 self._cims[v] = sof
         else:
             self._cims = dyn_cims
-- 
2.43.0


From 7fc32c9f962e5153da74a42f5ac3f09419c1c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 25/35] fix: sample from CIMs with integer coefficients

An imported matrix of whole numbers is an integer array, whose row cannot be
normalised in place.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index ff2c8f3..cc68328 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -118,7 +118,7 @@ class TrajectoryGenerator(object):
                 else:
                     cim = cim_obj[0].cim
                     
-                cim_row = np.array(cim[current_values.at[self._vnames[next]]])
+                cim_row = np.array(cim[current_values.at[self._vnames[next]]], dtype = float)
                 cim_row[current_values.at[self._vnames[next]]] = 0
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
-- 
2.43.0


From 4a1ad4393948bdbca2089115ca5051ff7a6ec443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 26/35] fix: build the graph whenever one of the two sets of
 CIMs is not cached

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index dd21542..45c15d0 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -91,7 +91,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         p_set.insert(0, test_parent)
         sofc2 = self._cache.find(set(p_set))
 
-        if not sofc2:
+        if not sofc2 or not self._cache.find(set(parent_set)):
             complete_info.append(test_parent)
             bool_mask2 = np.isin(self._nodes, complete_info)
             l2 = list(self._nodes[bool_mask2])
-- 
2.43.0


From cafbc3c33d7f6432bec553a948456f58fb402ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 27/35] fix: do not answer a test with the cached CIMs of
 another child

---
 .../estimators/structure_constraint_based_estimator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 45c15d0..3f224f1 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -89,9 +89,9 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cims_filter = sorted_parents != test_parent
 
         p_set.insert(0, test_parent)
-        sofc2 = self._cache.find(set(p_set))
+        sofc2 = self._cache.find((test_child, set(p_set)))
 
-        if not sofc2 or not self._cache.find(set(parent_set)):
+        if not sofc2 or not self._cache.find((test_child, set(parent_set))):
             complete_info.append(test_parent)
             bool_mask2 = np.isin(self._nodes, complete_info)
             l2 = list(self._nodes[bool_mask2])
@@ -104,17 +104,17 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             p2 = ParametersEstimator(self._sample_path.trajectories, g2)
             p2.fast_init(test_child)
             sofc2 = p2.compute_parameters_for_node(test_child)
-            self._cache.put(set(p_set), sofc2)
+            self._cache.put((test_child, set(p_set)), sofc2)
 
         del p_set[0]
-        sofc1 = self._cache.find(set(p_set))
+        sofc1 = self._cache.find((test_child, set(p_set)))
         if not sofc1:
             g2.remove_node(test_parent)
             g2.fast_init(test_child)
             p2 = ParametersEstimator(self._sample_path.trajectories, g2)
             p2.fast_init(test_child)
             sofc1 = p2.compute_parameters_for_node(test_child)
-            self._cache.put(set(p_set), sofc1)
+            self._cache.put((test_child, set(p_set)), sofc1)
         thumb_value = 0.0
         if child_states_numb > 2:
             parent_val = self._sample_path.structure.get_states_number(test_parent)
-- 
2.43.0


From ba02b4f5abb6d1fc2c4b781a3ad9b805976af3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 28/35] fix: put the prior edges back after an estimation

---
 .../estimators/structure_constraint_based_estimator.py       | 5 +++++
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 3f224f1..a955d4f 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -222,6 +222,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cpu_count = multiprocessing.cpu_count()
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         'Estimate the best parents for each node'
@@ -241,6 +242,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
+        'Put the prior edges back in the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..ebe2d76 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -84,6 +84,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = set(map(tuple, true_edges))
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         estimate_parents = self.estimate_parents
@@ -130,6 +131,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
                                                             l_optimizer)
 
 
+        'Put the prior edges back in the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
-- 
2.43.0


From 2e5cbbd6803be92643093ddfefc01cb1df165a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 29/35] fix: export CIMs holding integer coefficients

---
 PyCTBN/PyCTBN/utility/json_exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 9a2b25e..3258a4f 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -71,6 +71,6 @@ class JsonExporter(AbstractExporter):
                 else:
                     cim = cim[0].cim
                 
-                json_cims[l][comb_key] = [dict([(str(i), val) for i, val in enumerate(row)]) for row in cim]
+                json_cims[l][comb_key] = [dict([(str(i), val) for i, val in enumerate(row)]) for row in np.asarray(cim).tolist()]
 
         return json_cims
\ No newline at end of file
-- 
2.43.0


From ab1ff2e2eb043ce31ad80ff21428d4093e562149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 30/35] fix: add nodes with their own index, position and
 cardinality

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 805a717..e83f5d7 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -81,10 +81,9 @@ class NetworkGraph(object):
         """
         nodes_indxs = self._graph_struct.nodes_indexes
         nodes_vals = self._graph_struct.nodes_values
-        pos = 0
-        for id, node_indx, node_val in zip(list_of_nodes, nodes_indxs, nodes_vals):
-            self._graph.add_node(id, indx=node_indx, val=node_val, pos_indx=pos)
-            pos += 1
+        for id in list_of_nodes:
+            pos = self._graph_struct.get_positional_node_indx(id)
+            self._graph.add_node(id, indx=nodes_indxs[pos], val=nodes_vals[pos], pos_indx=pos)
 
     def has_edge(self,edge:tuple)-> bool:
         """
-- 
2.43.0


From 6e7b41ccaaa1e17d65b50b27ab9ae8f1fed85fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 31/35] fix: JsonImporter computed durations from the first
 member of the records, not from the time key

---
 PyCTBN/PyCTBN/utility/json_importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 781be4d..0a5c98b 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -62,6 +62,9 @@ class JsonImporter(AbstractImporter):
         self._array_indx = indx
         self._df_samples_list = self.import_trajectories(self._raw_data)
         self._sorter = self.build_sorter(self._df_samples_list[0])
+        # The members of a json object have no order: the time goes first wherever the file has it
+        self._df_samples_list = [frame[[self._time_key] + frame.columns.drop(self._time_key).to_list()]
+                                 for frame in self._df_samples_list]
         self.compute_row_delta_in_all_samples_frames(self._df_samples_list)
         self.clear_data_frame_list()
         self._df_structure = self.import_structure(self._raw_data)
-- 
2.43.0


From e76a87f7e1c1787c67562234126109646426444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:35 +0000
Subject: [PATCH 32/35] fix: a failed or interrupted estimation lost the prior
 edges and kept what it had cached

---
 .../structure_constraint_based_estimator.py    | 17 ++++++++++-------
 .../PyCTBN/estimators/structure_estimator.py   | 18 ++++++++++++++++++
 .../structure_score_based_estimator.py         |  8 ++------
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index a955d4f..a079971 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -18,7 +18,7 @@ from ..utility.cache import Cache
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keep_prior_edges
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from ..optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
@@ -199,9 +199,17 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                             node_id = var_id,
                                                             structure_estimator = self,
                                                             tot_vars_count = tot_vars_count)
-        return optimizer_obj.optimize_structure()
+        removable_edges_matrix = self._removable_edges_matrix.copy()
+        try:
+            return optimizer_obj.optimize_structure()
+        except BaseException:
+            # What a search that fails has learned about this variable must not be used by the next one
+            self._cache.clear()
+            self._removable_edges_matrix = removable_edges_matrix
+            raise
 
     
+    @keep_prior_edges
     def ctpc_algorithm(self, disable_multiprocessing:bool= False, processes_number:int= None):
         """Compute the CTPC algorithm over the entire net.
 
@@ -222,7 +230,6 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cpu_count = multiprocessing.cpu_count()
 
         'Remove all the edges from the structure'   
-        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         'Estimate the best parents for each node'
@@ -242,10 +249,6 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
-        'Put the prior edges back in the structure'
-        for edge in prior_edges:
-            self._sample_path.structure.add_edge(edge)
-
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index f13f327..345667b 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -2,6 +2,7 @@
 # License: MIT License
 
 
+import functools
 import itertools
 import json
 import typing
@@ -23,6 +24,23 @@ from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 
 
+def keep_prior_edges(search):
+    """Decorator for the searches that work on the structure without edges: puts the prior edges of the sample path
+    back when the search ends, also if it fails.
+    """
+    @functools.wraps(search)
+    def wrapper(self, *args, **kwargs):
+        structure = self._sample_path.structure
+        prior_edges = structure.edges[:]
+        try:
+            return search(self, *args, **kwargs)
+        finally:
+            structure.clean_structure_edges()
+            for edge in prior_edges:
+                structure.add_edge(edge)
+    return wrapper
+
+
 class StructureEstimator(object):
     """Has the task of estimating the network structure given the trajectories in ``samplepath``.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index ebe2d76..2933e3d 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -19,7 +19,7 @@ import copy
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keep_prior_edges
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from .fam_score_calculator import FamScoreCalculator
@@ -55,6 +55,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         self.alpha_xu=alpha_xu
 
 
+    @keep_prior_edges
     def estimate_structure(self, max_parents:int = None, iterations_number:int= 40,
                          patience:int = None, tabu_length:int = None, tabu_rules_duration:int = None,
                          optimizer: str = 'tabu', disable_multiprocessing:bool= False, processes_number:int= None):
@@ -84,7 +85,6 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = set(map(tuple, true_edges))
 
         'Remove all the edges from the structure'   
-        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         estimate_parents = self.estimate_parents
@@ -131,10 +131,6 @@ class StructureScoreBasedEstimator(StructureEstimator):
                                                             l_optimizer)
 
 
-        'Put the prior edges back in the structure'
-        for edge in prior_edges:
-            self._sample_path.structure.add_edge(edge)
-
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
-- 
2.43.0


From 61a29f5c6b538a4b298c496cb656b80636a6292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 33/35] fix: tabu search waited forever with a tabu_length of 0

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 386d92b..f46baac 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -170,12 +170,12 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
-                    current_removed = tabu_queue.get()
-                    tabu_set.remove(current_removed)
             'Add the node on the tabu list'
             tabu_queue.put(current_new_parent)
             tabu_set.add(current_new_parent)
+            if tabu_queue.qsize() > self.tabu_length:
+                    current_removed = tabu_queue.get()
+                    tabu_set.remove(current_removed)
 
             tabu_count += 1
 
-- 
2.43.0


From 5546f9200e29c494a566ed61bace9412f8867f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:00 +0000
Subject: [PATCH 34/35] fix: parallel sampling returned fewer trajectories than
 asked when a process failed

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index cc68328..eb9e202 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -183,4 +183,7 @@ class TrajectoryGenerator(object):
         for p in processes:
             p.join()
 
+        if len(trajectories) != len(processes):
+            raise RuntimeError("A process that was sampling a trajectory failed")
+
         return trajectories
\ No newline at end of file
-- 
2.43.0


From c9914fbb419a0ef7fdd1dd6d54fde2b591fa0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:48 +0000
Subject: [PATCH 35/35] fix: plot of the estimated structure failed with
 current matplotlib and kept what was on the current figure

---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 345667b..58a37fc 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -185,12 +185,15 @@ class StructureEstimator(object):
             #"edge_color":edges_colors,
         }
 
-        nx.draw(self._complete_graph, pos, **options)
-        ax = plt.gca()
-        ax.margins(0.20)
-        plt.axis("off")
-        plt.savefig(file_path)
-        plt.clf()
+        fig = plt.figure()
+        try:
+            ax = fig.add_axes((0, 0, 1, 1))
+            nx.draw(self._complete_graph, pos, ax=ax, **options)
+            ax.margins(0.20)
+            ax.axis("off")
+            fig.savefig(file_path)
+        finally:
+            plt.close(fig)
         print("Estimated Structure Plot Saved At: ", os.path.abspath(file_path))
 
 
-- 
2.43.0

