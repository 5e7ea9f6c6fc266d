From d52a9779c6b11900923780cffc3805a724826685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/38] fix: sampled trajectories lost their times and repeated
 rows

The trajectory frame was inferred as all-integer, so every sampled time was
truncated (all zeros with the installed pandas), and the new row could share
memory with the previous one. Keep the frame as objects while sampling, copy
the row, and give the result its natural dtypes.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..ae8343f 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0.0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.infer_objects()
                 self._generated_trajectory = sigma
                 return sigma
             else:
@@ -123,9 +123,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
+                new_row.at[0, self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row.at[0, "Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From fcf5cb77e073527838fb92594668b62eb29c9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/38] fix: sample sojourn times with mean 1/q instead of q

numpy's exponential takes the scale (mean), but the intensity was passed, so
fast states were left slowly and the reverse.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index ae8343f..3664bb5 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -98,7 +98,8 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    # the sojourn time has rate param: numpy wants the mean (a null rate never fires)
+                    time[i] = t + random.exponential(scale = 1 / param if param > 0 else np.inf)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 90635f533b6bd3fc9f4e23ff1d1981bf17561a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 03/38] fix: trajectories generated in parallel were copies of
 one another

Every forked worker inherited the same random state, so equal bounds gave
identical trajectories. Give each worker its own seed, drawn from the parent.
---
 .../PyCTBN/structure_graph/trajectory_generator.py  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 3664bb5..1cee8a2 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -137,7 +137,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -146,8 +146,12 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: Seed of the random generator of the process (a forked process inherits the state of its parent)
+            :type seed: int
         """
         
+        if seed is not None:
+            random.seed(seed)
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -166,10 +170,9 @@ class TrajectoryGenerator(object):
 
         trajectories = Manager().list()
 
-        if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
-        else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+        bounds = [(t, -1) for t in t_ends] if t_ends is not None else [(-1, m) for m in max_trs]
+        seeds = random.randint(0, 2 ** 31 - 1, size = len(bounds))
+        processes = [Process(target = self.worker, args = (t, m, trajectories, seed)) for (t, m), seed in zip(bounds, seeds)]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 717f2cbf0e25b2949609e0b5255508c458018191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 04/38] fix: a network without edges could not be sampled after
 an import

The imported structure frame of an edgeless network has no columns.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 1cee8a2..54d3768 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -37,7 +37,9 @@ class TrajectoryGenerator(object):
  
         self._parents = {}
         for v in self._vnames:
-            if importer is not None:
+            if importer is not None and (self._importer._df_structure is None or self._importer._df_structure.empty):
+                self._parents[v] = []
+            elif importer is not None:
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
-- 
2.43.0


From 123873ca8e93aafed99e9404696986e96d39da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 05/38] fix: parent states above 9 were read by their first
 digit on import

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 54d3768..13d7f0c 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -52,7 +52,7 @@ class TrajectoryGenerator(object):
                 p_combs = []
                 v_cims = []
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From dc89992c7c00afcf0b6655a200f7eaf78f38fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 06/38] fix: parent configurations of parents with different
 cardinalities

The first two columns were swapped after building the grid, which is only
right when both parents have the same number of states: otherwise the CIMs
were labelled with configurations that do not exist.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 5594184ea6c8806e9a600cc2ec55a0a6666e146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 07/38] fix: tabu search always failed on Python 3.11 and later

random.sample no longer accepts a set; choose from the sorted candidates.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..e0a9842 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = choice(sorted(current_possible_nodes))
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From 156d745bbc9b0beb6147d6dbab2c61ca64b7d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/38] fix: score based search crashed or hung when no parent
 is left to try

With every other node a known parent (or a single variable), hill climbing
raised on an empty choice and tabu search waited forever on an empty queue.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 4 ++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..db08e5f 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -91,6 +91,10 @@ class HillClimbing(Optimizer):
         
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
+        'nothing to search if every other node is a known parent'
+        if not other_nodes:
+            return graph.edges
+
         patince_count = 0
         for i in range(self.iterations_number):
             'choose a new random edge'
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index e0a9842..2530d52 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -102,6 +102,10 @@ class TabuSearch(Optimizer):
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
 
+        'nothing to search if every other node is a known parent'
+        if not other_nodes:
+            return graph.edges
+
         'initialize tabu_length and tabu_rules_duration if None'
         if self.tabu_length is None:
             self.tabu_length = len(other_nodes)
-- 
2.43.0


From 78d6f28b61bf38eeca5ff74bdb31a88683cec42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 09/38] fix: tabu search hung with a tabu list of length 0

It removed from the still empty queue before adding to it.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 2530d52..853b112 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -170,12 +170,12 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
-                    current_removed = tabu_queue.get()
-                    tabu_set.remove(current_removed)
             'Add the node on the tabu list'
             tabu_queue.put(current_new_parent)
             tabu_set.add(current_new_parent)
+            if tabu_queue.qsize() > self.tabu_length:
+                    current_removed = tabu_queue.get()
+                    tabu_set.remove(current_removed)
 
             tabu_count += 1
 
-- 
2.43.0


From a70aad5da34092e600eeca6e817c18a45b5159b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 10/38] fix: the parent limit could evict a parent known a
 priori

The parent replaced to respect max_parents was drawn among all parents, known
ones included, so a known edge could be missing from the result; with a limit
of 0 the draw was empty and the search raised.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 4 ++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index db08e5f..d0500ea 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -111,6 +111,10 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
+                        'the parents known a priori can not be replaced'
+                        parents_list = [parent for parent in parents_list if parent not in prior_parents]
+                        if not parents_list:
+                            break
                         parent_removed = (choice(parents_list), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 853b112..6206095 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -143,6 +143,10 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
+                        'the parents known a priori can not be replaced'
+                        parents_list = [parent for parent in parents_list if parent not in prior_parents]
+                        if not parents_list:
+                            break
                         parent_removed = (choice(parents_list), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
-- 
2.43.0


From 0a788daac9a28214c67f8d9a015846d08af6c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 11/38] fix: saved results omitted the nodes without edges

The README promises all the node labels in the saved file.
---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From b3d4241663bd5055289f1e0c1b4b3b9489b94975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 12/38] fix: estimating a structure erased the prior structure
 of the sample path

A second estimation on the same sample path compared itself with an empty
network, and spurious_edges() always answered that there was nothing to say.
---
 .../estimators/structure_constraint_based_estimator.py    | 6 ++++++
 .../PyCTBN/estimators/structure_score_based_estimator.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..65d5efd 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -222,6 +222,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cpu_count = multiprocessing.cpu_count()
 
         'Remove all the edges from the structure'   
+        prior_edges = list(self._sample_path.structure.edges)
         self._sample_path.structure.clean_structure_edges()
 
         'Estimate the best parents for each node'
@@ -243,6 +244,11 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
+
+        'Restore the prior edges of the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         self._complete_graph = nx.DiGraph()
         self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..ec91850 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -80,8 +80,8 @@ class StructureScoreBasedEstimator(StructureEstimator):
         :type processes_number: int, optional
         """
         'Save the true edges structure in tuples'
-        true_edges = copy.deepcopy(self._sample_path.structure.edges)
-        true_edges = set(map(tuple, true_edges))
+        prior_edges = copy.deepcopy(self._sample_path.structure.edges)
+        true_edges = set(map(tuple, prior_edges))
 
         'Remove all the edges from the structure'   
         self._sample_path.structure.clean_structure_edges()
@@ -133,6 +133,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
+        'Restore the prior edges of the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
 
         'calculate precision and recall'
         n_missing_edges = 0
-- 
2.43.0


From ebe9131a07f4c4672580f38c9b45f654527c3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 13/38] fix: spurious_edges returned the missing edges instead

It subtracted the estimated structure from the real one, not the reverse.
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..3d14e35 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -142,7 +142,7 @@ class StructureEstimator(object):
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return nx.difference(self._complete_graph, real_graph).edges
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
-- 
2.43.0


From 5ff0b942827fb3a14164d82465fb8747788f21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 14/38] fix: sufficient statistics of a node with parents of
 other cardinalities

---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..b8ec07f 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,7 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * np.append(1, scalar_indexes_struct[:-1]), axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +105,7 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * np.append(1, scalar_indexing[:-1]), axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 03d83763ff4b507d236177d4004cd18498606c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 15/38] fix: an independence test crashed when only its larger
 graph was cached

---
 .../structure_constraint_based_estimator.py      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 65d5efd..8850895 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -109,11 +109,17 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         del p_set[0]
         sofc1 = self._cache.find(set(p_set))
         if not sofc1:
-            g2.remove_node(test_parent)
-            g2.fast_init(test_child)
-            p2 = ParametersEstimator(self._sample_path.trajectories, g2)
-            p2.fast_init(test_child)
-            sofc1 = p2.compute_parameters_for_node(test_child)
+            bool_mask1 = np.isin(self._nodes, p_set + [test_child])
+            l1 = list(self._nodes[bool_mask1])
+            indxs1 = self._nodes_indxs[bool_mask1]
+            vals1 = self._nodes_vals[bool_mask1]
+            eds1 = list(itertools.product(p_set, [test_child]))
+            s1 = Structure(l1, indxs1, vals1, eds1, tot_vars_count)
+            g1 = NetworkGraph(s1)
+            g1.fast_init(test_child)
+            p1 = ParametersEstimator(self._sample_path.trajectories, g1)
+            p1.fast_init(test_child)
+            sofc1 = p1.compute_parameters_for_node(test_child)
             self._cache.put(set(p_set), sofc1)
         thumb_value = 0.0
         if child_states_numb > 2:
-- 
2.43.0


From 64cb9d6a963f8001f6143fa1cde86d4153b4c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 16/38] fix: a transition never observed disabled the chi
 square test

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 8850895..4424fcf 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -171,8 +171,8 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
-                         (M1_no_diag[val] + M2_no_diag[val]))
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+                            (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
         return True
-- 
2.43.0


From 45778203169e058875a65991cacf7332bd8e970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 17/38] fix: independence tests used the cached parameters of
 another node

---
 .../estimators/structure_constraint_based_estimator.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4424fcf..4e4c01a 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -89,7 +89,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cims_filter = sorted_parents != test_parent
 
         p_set.insert(0, test_parent)
-        sofc2 = self._cache.find(set(p_set))
+        sofc2 = self._cache.find((test_child, set(p_set)))
 
         if not sofc2:
             complete_info.append(test_parent)
@@ -104,10 +104,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             p2 = ParametersEstimator(self._sample_path.trajectories, g2)
             p2.fast_init(test_child)
             sofc2 = p2.compute_parameters_for_node(test_child)
-            self._cache.put(set(p_set), sofc2)
+            self._cache.put((test_child, set(p_set)), sofc2)
 
         del p_set[0]
-        sofc1 = self._cache.find(set(p_set))
+        sofc1 = self._cache.find((test_child, set(p_set)))
         if not sofc1:
             bool_mask1 = np.isin(self._nodes, p_set + [test_child])
             l1 = list(self._nodes[bool_mask1])
@@ -120,7 +120,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             p1 = ParametersEstimator(self._sample_path.trajectories, g1)
             p1.fast_init(test_child)
             sofc1 = p1.compute_parameters_for_node(test_child)
-            self._cache.put(set(p_set), sofc1)
+            self._cache.put((test_child, set(p_set)), sofc1)
         thumb_value = 0.0
         if child_states_numb > 2:
             parent_val = self._sample_path.structure.get_states_number(test_parent)
-- 
2.43.0


From 982def796bbf56085ed049b7a63381c7a50f41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 18/38] fix: a sequential ctpc run changed the outcome of the
 following runs

---
 .../estimators/structure_constraint_based_estimator.py       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4e4c01a..7971670 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -231,6 +231,8 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         prior_edges = list(self._sample_path.structure.edges)
         self._sample_path.structure.clean_structure_edges()
 
+        removable_edges_matrix = self._removable_edges_matrix.copy()
+
         'Estimate the best parents for each node'
         #with multiprocessing.Pool(processes=cpu_count) as pool:
         #with get_context("spawn").Pool(processes=cpu_count) as pool:
@@ -248,6 +250,9 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
+        'Restore the removable edges, the tests of this run can have changed them'
+        self._removable_edges_matrix = removable_edges_matrix
+
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
 
-- 
2.43.0


From 9b30c1e52e1e701a29edd06a57d56f0cfed727ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 19/38] fix: importing rows with repeated labels lost
 transitions

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..47ded64 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 887bdb13e17428bf0dca0339fefc8c52c285c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 20/38] fix: the time key was ignored and the first column read
 as the time

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 PyCTBN/PyCTBN/utility/json_importer.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 47ded64..aec5f67 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -112,7 +112,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, df_samples_list[0].columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 781be4d..d27584c 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -145,6 +145,8 @@ class JsonImporter(AbstractImporter):
         dataframe = pd.DataFrame
         smps = raw_data[indx][trajectories_key]
         df_samples_list = [dataframe(sample) for sample in smps]
+        for sample_frame in df_samples_list:
+            sample_frame.insert(0, self._time_key, sample_frame.pop(self._time_key))
         return df_samples_list
 
     def build_sorter(self, sample_frame: pd.DataFrame) -> typing.List:
-- 
2.43.0


From 374e40fb7c66da320b7a1b2f0e845b429fdcb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 21/38] fix: labels like A and AS collided in the shifted
 columns

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index aec5f67..4bfd847 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -105,7 +105,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in self._sorter for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From 265059750266dcb8f76f1207fe20fe9488d31aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 22/38] fix: row labels of the variables frame were used as
 column indexes

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..74dc7a6 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From 21cf5fc58515b7668d3f0159b445589380f93155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 23/38] fix: prior edges could not be looked up or removed

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 74dc7a6..81a7741 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -66,7 +66,7 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(self._importer.structure.to_records(index=False))
+            edges = list(self._importer.structure.itertuples(index=False, name=None))
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
-- 
2.43.0


From 76905ef78f8d60e49c3396769f52d28b8d8ea2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 24/38] fix: valid fixed densities were rejected because of
 rounding errors

---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..85a2182 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if abs(n_edges - round(n_edges)) > 1e-9:
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = round(n_edges)
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From e4a2ce9414fbcf2ed03f3c9ad63f559f180056ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 25/38] fix: exported parents were mislabelled when the edges
 were in another order

---
 PyCTBN/PyCTBN/utility/json_exporter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 43b11da..7b0f0a6 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -52,6 +52,7 @@ class JsonExporter(AbstractExporter):
         for i, l in enumerate(self._variables.iloc[:, 0].to_list()):
             json_cims[l] = {}
             parents = self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist()
+            parents.sort(key=self._variables.iloc[:, 0].to_list().index)
             for j, comb in enumerate(self._dyn_cims[l].p_combs):
                 comb_key = ""
                 if len(parents) != 0:
-- 
2.43.0


From 8da763ad2ed0c3a3d4c3b916763624506ce06cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 26/38] fix: parents listed in another order selected the wrong
 intensity matrices

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 13d7f0c..c9be78d 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -43,6 +43,7 @@ class TrajectoryGenerator(object):
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+            self._parents[v].sort(key = self._vnames.index)
         
         self._cims = {}
         if importer is not None:
@@ -51,8 +52,10 @@ class TrajectoryGenerator(object):
             for v in sampled_cims.keys():
                 p_combs = []
                 v_cims = []
-                for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
+                states = {comb: dict(re.findall(r"([^,]*)=(\d+)(?:,|$)", comb)) for comb in sampled_cims[v].keys()}
+                combs = {comb: [int(states[comb][p]) for p in self._parents[v]] for comb in states}
+                for comb in sorted(combs, key = lambda comb: combs[comb][::-1]):
+                    p_combs.append(np.array(combs[comb], dtype = "int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From 8bee1f210bbdf9e25c2ca9a22b287b846a7520fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 27/38] fix: structures with the same labels in another order
 are not equal

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index eb3edda..7a8f9d5 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -118,7 +118,7 @@ class Structure(object):
     def __eq__(self, other):
         """Overrides the default implementation"""
         if isinstance(other, Structure):
-            return set(self._nodes_labels_list) == set(other._nodes_labels_list) and \
+            return list(self._nodes_labels_list) == list(other._nodes_labels_list) and \
                    np.array_equal(self._nodes_vals_arr, other._nodes_vals_arr) and \
                    np.array_equal(self._nodes_indexes_arr, other._nodes_indexes_arr) and \
                    self._edges_list == other._edges_list
-- 
2.43.0


From ae2dd8c294250b3e69e6736a07b5ad70ff675836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 28/38] fix: restore the prior edges and the removable edges
 when learning fails

---
 .../structure_constraint_based_estimator.py   |  3 ++-
 .../PyCTBN/estimators/structure_estimator.py  | 20 +++++++++++++++++++
 .../structure_score_based_estimator.py        |  3 ++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 7971670..26b0f31 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -18,7 +18,7 @@ from ..utility.cache import Cache
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, restore_on_failure
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from ..optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
@@ -208,6 +208,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         return optimizer_obj.optimize_structure()
 
     
+    @restore_on_failure
     def ctpc_algorithm(self, disable_multiprocessing:bool= False, processes_number:int= None):
         """Compute the CTPC algorithm over the entire net.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 3d14e35..a7dc95c 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -2,6 +2,7 @@
 # License: MIT License
 
 
+import functools
 import itertools
 import json
 import typing
@@ -23,6 +24,25 @@ from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 
 
+def restore_on_failure(learn):
+    """Decorates a learning method: when it fails, the prior edges of the structure and the removable edges,
+    which are changed while learning, are the ones they were before it was called.
+    """
+    @functools.wraps(learn)
+    def wrapper(self, *args, **kwargs):
+        prior_edges = list(self._sample_path.structure.edges)
+        removable_edges_matrix = self._removable_edges_matrix.copy()
+        try:
+            return learn(self, *args, **kwargs)
+        except BaseException:
+            self._sample_path.structure.clean_structure_edges()
+            for edge in prior_edges:
+                self._sample_path.structure.add_edge(edge)
+            self._removable_edges_matrix = removable_edges_matrix
+            raise
+    return wrapper
+
+
 class StructureEstimator(object):
     """Has the task of estimating the network structure given the trajectories in ``samplepath``.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index ec91850..74e1775 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -19,7 +19,7 @@ import copy
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, restore_on_failure
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from .fam_score_calculator import FamScoreCalculator
@@ -55,6 +55,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         self.alpha_xu=alpha_xu
 
 
+    @restore_on_failure
     def estimate_structure(self, max_parents:int = None, iterations_number:int= 40,
                          patience:int = None, tabu_length:int = None, tabu_rules_duration:int = None,
                          optimizer: str = 'tabu', disable_multiprocessing:bool= False, processes_number:int= None):
-- 
2.43.0


From 7ac46caad0ee605b581be817d6acfc358bdbb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 29/38] fix: JsonImporter: the keys of variables and edges may
 be listed in any order

An entry {"To": .., "From": ..} became the reversed edge, and {"Value": .., "Name": ..} a variable labelled by its cardinality,
although the keys of a JSON object have no order and the key of the labels is a parameter of the importer.
---
 PyCTBN/PyCTBN/utility/json_importer.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index d27584c..e4731ec 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -88,7 +88,8 @@ class JsonImporter(AbstractImporter):
         :return: Dataframe containg the starting node a ending node of every arc of the network
         :rtype: pandas.Dataframe
         """
-        return self.one_level_normalizing(raw_data, self._array_indx, self._structure_label)
+        structure = self.one_level_normalizing(raw_data, self._array_indx, self._structure_label)
+        return self.with_first_columns(structure, ['From', 'To'])
 
     def import_variables(self, raw_data: typing.List) -> pd.DataFrame:
         """Imports the data in ``raw_data`` at the key ``_variables_label``.
@@ -98,7 +99,23 @@ class JsonImporter(AbstractImporter):
         :return: Datframe containg the variables simbolic labels and their cardinalities
         :rtype: pandas.Dataframe
         """
-        return self.one_level_normalizing(raw_data, self._array_indx, self._variables_label)
+        variables = self.one_level_normalizing(raw_data, self._array_indx, self._variables_label)
+        return self.with_first_columns(variables, [self._variables_key])
+
+    @staticmethod
+    def with_first_columns(frame: pd.DataFrame, columns: typing.List) -> pd.DataFrame:
+        """Moves the given columns, if they are there, to the front of a frame: the keys of a JSON object have no order.
+
+        :param frame: the frame
+        :type frame: pandas.Dataframe
+        :param columns: the labels of the columns, in the wanted order
+        :type columns: List
+        :return: the frame with these columns first
+        :rtype: pandas.Dataframe
+        """
+        if not set(columns).issubset(frame.columns):
+            return frame
+        return frame[columns + [c for c in frame.columns if c not in columns]]
 
     def read_json_file(self) -> typing.List:
         """Reads the JSON file in the path self.filePath.
-- 
2.43.0


From 5f89310f321ad261587d5a483a402aed38c49d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 30/38] fix: sample networks whose intensities are whole
 numbers

A row of integers (as read from a document that lists -1 and 1 rather than -1.0 and 1.0) can not be divided in place.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index c9be78d..eb8e06e 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -124,7 +124,7 @@ class TrajectoryGenerator(object):
                 else:
                     cim = cim_obj[0].cim
                     
-                cim_row = np.array(cim[current_values.at[self._vnames[next]]])
+                cim_row = np.array(cim[current_values.at[self._vnames[next]]], dtype = float)
                 cim_row[current_values.at[self._vnames[next]]] = 0
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
-- 
2.43.0


From 44e9c7fa964fac364bdab180700a5dc5e113f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 31/38] fix: JsonExporter: write intensity matrices of integers

numpy integers are not JSON serializable: the export ended with a TypeError and half a document.
---
 PyCTBN/PyCTBN/utility/json_exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 7b0f0a6..914d2ee 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -71,6 +71,6 @@ class JsonExporter(AbstractExporter):
                 else:
                     cim = cim[0].cim
                 
-                json_cims[l][comb_key] = [dict([(str(i), val) for i, val in enumerate(row)]) for row in cim]
+                json_cims[l][comb_key] = [dict([(str(i), float(val)) for i, val in enumerate(row)]) for row in cim]
 
         return json_cims
\ No newline at end of file
-- 
2.43.0


From 4b2951c34ebb93816419645f0f8d4a75bedc3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 32/38] fix: JsonExporter: keep the times of the trajectories
 as they are

DataFrame.to_json cuts numbers to ten decimals: shorter durations came back as zero.
---
 PyCTBN/PyCTBN/utility/json_exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 914d2ee..8a09295 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -37,7 +37,7 @@ class JsonExporter(AbstractExporter):
             "dyn.str": json.loads(self._dyn_str.to_json(orient="records")),
             "variables": json.loads(self._variables.to_json(orient="records")),
             "dyn.cims": self.cims_to_json(),
-            "samples": [json.loads(trajectory.to_json(orient="records")) for trajectory in self._trajectories]
+            "samples": [trajectory.to_dict(orient="records") for trajectory in self._trajectories]
         }]
 
         path = os.getcwd()
-- 
2.43.0


From 49861a450495150f4b0d6ef2ec186c7f44c2228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 33/38] fix: multi_trajectory reports trajectories that could
 not be generated

When a process failed or was killed the list that was returned was silently too short.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index eb8e06e..ad6ca0d 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -185,4 +185,7 @@ class TrajectoryGenerator(object):
         for p in processes:
             p.join()
 
+        if any(p.exitcode != 0 for p in processes):
+            raise RuntimeError("A process that generates a trajectory has failed!")
+
         return trajectories
\ No newline at end of file
-- 
2.43.0


From cc3f29eddd359da4b9ff1915910593fb2d2b0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 34/38] fix: TrajectoryGenerator: the states of a row of a
 document may be listed in any order

The keys of a JSON object have no order: with the first row listed otherwise the columns of the matrix were swapped.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index ad6ca0d..2508208 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -56,7 +56,10 @@ class TrajectoryGenerator(object):
                 combs = {comb: [int(states[comb][p]) for p in self._parents[v]] for comb in states}
                 for comb in sorted(combs, key = lambda comb: combs[comb][::-1]):
                     p_combs.append(np.array(combs[comb], dtype = "int"))
-                    cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
+                    cim = pd.DataFrame(sampled_cims[v][comb])
+                    if all(str(state).isdigit() for state in cim.columns):
+                        cim = cim[sorted(cim.columns, key = int)]
+                    cim = cim.to_numpy()
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
                 if importer is not None:
-- 
2.43.0


From c97be089b2fda2138c466756898be363d5d89875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 35/38] fix: JsonExporter: an export that fails leaves the
 document that was there

What can not be written was noticed only after the old document had been emptied.
---
 PyCTBN/PyCTBN/utility/json_exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 8a09295..793aaff 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -40,9 +40,11 @@ class JsonExporter(AbstractExporter):
             "samples": [trajectory.to_dict(orient="records") for trajectory in self._trajectories]
         }]
 
+        document = json.dumps(data)
+
         path = os.getcwd()
         with open(path + "/" + filename, "w") as json_file:
-            json.dump(data, json_file)
+            json_file.write(document)
 
     """Restructure the CIMs object in order to fit the standard JSON file structure 
     """
-- 
2.43.0


From d9e30d6ea7a96d13dcaaecd3a091782d7cc69f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:56 +0000
Subject: [PATCH 36/38] fix: a failed import leaves the importer as it was

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 15 +++++++++++++++
 PyCTBN/PyCTBN/utility/json_importer.py     |  3 ++-
 PyCTBN/PyCTBN/utility/sample_importer.py   |  3 ++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 4bfd847..a846b89 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -9,6 +9,21 @@ import numpy as np
 import pandas as pd
 
 import copy
+import functools
+
+
+def unchanged_on_failure(import_data):
+    """Decorates the method of an importer that imports the data: when it fails, the importer is as it was before.
+    """
+    @functools.wraps(import_data)
+    def wrapper(self, *args, **kwargs):
+        members = self.__dict__.copy()
+        try:
+            return import_data(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = members
+            raise
+    return wrapper
 
 
 
diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index e4731ec..1971711 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -7,7 +7,7 @@ import typing
 import pandas as pd
 
 
-from .abstract_importer import AbstractImporter
+from .abstract_importer import AbstractImporter, unchanged_on_failure
 
 
 class JsonImporter(AbstractImporter):
@@ -53,6 +53,7 @@ class JsonImporter(AbstractImporter):
         super(JsonImporter, self).__init__(file_path)
         self._raw_data = self.read_json_file()
 
+    @unchanged_on_failure
     def import_data(self, indx: int = 0) -> None:
         """Implements the abstract method of :class:`AbstractImporter`.
 
diff --git a/PyCTBN/PyCTBN/utility/sample_importer.py b/PyCTBN/PyCTBN/utility/sample_importer.py
index 4c3fdf0..8983c51 100644
--- a/PyCTBN/PyCTBN/utility/sample_importer.py
+++ b/PyCTBN/PyCTBN/utility/sample_importer.py
@@ -7,7 +7,7 @@ import typing
 import pandas as pd
 import numpy as np
 
-from .abstract_importer import AbstractImporter
+from .abstract_importer import AbstractImporter, unchanged_on_failure
 
 
 
@@ -42,6 +42,7 @@ class SampleImporter(AbstractImporter):
                                         variables= variables,
                                         prior_net_structure=prior_net_structure)
 
+    @unchanged_on_failure
     def import_data(self, header_column = None):
 
         if header_column is not None:
-- 
2.43.0


From 47d7e0b77792dbde5437a0be2536394c0fd5f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:56 +0000
Subject: [PATCH 37/38] fix: generating the parameters of a network replaces
 them only when it succeeds

---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index 85a2182..78cc5a4 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -70,7 +70,7 @@ class NetworkGenerator(object):
         if self._graph is None:
             return
 
-        self._cims = {}
+        cims = {}
 
         for i, l in enumerate(self._labels):
             p_info = self._graph.get_ordered_by_indx_set_of_parents(l)
@@ -86,9 +86,11 @@ class NetworkGenerator(object):
                 cim = self.__generate_cim(min_val, max_val, self._vals[i])
                 node_cims.append(ConditionalIntensityMatrix(cim = cim))
                 
-            self._cims[l] = SetOfCims(node_id = l, parents_states_number = p_info[2], node_states_number = self._vals[i], p_combs = combs, 
+            cims[l] = SetOfCims(node_id = l, parents_states_number = p_info[2], node_states_number = self._vals[i], p_combs = combs, 
                 cims = np.array(node_cims))
 
+        self._cims = cims
+
     def __generate_cim(self, min_val, max_val, shape):
         """Generate a valid CIM matrix, with coefficients in the range [min_val, max_val] and with dimension [shape, shape]
 
-- 
2.43.0


From 015ba2b37b30b6cb1ec4b71645f160a30073dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:17 +0000
Subject: [PATCH 38/38] fix: a document that names its variables under another
 key can be sampled from

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 2508208..7fb9d8d 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -63,8 +63,10 @@ class TrajectoryGenerator(object):
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
                 if importer is not None:
-                    sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables["Name"] == p)["Value"] for p in self._parents[v]], 
-                        node_states_number = self._importer._df_variables.where(self._importer._df_variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
+                    # the columns of the variables have the labels they have in the dataset
+                    cards = dict(zip(self._vnames, self._importer._df_variables.iloc[:, 1]))
+                    sof = SetOfCims(node_id = v, parents_states_number = [cards[p] for p in self._parents[v]], 
+                        node_states_number = cards[v], p_combs = np.array(p_combs), cims = v_cims)
                 else:
                     sof = SetOfCims(node_id = v, parents_states_number = [variables.where(variables["Name"] == p)["Value"] for p in self._parents[v]], 
                         node_states_number = variables.where(variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
-- 
2.43.0

