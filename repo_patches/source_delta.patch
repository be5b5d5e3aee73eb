From ccf17196750332c3fad98162795f2354112ac7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 01/36] fix: leave the updaters dictionary passed to Grid as it
 is

The default updaters were added to the caller's own dictionary.
---
 gerrychain/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..45a3ab8 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -105,8 +105,7 @@ class Grid(Partition):
                     node: color_quadrants(node, thresholds) for node in graph.nodes  # type: ignore
                 }
 
-            if not updaters:
-                updaters = dict()
+            updaters = dict(updaters) if updaters else dict()
             updaters.update(self.default_updaters)
 
             super().__init__(graph, assignment, updaters)
-- 
2.43.0


From 2769b6afdb6a9537e2643e6afef3b0e60a94af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 02/36] fix: keep a private copy of the flips a partition was
 made from

The caller's dictionary was stored as is, so changing it after flip() changed
the statistics that the partition computes lazily.
---
 gerrychain/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index 9f484f6..ec49928 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -152,7 +152,7 @@ class Partition:
 
     def _from_parent(self, parent: "Partition", flips: Dict) -> None:
         self.parent = parent
-        self.flips = flips
+        self.flips = dict(flips)
 
         self.graph = parent.graph
         self.updaters = parent.updaters
-- 
2.43.0


From 5345d47eb112505380be07a02bb1115d77c77c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 03/36] fix: ignore nan data in tally updates as in the initial
 tally

The initial tally skips nodes with nan data (with a warning), but moving such a
node made the tallies of both districts nan for the rest of the run.
---
 gerrychain/updaters/tally.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..1de67a7 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -56,9 +56,13 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
-            return previous + inflow - outflow
+            inflow = [self.data[node] for node in new_nodes]
+            outflow = [self.data[node] for node in old_nodes]
+            return (
+                previous
+                + sum(value for value in inflow if not math.isnan(value))
+                - sum(value for value in outflow if not math.isnan(value))
+            )
 
         self._call = update_tally
 
@@ -185,7 +189,7 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    return sum(_node_totals(graph, fields, flow["out"]))
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +207,15 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    return sum(_node_totals(graph, fields, flow["in"]))
+
+
+def _node_totals(graph, fields, nodes):
+    """
+    Yields the total over ``fields`` of each of the nodes, leaving out the nodes
+    whose total is nan (just as the initial tally does).
+    """
+    for node in nodes:
+        total = sum(graph.lookup(node, field) for field in fields)
+        if not math.isnan(total):
+            yield total
-- 
2.43.0


From cc337820fb5ecc6c68ad6d2c963da80134b0a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 04/36] fix: look up the column of a DataTally on the
 partition's own graph

The first graph's column was stored in the DataTally (and so in the Election),
and every later use on another graph silently tallied the first graph's votes.
---
 gerrychain/updaters/tally.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 1de67a7..460cbb1 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -34,15 +34,15 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def get_value(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.lookup(node, self.data)
+            return self.data[node]
 
+        def initialize_tally(partition):
             tally = collections.defaultdict(int)
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = get_value(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -56,8 +56,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = [self.data[node] for node in new_nodes]
-            outflow = [self.data[node] for node in old_nodes]
+            inflow = [get_value(partition, node) for node in new_nodes]
+            outflow = [get_value(partition, node) for node in old_nodes]
             return (
                 previous
                 + sum(value for value in inflow if not math.isnan(value))
-- 
2.43.0


From 6ef86ca594580813e9ebd49c6eb2a4381e3353af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 05/36] fix: tally empty districts as zero instead of leaving
 them out

A tally first read after the parent partition was erased had no entry for a
district without nodes (or with only nan data), so election results and every
later tally that touched the district raised KeyError.
---
 gerrychain/updaters/tally.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 460cbb1..4eb6371 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -40,7 +40,9 @@ class DataTally:
             return self.data[node]
 
         def initialize_tally(partition):
-            tally = collections.defaultdict(int)
+            tally = collections.defaultdict(
+                int, {part: 0 for part in partition.assignment.parts}
+            )
             for node, part in partition.assignment.items():
                 add = get_value(partition, node)
 
@@ -131,7 +133,9 @@ class Tally:
             being the sum of the "field" attribute of nodes in that part.
         :rtype: Dict
         """
-        tally = collections.defaultdict(self.dtype)
+        tally = collections.defaultdict(
+            self.dtype, {part: self.dtype() for part in partition.assignment.parts}
+        )
         for node, part in partition.assignment.items():
             add = self._get_tally_from_node(partition, node)
 
-- 
2.43.0


From 5b2d1266484c7a92122b41a29e568d753a999e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 06/36] fix: return a new dictionary of locality scores for
 every partition

All partitions shared one dictionary, so the stored scores of every earlier
partition changed at each step.
---
 gerrychain/updaters/locality_split_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..e0abbd1 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -195,7 +195,7 @@ class LocalitySplits:
             if s == "num_split_localities":
                 self.scores[s] = self.num_split_localities(partition)
 
-        return self.scores
+        return dict(self.scores)
 
     def num_parts(self, partition) -> int:
         """
-- 
2.43.0


From fc4e46eac826442d826baef56a8ffabefad2e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 07/36] fix: locality entropies with localities that are not
 strings

The lookup used str(locality), which raised KeyError for (say) integer FIPS codes.
---
 gerrychain/updaters/locality_split_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index e0abbd1..d0d4587 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -307,7 +307,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +350,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From 334bb440fb69605e39e17e0a8983480b197fbba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 08/36] fix: read the localities from the partition's own graph

A LocalitySplits used on a second graph kept the localities of the first one.
---
 gerrychain/updaters/locality_split_scores.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index d0d4587..ae6a485 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -115,6 +115,7 @@ class LocalitySplits:
 
         self.pent_alpha = pent_alpha
 
+        self._graph = None
         self.localities = []
         self.localitydict = {}
         self.locality_splits = {}
@@ -134,9 +135,12 @@ class LocalitySplits:
 
     def __call__(self, partition):
 
-        if self.localities == []:
+        if self._graph is not partition.graph:
+            self._graph = None
+            self.allowed_pieces = {}
             self.localitydict = dict(partition.graph.nodes(data=self.col_id))
             self.localities = set(list(self.localitydict.values()))
+            self._graph = partition.graph
 
         locality_splits = {
             k: [self.localitydict[v] for v in d]
-- 
2.43.0


From c2958f642f6ffe5cf925f750e57851a1be816e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 09/36] fix: self-configuring bounds keep a bound of zero

A configured bound equal to 0 was taken for 'not configured yet', so it was
replaced by the value of each partition checked and never enforced.
---
 gerrychain/constraints/bounds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..2d259be 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,7 +196,7 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
+        if self.lbound is None or self.ubound is None:
             self.lbound = self.func(partition) * (1.0 - self.percent)
             self.ubound = self.func(partition) * (1.0 + self.percent)
             return True
-- 
2.43.0


From 38f645fa6f93d61fd2e40909b70706c10463eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 10/36] fix: check all districts for contiguity when the parent
 is gone

Without its parent a partition only had the districts that gained nodes checked,
and the districts that lost nodes were taken for contiguous.
---
 gerrychain/constraints/contiguity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..b8c8eca 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -152,12 +152,9 @@ def affected_parts(partition: Partition) -> Set[int]:
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From 4ea9eb39329d75d2a8aa8b067f63244f2473a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 11/36] fix: an empty district is not contiguous instead of an
 error

A proposal that empties a district made contiguous raise, and made
contiguous_bfs raise StopIteration, which silently ended the chain early.
---
 gerrychain/constraints/contiguity.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index b8c8eca..f1b082a 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -163,6 +163,22 @@ def affected_parts(partition: Partition) -> Set[int]:
     return affected
 
 
+def is_connected_part(partition: Partition, part: Any) -> bool:
+    """
+    Check that a part is connected. We consider the empty district to be
+    disconnected, as in :func:`single_flip_contiguous`.
+
+    :param partition: The proposed next :class:`~gerrychain.partition.Partition`
+    :type partition: Partition
+    :param part: The part to check
+    :type part: Any
+
+    :returns: Whether the part is connected.
+    :rtype: bool
+    """
+    return len(partition.parts[part]) > 0 and nx.is_connected(partition.subgraphs[part])
+
+
 def contiguous(partition: Partition) -> bool:
     """
     Check if the parts of a partition are connected using :func:`networkx.is_connected`.
@@ -174,7 +190,7 @@ def contiguous(partition: Partition) -> bool:
     :rtype: bool
     """
     return all(
-        nx.is_connected(partition.subgraphs[part]) for part in affected_parts(partition)
+        is_connected_part(partition, part) for part in affected_parts(partition)
     )
 
 
@@ -210,7 +226,7 @@ def number_of_contiguous_parts(partition: Partition) -> int:
     :rtype: int
     """
     parts = partition.assignment.parts
-    return sum(1 for part in parts if nx.is_connected(partition.subgraphs[part]))
+    return sum(1 for part in parts if is_connected_part(partition, part))
 
 
 # Create an instance of SelfConfiguringLowerBound using the number_of_contiguous_parts function.
@@ -249,10 +265,15 @@ def _bfs(graph: Dict[int, list]) -> bool:
     :returns: is this graph connected?
     :rtype: bool
     """
-    q = [next(iter(graph))]
     visited = set()
     total_vertices = len(graph)
 
+    # The empty district is considered to be disconnected.
+    if total_vertices == 0:
+        return False
+
+    q = [next(iter(graph))]
+
     # Check if the district has a single vertex. If it does, then simply return
     # `True`, as it's trivially connected.
     if total_vertices <= 1:
-- 
2.43.0


From b09dbaf97cdf2c26e785581c399dcfa51e78ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 12/36] fix: recom stops when every adjacent pair of districts
 has failed

The limit counted all pairs of districts, so with a pair that is not adjacent
the search for an untried pair never ended once all adjacent pairs had failed.
---
 gerrychain/proposals/tree_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/tree_proposals.py b/gerrychain/proposals/tree_proposals.py
index e66a718..4067449 100644
--- a/gerrychain/proposals/tree_proposals.py
+++ b/gerrychain/proposals/tree_proposals.py
@@ -93,8 +93,13 @@ def recom(
     """
 
     bad_district_pairs = set()
-    n_parts = len(partition)
-    tot_pairs = n_parts * (n_parts - 1) / 2  # n choose 2
+    # Only adjacent districts can be merged
+    tot_pairs = len(
+        {
+            frozenset(partition.assignment.mapping[node] for node in edge)
+            for edge in partition["cut_edges"]
+        }
+    )
 
     # Try to add the region aware in if the method accepts the surcharge dictionary
     if "region_surcharge" in signature(method).parameters:
-- 
2.43.0


From e2aa3fb3ba6fe99021ec232c757fad76f7de031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 13/36] fix: simulated annealing accepts large improvements
 instead of overflowing

math.exp raised OverflowError for an improvement above about 709/beta.
---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..749434d 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,9 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            return random.random() < math.exp(
+                min(0, -beta * beta_magnitude * score_delta)
+            )
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From da0138390f145ad8f50334a5acb375c67f131c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 14/36] fix: optimizers take a plan into account before
 yielding it

best_part and best_score lagged one plan behind during a run, and never saw the
last yielded plan when the caller stopped there.
---
 gerrychain/optimization/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 749434d..56d3053 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -419,12 +419,12 @@ class SingleMetricOptimizer:
             )
 
             for part in chain:
-                yield part
                 part_score = self.score(part)
 
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
                     self._best_score = part_score
+                yield part
 
     def simulated_annealing(
         self,
@@ -468,11 +468,11 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
 
     def tilted_short_bursts(
         self,
@@ -555,7 +555,6 @@ class SingleMetricOptimizer:
                 self._proposal, self._constraints, accept, self._best_part, burst_length
             )
             for part in chain:
-                yield part
                 part_score = self.score(part)
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
@@ -563,6 +562,7 @@ class SingleMetricOptimizer:
                     time_stuck = 0
                 else:
                     time_stuck += 1
+                yield part
 
                 i += 1
                 if i >= num_steps:
@@ -601,9 +601,9 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
 
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
-- 
2.43.0


From 2dc33ad9fc89c4779b1ed9a6b6af7ca08d248a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 15/36] fix: keep the random weights of spectral_cut off the
 caller's graph

The weights were written to the edges of the graph shared by all partitions,
where later spectral cuts and spanning tree counts picked them up.
---
 gerrychain/proposals/spectral_proposals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 3c213a9..f937503 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -32,8 +32,11 @@ def spectral_cut(
     n = len(nlist)
 
     if weight_type == "random":
+        weighted_graph = nx.Graph()
+        weighted_graph.add_nodes_from(nlist)
         for edge in graph.edge_indices:
-            graph.edges[edge]["weight"] = random.random()
+            weighted_graph.add_edge(*edge, weight=random.random())
+        graph = weighted_graph
 
     if lap_type == "normalized":
         LAP = (nx.normalized_laplacian_matrix(graph)).todense()
-- 
2.43.0


From f6766fa6fb19919255be3fa65e49d7c84bd8f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 16/36] fix: count spanning trees without regard to edge
 weights

An edge attribute called weight changed the reported number of spanning trees.
---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 307daf4..4ff5245 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -25,7 +25,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     :rtype: int
     """
     graph = partition.subgraphs[district]
-    laplacian = networkx.laplacian_matrix(graph)
+    laplacian = networkx.laplacian_matrix(graph, weight=None)
     L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
-- 
2.43.0


From 89518b1e32ce1fddfc6c18a3b2259044c309ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 17/36] fix: do not remove nodes from the cached node set of
 the graph

For a FrozenGraph node_indices is cached, and the partitioning functions emptied it.
---
 gerrychain/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..222d583 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -926,7 +926,7 @@ def epsilon_tree_bipartition(
         )
 
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
 
     lb_pop = pop_target * (1 - epsilon)
     ub_pop = pop_target * (1 + epsilon)
@@ -1004,7 +1004,7 @@ def recursive_tree_part(
     :rtype: dict
     """
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
     # We keep a running tally of deviation from ``epsilon`` at each partition
     # and use it to tighten the population constraints on a per-partition
     # basis such that every partition, including the last partition, has a
-- 
2.43.0


From 0562f7fad509c8c1581ee15bf84e41c42f86a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 18/36] fix: find balanced cuts in trees with two nodes

Such a tree has no node of degree above one to use as the root, so merging two
one-node districts raised IndexError.
---
 gerrychain/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 222d583..04f44ea 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -261,12 +261,12 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
     cuts = []
-    leaves = deque(x for x in h if h.degree(x) == 1)
+    leaves = deque(x for x in h if h.degree(x) == 1 and x != root)
     while len(leaves) > 0:
         leaf = leaves.popleft()
         if h.has_ideal_population(leaf, one_sided_cut=one_sided_cut):
@@ -374,7 +374,7 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From 81449bc970ec0c755d323ea1b3158e9de0018298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 19/36] fix: one-sided cuts exactly at the tolerance are
 balanced

The contraction method used a strict comparison, unlike the two-sided check and
the memoization method, so epsilon=0 never found a cut.
---
 gerrychain/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 04f44ea..dcd6bac 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -207,7 +207,7 @@ class PopulatedGraph:
         if one_sided_cut:
             return (
                 abs(self.population[node] - self.ideal_pop)
-                < self.epsilon * self.ideal_pop
+                <= self.epsilon * self.ideal_pop
             )
 
         return (
-- 
2.43.0


From 7ac1e7b3ad63a62ad0b87b9c1466ba1a238641e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 20/36] fix: enforce constraints given as a one-shot iterator
 on every partition

A generator of constraints was used up by the first check; everything was valid
afterwards.
---
 gerrychain/constraints/validity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..9c8ce65 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -27,7 +27,7 @@ class Validator:
         :param constraints: List of validator functions that will check partitions.
         :type constraints: List[Callable]
         """
-        self.constraints = constraints
+        self.constraints = list(constraints)
 
     def __call__(self, partition: Partition) -> bool:
         """
-- 
2.43.0


From 533f0069d0d2a65cf799a034b6d53e1bfd9bd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 21/36] fix: name failed constraints that have no __name__

A Validator or functools.partial that rejected the initial state raised
AttributeError instead of the documented ValueError.
---
 gerrychain/chain.py                | 4 ++--
 gerrychain/constraints/validity.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..811e21e 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -89,7 +89,7 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according is_valid. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
@@ -143,7 +143,7 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according to the new constraints. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index 9c8ce65..e7140d1 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -56,7 +56,10 @@ class Validator:
         return True
 
     def __repr__(self) -> str:
-        constraint_names = [constraint.__name__ for constraint in self.constraints]
+        constraint_names = [
+            getattr(constraint, "__name__", repr(constraint))
+            for constraint in self.constraints
+        ]
         return f"Validator(constraints={constraint_names})"
 
 
-- 
2.43.0


From f4d8357e7dc7745d4098de6cbbaeac75ee867c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 22/36] fix: cut_edge_accept accepts a partition without cut
 edges

It raised ZeroDivisionError.
---
 gerrychain/accept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/accept.py b/gerrychain/accept.py
index 92d3b5c..7601a0c 100644
--- a/gerrychain/accept.py
+++ b/gerrychain/accept.py
@@ -29,7 +29,7 @@ def cut_edge_accept(partition: Partition) -> bool:
     """
     bound = 1.0
 
-    if partition.parent is not None:
+    if partition.parent is not None and len(partition["cut_edges"]) > 0:
         bound = min(1, len(partition.parent["cut_edges"]) / len(partition["cut_edges"]))
 
     return random.random() < bound
-- 
2.43.0


From 17026832670fd6ce1d2ad1869b20a8485286b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 23/36] fix: a county split in the parent partition is an old
 split

A county stayed a NEW_SPLIT for the rest of the run once it was newly split.
---
 gerrychain/updaters/county_splits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index fad28f4..4732d39 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -107,7 +107,7 @@ def compute_county_splits(
         split = CountySplit.NOT_SPLIT
 
         if len(seen) > 1:
-            if county_info.split != CountySplit.OLD_SPLIT:
+            if county_info.split == CountySplit.NOT_SPLIT:
                 split = CountySplit.NEW_SPLIT
             else:
                 split = CountySplit.OLD_SPLIT
-- 
2.43.0


From dae174e089756c8f5938fe3914dd4e83325993e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 24/36] fix: slow_reversible_propose_bi with a node alone in
 its district

It raised ValueError for a node without neighbors in its own district.
---
 gerrychain/proposals/proposals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..20a3ab6 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -124,7 +124,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
             ]
         )
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
+    if partition.assignment.mapping[flip] in neighbor_assignments:
+        neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From 4372e191112109f22d9196d6f33045e7b94d0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 25/36] fix: propose_flip_every_district skips districts
 without cut edges

It raised IndexError once a district had vanished.
---
 gerrychain/proposals/proposals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 20a3ab6..6833e1c 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -35,6 +35,9 @@ def propose_flip_every_district(partition: Partition) -> Partition:
     flips = dict()
 
     for dist_edges in partition["cut_edges_by_part"].values():
+        if not dist_edges:
+            continue
+
         edge = random.choice(tuple(dist_edges))
 
         index = random.choice((0, 1))
-- 
2.43.0


From 0a2056a2dd2ecbea95805b243f1cbf26479bf49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 26/36] fix: a chain with total_steps=0 yields no state

It yielded the initial state although its length is 0.
---
 gerrychain/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 811e21e..cc18784 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -178,7 +178,7 @@ class MarkovChain:
 
         :raises StopIteration: If the total number of steps has been reached.
         """
-        if self.counter == 0:
+        if self.counter == 0 and self.total_steps > 0:
             self.counter += 1
             return self.state
 
-- 
2.43.0


From ef5965712fd7b3e25ba08ba117e795544a44b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 27/36] fix: save numpy booleans and floats to JSON instead of
 null

Attributes such as numpy.bool_ and numpy.float32 were silently saved as null.
---
 gerrychain/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..864ab85 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -17,6 +17,7 @@ from typing import Any
 import warnings
 
 import networkx
+import numpy
 from networkx.classes.function import frozen
 from networkx.readwrite import json_graph
 import pandas as pd
@@ -45,6 +46,9 @@ def json_serialize(input_object: Any) -> Optional[int]:
     if pd.api.types.is_integer_dtype(input_object):  # handle int64
         return int(input_object)
 
+    if isinstance(input_object, numpy.generic):  # other numpy scalars
+        return input_object.item()
+
     return None
 
 
-- 
2.43.0


From 969931b5824079f180c5d2d55a24022d24d774e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:37 +0000
Subject: [PATCH 28/36] fix: bipartition_tree_random honours one_sided_cut

The argument was ignored and one-sided cuts were always used, so the ReCom
proposal (whose default method this is) could fail with PopulationBalanceError
on pairs of districts that it can split, and the documented two-sided balance
was not ensured.
---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index dcd6bac..33d0986 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -866,7 +866,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1093,7 +1093,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, one_sided_cut=True, max_attempts=10000
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From 62afca556b94e953ee36e2d838f2992566c02401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 29/36] fix: count the spanning tree of a district with one
 node

The laplacian of such a district has no second column to delete (IndexError).
---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 4ff5245..ad52931 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -26,7 +26,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     """
     graph = partition.subgraphs[district]
     laplacian = networkx.laplacian_matrix(graph, weight=None)
-    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
+    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
 
-- 
2.43.0


From 4ef2d353c331caf75a3a38c9ceef658bdf0b3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 30/36] fix: percent range around a negative initial value is
 not empty

---
 gerrychain/constraints/bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 2d259be..ffd89df 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -197,8 +197,10 @@ class WithinPercentRangeOfBounds:
 
     def __call__(self, partition: Partition) -> bool:
         if self.lbound is None or self.ubound is None:
-            self.lbound = self.func(partition) * (1.0 - self.percent)
-            self.ubound = self.func(partition) * (1.0 + self.percent)
+            value = self.func(partition)
+            self.lbound, self.ubound = sorted(
+                (value * (1.0 - self.percent), value * (1.0 + self.percent))
+            )
             return True
         else:
             return self.lbound <= self.func(partition) <= self.ubound
-- 
2.43.0


From e88edd28350b91eff9f6fc548d7374fa96aef532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:22 +0000
Subject: [PATCH 31/36] fix: optimizers keep constraints given as a one-shot
 iterator for every burst

---
 gerrychain/optimization/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 56d3053..f70e0f2 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -66,7 +66,8 @@ class SingleMetricOptimizer:
         """
         self._initial_part = initial_state
         self._proposal = proposal
-        self._constraints = constraints
+        # A chain is built for every burst: a one-shot iterator must not run dry after the first.
+        self._constraints = constraints if callable(constraints) else list(constraints)
         self._score = optimization_metric
         self._maximize = maximize
         self._best_part = None
-- 
2.43.0


From 8474caee295d3371261033182205fa983b89551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:09 +0000
Subject: [PATCH 32/36] fix: an optimization run that fails on its first score
 does not pair the initial plan with an old best score

---
 gerrychain/optimization/optimization.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index f70e0f2..25a8c63 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -411,8 +411,8 @@ class SingleMetricOptimizer:
                 yield part
             return
 
-        self._best_part = self._initial_part
-        self._best_score = self.score(self._best_part)
+        initial_score = self.score(self._initial_part)
+        self._best_part, self._best_score = self._initial_part, initial_score
 
         for _ in range(num_bursts):
             chain = MarkovChain(
@@ -463,8 +463,8 @@ class SingleMetricOptimizer:
             num_steps,
         )
 
-        self._best_part = self._initial_part
-        self._best_score = self.score(self._best_part)
+        initial_score = self.score(self._initial_part)
+        self._best_part, self._best_score = self._initial_part, initial_score
 
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
@@ -545,8 +545,8 @@ class SingleMetricOptimizer:
                 yield part
             return
 
-        self._best_part = self._initial_part
-        self._best_score = self.score(self._best_part)
+        initial_score = self.score(self._initial_part)
+        self._best_part, self._best_score = self._initial_part, initial_score
         time_stuck = 0
         burst_length = 2
         i = 0
@@ -596,8 +596,8 @@ class SingleMetricOptimizer:
             num_steps,
         )
 
-        self._best_part = self._initial_part
-        self._best_score = self.score(self._best_part)
+        initial_score = self.score(self._initial_part)
+        self._best_part, self._best_score = self._initial_part, initial_score
 
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
-- 
2.43.0


From 0e4849175a7b5b78ae91ffb8ab751905ea16d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:49 +0000
Subject: [PATCH 33/36] fix: Gingles scores are defined when every district is
 an opportunity district

---
 gerrychain/optimization/gingleator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..2b61b89 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,9 +168,9 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=None)
 
-        if next_dist < threshold - 0.1:
+        if next_dist is None or next_dist < threshold - 0.1:
             return num_opport_dists
         else:
             return num_opport_dists + (next_dist - threshold + 0.1) * 10
-- 
2.43.0


From 8d444e1f4992206f647cc7da007372afcc30477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:32 +0000
Subject: [PATCH 34/36] fix: boundary and cut-edge statistics list every
 district

---
 gerrychain/updaters/compactness.py | 4 ++++
 gerrychain/updaters/cut_edges.py   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gerrychain/updaters/compactness.py b/gerrychain/updaters/compactness.py
index 7b42e20..97176fa 100644
--- a/gerrychain/updaters/compactness.py
+++ b/gerrychain/updaters/compactness.py
@@ -37,6 +37,8 @@ def initialize_exterior_boundaries_as_a_set(partition) -> Dict[int, Set]:
     part_boundaries = collections.defaultdict(set)
     for node in partition["boundary_nodes"]:
         part_boundaries[partition.assignment.mapping[node]].add(node)
+    for part in partition.parts:
+        part_boundaries.setdefault(part, set())
     return part_boundaries
 
 
@@ -81,6 +83,8 @@ def initialize_exterior_boundaries(partition) -> Dict[int, float]:
     for node in graph_boundary:
         part = partition.assignment.mapping[node]
         boundaries[part] += partition.graph.nodes[node]["boundary_perim"]
+    for part in partition.parts:
+        boundaries.setdefault(part, 0)
     return boundaries
 
 
diff --git a/gerrychain/updaters/cut_edges.py b/gerrychain/updaters/cut_edges.py
index 7fac766..10b8544 100644
--- a/gerrychain/updaters/cut_edges.py
+++ b/gerrychain/updaters/cut_edges.py
@@ -70,7 +70,10 @@ def initialize_cut_edges(partition):
         for edge in partition.graph.edges
         if partition.crosses_parts(edge)
     }
-    return put_edges_into_parts(edges, partition.assignment)
+    by_part = put_edges_into_parts(edges, partition.assignment)
+    for part in partition.parts:
+        by_part.setdefault(part, set())
+    return by_part
 
 
 @on_edge_flow(initialize_cut_edges, alias="cut_edges_by_part")
-- 
2.43.0


From faaf5946bf0c8e0190ba96c92a6ab8e5d04d7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 35/36] fix: graphs whose nodes are labelled by tuples can be
 loaded from the JSON they were saved as

---
 gerrychain/graph/graph.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 864ab85..4d772e0 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -12,6 +12,7 @@ imported as required.
 """
 
 import functools
+from itertools import chain
 import json
 from typing import Any
 import warnings
@@ -52,6 +53,22 @@ def json_serialize(input_object: Any) -> Optional[int]:
     return None
 
 
+def list_to_tuple(label: Any) -> Any:
+    """
+    Restores a node label that was a (possibly nested) tuple before it was
+    saved as JSON.
+
+    :param label: The label as loaded from JSON.
+    :type label: Any
+
+    :returns: The label with every list in it replaced by a tuple.
+    :rtype: Any
+    """
+    if isinstance(label, list):
+        return tuple(list_to_tuple(item) for item in label)
+    return label
+
+
 class Graph(networkx.Graph):
     """
     Represents a graph to be partitioned, extending the :class:`networkx.Graph`.
@@ -90,6 +107,10 @@ class Graph(networkx.Graph):
         """
         with open(json_file) as f:
             data = json.load(f)
+        # JSON has no tuples, and nodes labelled by tuples come back as lists.
+        for node in chain(data["nodes"], *data["adjacency"]):
+            if isinstance(node.get("id"), list):
+                node["id"] = list_to_tuple(node["id"])
         g = json_graph.adjacency_graph(data)
         graph = cls.from_networkx(g)
         graph.issue_warnings()
-- 
2.43.0


From 23c568e3002a707be959b9e248a0bf191eef97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 36/36] fix: statistics of a plan can be read after a long
 history of moves that nobody looked at

---
 gerrychain/optimization/optimization.py |  3 ++-
 gerrychain/updaters/compactness.py      |  4 ++--
 gerrychain/updaters/county_splits.py    |  4 ++--
 gerrychain/updaters/cut_edges.py        |  4 ++--
 gerrychain/updaters/election.py         |  7 +++---
 gerrychain/updaters/flows.py            | 32 +++++++++++++++++++++++--
 gerrychain/updaters/tally.py            |  4 ++--
 7 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 25a8c63..d87d866 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -1,6 +1,7 @@
 from ..chain import MarkovChain
 from ..partition import Partition
 from ..accept import always_accept
+from ..updaters.flows import parent_value
 import random
 from typing import Union, Callable, List, Any
 from tqdm import tqdm
@@ -76,7 +77,7 @@ class SingleMetricOptimizer:
 
         if self._step_indexer not in self._initial_part.updaters:
             step_updater = lambda p: (
-                0 if p.parent is None else p.parent[self._step_indexer] + 1
+                0 if p.parent is None else parent_value(p, self._step_indexer) + 1
             )
             self._initial_part.updaters[self._step_indexer] = step_updater
 
diff --git a/gerrychain/updaters/compactness.py b/gerrychain/updaters/compactness.py
index 97176fa..d45ae14 100644
--- a/gerrychain/updaters/compactness.py
+++ b/gerrychain/updaters/compactness.py
@@ -1,6 +1,6 @@
 import collections
 
-from .flows import on_flow
+from .flows import on_flow, parent_value
 from .cut_edges import on_edge_flow
 from typing import Dict, Set
 
@@ -17,7 +17,7 @@ def boundary_nodes(partition, alias: str = "boundary_nodes") -> Set:
     :rtype: Set
     """
     if partition.parent:
-        return partition.parent[alias]
+        return parent_value(partition, alias)
     return {
         node
         for node in partition.graph.nodes
diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index 4732d39..a0ea609 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -1,5 +1,6 @@
 import collections
 from enum import Enum
+from .flows import parent_value
 from typing import Callable, Dict
 
 
@@ -100,8 +101,7 @@ def compute_county_splits(
 
     new_county_dict = dict()
 
-    parent = partition.parent
-    for county, county_info in parent[partition_field].items():
+    for county, county_info in parent_value(partition, partition_field).items():
         seen = set(partition.assignment.mapping[node] for node in county_info.nodes)
 
         split = CountySplit.NOT_SPLIT
diff --git a/gerrychain/updaters/cut_edges.py b/gerrychain/updaters/cut_edges.py
index 10b8544..0782f2c 100644
--- a/gerrychain/updaters/cut_edges.py
+++ b/gerrychain/updaters/cut_edges.py
@@ -1,6 +1,6 @@
 import collections
 from typing import Dict, List, Set, Tuple
-from .flows import on_edge_flow, neighbor_flips
+from .flows import on_edge_flow, neighbor_flips, parent_value
 
 
 def put_edges_into_parts(edges: List, assignment: Dict) -> Dict:
@@ -120,4 +120,4 @@ def cut_edges(partition):
     # up with both (4,5) and (5,4) (for example) in it
     new, obsolete = new_cuts(partition), obsolete_cuts(partition)
 
-    return (parent["cut_edges"] | new) - obsolete
+    return (parent_value(partition, "cut_edges") | new) - obsolete
diff --git a/gerrychain/updaters/election.py b/gerrychain/updaters/election.py
index 2415de4..65bcb46 100644
--- a/gerrychain/updaters/election.py
+++ b/gerrychain/updaters/election.py
@@ -1,5 +1,6 @@
 import math
 from typing import Dict, List, Optional, Tuple, Union
+from gerrychain.updaters.flows import parent_value
 from gerrychain.updaters.tally import DataTally
 import gerrychain.metrics.partisan as pm
 
@@ -161,9 +162,9 @@ class ElectionUpdater:
         if parent is None:
             previous_totals_for_party = {party: None for party in self.election.parties}
         else:
-            previous_totals_for_party = partition.parent[
-                self.election.alias
-            ].totals_for_party
+            previous_totals_for_party = parent_value(
+                partition, self.election.alias
+            ).totals_for_party
         return previous_totals_for_party
 
 
diff --git a/gerrychain/updaters/flows.py b/gerrychain/updaters/flows.py
index bf00096..30e85d6 100644
--- a/gerrychain/updaters/flows.py
+++ b/gerrychain/updaters/flows.py
@@ -45,6 +45,34 @@ def flows_from_changes(old_partition, new_partition) -> Dict:
     return flows
 
 
+def parent_value(partition, alias: str):
+    """
+    Reads an updater of the parent, when the partition's own value continues from it.
+    The ancestors that were never asked for their value are asked oldest first, as
+    each continues from its own parent: a long history that nobody looked at would
+    otherwise exhaust the interpreter's stack.
+
+    :param partition: A partition that has a parent.
+    :type partition: :class:`~gerrychain.partition.Partition`
+    :param alias: The name of the updater.
+    :type alias: str
+
+    :returns: The value of the updater on the partition's parent.
+    """
+    unread = []
+    ancestor = partition.parent
+    while isinstance(getattr(ancestor, "_cache", None), dict):
+        if alias in ancestor._cache:
+            break
+        unread.append(ancestor)
+        ancestor = ancestor.parent
+
+    for ancestor in reversed(unread):
+        ancestor[alias]
+
+    return partition.parent[alias]
+
+
 def on_flow(initializer: Callable, alias: str) -> Callable:
     """
     Use this decorator to create an updater that responds to flows of nodes
@@ -90,7 +118,7 @@ def on_flow(initializer: Callable, alias: str) -> Callable:
                 return initializer(partition)
 
             if previous is None:
-                previous = partition.parent[alias]
+                previous = parent_value(partition, alias)
 
             new_values = previous.copy()
 
@@ -198,7 +226,7 @@ def on_edge_flow(initializer: Callable, alias: str) -> Callable:
             if not partition.parent:
                 return initializer(partition)
             edge_flows = partition.edge_flows
-            previous = partition.parent[alias]
+            previous = parent_value(partition, alias)
 
             new_values = previous.copy()
             for part in partition.edge_flows:
diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 4eb6371..ab7ef90 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -2,7 +2,7 @@ import collections
 import math
 import warnings
 
-from .flows import flows_from_changes, on_flow
+from .flows import flows_from_changes, on_flow, parent_value
 from typing import Dict, Union, List, Optional, Type
 import pandas
 
@@ -162,7 +162,7 @@ class Tally:
         """
         parent = partition.parent
 
-        old_tally = parent[self.alias]
+        old_tally = parent_value(partition, self.alias)
         new_tally = dict(old_tally)
 
         graph = partition.graph
-- 
2.43.0

