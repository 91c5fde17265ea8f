From 7bfd888126c28376729ba309b0a46709c6d42d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 01/33] fix: tallies ignore NaN in every step and read the
 partition's own graph

NaN was ignored only by the initial tally and poisoned later ones, a district
with nothing but NaN had no entry, and a DataTally kept the data of the first
graph it saw when it was reused on another graph.
---
 gerrychain/updaters/tally.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..49c9f46 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -34,15 +34,21 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def lookup(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.lookup(node, self.data)
+            return self.data[node]
+
+        def flow_total(partition, nodes):
+            values = (lookup(partition, node) for node in nodes)
+            return sum(value for value in values if not math.isnan(value))
 
+        def initialize_tally(partition):
             tally = collections.defaultdict(int)
+            for part in partition.parts:
+                tally[part] = 0
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = lookup(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -56,8 +62,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
+            inflow = flow_total(partition, new_nodes)
+            outflow = flow_total(partition, old_nodes)
             return previous + inflow - outflow
 
         self._call = update_tally
@@ -128,6 +134,8 @@ class Tally:
         :rtype: Dict
         """
         tally = collections.defaultdict(self.dtype)
+        for part in partition.parts:
+            tally[part] = self.dtype()
         for node, part in partition.assignment.items():
             add = self._get_tally_from_node(partition, node)
 
@@ -170,6 +178,12 @@ class Tally:
         return sum(partition.graph.lookup(node, field) for field in self.fields)
 
 
+def _flow_total(graph, fields: List[str], nodes) -> int:
+    # Nodes whose data is NaN are ignored, just as in the initial tally
+    totals = (sum(graph.lookup(node, field) for field in fields) for node in nodes)
+    return sum(total for total in totals if not math.isnan(total))
+
+
 def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     """
     :param graph: The graph that the partition is defined on.
@@ -185,7 +199,7 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    return _flow_total(graph, fields, flow["out"])
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +217,4 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    return _flow_total(graph, fields, flow["in"])
-- 
2.43.0


From 7d42e3a1918f6c74d0d552e13ede501f97d9867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 02/33] fix: count the spanning trees of single-node districts

The minor deleted column 1, which a one-node district does not have.
---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 307daf4..a4129f4 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -26,7 +26,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     """
     graph = partition.subgraphs[district]
     laplacian = networkx.laplacian_matrix(graph)
-    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
+    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
 
-- 
2.43.0


From 405f57e606405b4ebe1c70855223af7ad5f5bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 03/33] fix: consider every part when the parent of a partition
 is gone

Once a chain had dropped the parent, contiguity was only checked for the parts
that gained a node, and not for those that lost one.
---
 gerrychain/constraints/contiguity.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..61f60cb 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -152,12 +152,10 @@ def affected_parts(partition: Partition) -> Set[int]:
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    # Without a parent to compare with, every part has to be considered
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From 936c7a361c0c9af6031518200415909a1b43ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 04/33] fix: a vanished district makes a plan discontiguous, in
 every check

contiguous raised NetworkXPointlessConcept, and contiguous_bfs StopIteration
(which ended a chain early); single_flip_contiguous already returned False.
---
 gerrychain/constraints/contiguity.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index 61f60cb..83f0a37 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -164,6 +164,11 @@ def affected_parts(partition: Partition) -> Set[int]:
     return affected
 
 
+def _is_connected(graph: nx.Graph) -> bool:
+    # We consider the empty district to be disconnected.
+    return len(graph) > 0 and nx.is_connected(graph)
+
+
 def contiguous(partition: Partition) -> bool:
     """
     Check if the parts of a partition are connected using :func:`networkx.is_connected`.
@@ -175,7 +180,7 @@ def contiguous(partition: Partition) -> bool:
     :rtype: bool
     """
     return all(
-        nx.is_connected(partition.subgraphs[part]) for part in affected_parts(partition)
+        _is_connected(partition.subgraphs[part]) for part in affected_parts(partition)
     )
 
 
@@ -211,7 +216,7 @@ def number_of_contiguous_parts(partition: Partition) -> int:
     :rtype: int
     """
     parts = partition.assignment.parts
-    return sum(1 for part in parts if nx.is_connected(partition.subgraphs[part]))
+    return sum(1 for part in parts if _is_connected(partition.subgraphs[part]))
 
 
 # Create an instance of SelfConfiguringLowerBound using the number_of_contiguous_parts function.
@@ -250,6 +255,10 @@ def _bfs(graph: Dict[int, list]) -> bool:
     :returns: is this graph connected?
     :rtype: bool
     """
+    # We consider the empty district to be disconnected.
+    if not graph:
+        return False
+
     q = [next(iter(graph))]
     visited = set()
     total_vertices = len(graph)
-- 
2.43.0


From 83d0bff86e98de8fe8c9e604df7123ede75a3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 05/33] fix: self-configuring bounds keep a bound of zero

A bound of 0 was taken for 'not set yet', so the bound moved along with every
partition; bounds around a negative value were swapped.
---
 gerrychain/constraints/bounds.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..52c5dc0 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,9 +196,10 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
-            self.lbound = self.func(partition) * (1.0 - self.percent)
-            self.ubound = self.func(partition) * (1.0 + self.percent)
+        if self.lbound is None:
+            initial = self.func(partition)
+            self.lbound = initial - abs(initial) * self.percent
+            self.ubound = initial + abs(initial) * self.percent
             return True
         else:
             return self.lbound <= self.func(partition) <= self.ubound
-- 
2.43.0


From cc3fb57b963640c6d5379026ad120083d24df2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 06/33] fix: LocalitySplits scores belong to the partition they
 were computed for

Every call returned and overwrote the same dictionary, so the scores of earlier
partitions changed; the locality data of the first graph was used for all
others; localities that are not strings raised KeyError in two entropies.
---
 gerrychain/updaters/locality_split_scores.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..e824f83 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -130,10 +130,18 @@ class LocalitySplits:
         # certain use cases.
         self.allowed_pieces = {}
 
+        # The graph that the locality data above was read from
+        self._graph = None
+
         self.scores = dict.fromkeys(scores_to_compute)
 
     def __call__(self, partition):
 
+        if partition.graph is not self._graph:
+            self._graph = partition.graph
+            self.localities = []
+            self.allowed_pieces = {}
+
         if self.localities == []:
             self.localitydict = dict(partition.graph.nodes(data=self.col_id))
             self.localities = set(list(self.localitydict.values()))
@@ -173,6 +181,9 @@ class LocalitySplits:
                 allowed_pieces[loc] = math.ceil(pop / (totpop / num_districts))
             self.allowed_pieces = allowed_pieces
 
+        # A new dictionary, because the one from the previous call is the value
+        # of this updater for another partition
+        self.scores = dict.fromkeys(self.scores)
         for s in self.scores:
             if s == "num_parts":
                 self.scores[s] = self.num_parts(partition)
@@ -307,7 +318,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +361,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From d51d27f45e2d333d8b2c50b040c2e20ea539b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 07/33] fix: a county split in the parent is an old split

A new split stayed NEW_SPLIT in every descendant, so refuse_new_splits kept
rejecting plans that split no further county.
---
 gerrychain/updaters/county_splits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index fad28f4..4732d39 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -107,7 +107,7 @@ def compute_county_splits(
         split = CountySplit.NOT_SPLIT
 
         if len(seen) > 1:
-            if county_info.split != CountySplit.OLD_SPLIT:
+            if county_info.split == CountySplit.NOT_SPLIT:
                 split = CountySplit.NEW_SPLIT
             else:
                 split = CountySplit.OLD_SPLIT
-- 
2.43.0


From 63f4d51823a567af8ef62698e35637eea1d5ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 08/33] fix: find the balanced cut of a tree with two nodes

The root was only chosen among nodes of degree 2 or more, so recombining two
single-node districts raised IndexError.
---
 gerrychain/tree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..5db8de5 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -240,6 +240,11 @@ Cut.subset.__doc__ = (
 )
 
 
+def _root_candidates(h: PopulatedGraph) -> List:
+    # A tree with just two nodes has nothing but leaves to choose from
+    return [x for x in h if h.degree(x) > 1] or [x for x in h if h.degree(x) == 1]
+
+
 def find_balanced_edge_cuts_contraction(
     h: PopulatedGraph, one_sided_cut: bool = False, choice: Callable = random.choice
 ) -> List[Cut]:
@@ -261,12 +266,12 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice(_root_candidates(h))
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
     cuts = []
-    leaves = deque(x for x in h if h.degree(x) == 1)
+    leaves = deque(x for x in h if h.degree(x) == 1 and x != root)
     while len(leaves) > 0:
         leaf = leaves.popleft()
         if h.has_ideal_population(leaf, one_sided_cut=one_sided_cut):
@@ -374,7 +379,7 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice(_root_candidates(h))
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From 0f0b73f5e70c7e2ccb9db4f2b039afa0aecf6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 09/33] fix: bipartition_tree_random honours one_sided_cut

It always cut one-sidedly, so the complement could be out of balance and the
ReCom proposal class raised PopulationBalanceError.
---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 5db8de5..f7f3a7d 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -871,7 +871,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1098,7 +1098,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, max_attempts=10000, one_sided_cut=True
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From 0bf3b540722c0c2460cb4861791da567231342e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 10/33] fix: recom gives up once every adjacent pair of
 districts has failed

It waited for all pairs of districts to fail, and looped forever when some of
them are not adjacent.
---
 gerrychain/proposals/tree_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/tree_proposals.py b/gerrychain/proposals/tree_proposals.py
index e66a718..f6ae671 100644
--- a/gerrychain/proposals/tree_proposals.py
+++ b/gerrychain/proposals/tree_proposals.py
@@ -93,8 +93,13 @@ def recom(
     """
 
     bad_district_pairs = set()
-    n_parts = len(partition)
-    tot_pairs = n_parts * (n_parts - 1) / 2  # n choose 2
+    # Only pairs of adjacent districts can ever be selected
+    tot_pairs = len(
+        {
+            frozenset(partition.assignment.mapping[node] for node in edge)
+            for edge in partition["cut_edges"]
+        }
+    )
 
     # Try to add the region aware in if the method accepts the surcharge dictionary
     if "region_surcharge" in signature(method).parameters:
-- 
2.43.0


From b97aabf39b45ac0599d6b6715f08821e6ac71253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 11/33] fix: simulated annealing accepts large improvements

math.exp raised OverflowError when the score improved by more than about 709.
---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..48c1232 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,9 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            exponent = -beta * beta_magnitude * score_delta
+            # Anything above 0 means certain acceptance, and could overflow
+            return random.random() < math.exp(min(exponent, 0))
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From 1a427a4a26f2b6d078f26c0d986ddca566acd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 12/33] fix: variable length bursts do get longer

Every burst starts at the best plan, which ties with itself, and a tie reset
the counter: the burst length never left 2.
---
 gerrychain/optimization/optimization.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 48c1232..309aae3 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -557,19 +557,25 @@ class SingleMetricOptimizer:
             for part in chain:
                 yield part
                 part_score = self.score(part)
-                if self._is_improvement(part_score, self._best_score):
-                    self._best_part = part
-                    self._best_score = part_score
+                # A tie replaces the best plan, but is not an improvement
+                if part_score != self._best_score and self._is_improvement(
+                    part_score, self._best_score
+                ):
                     time_stuck = 0
                 else:
                     time_stuck += 1
 
+                if self._is_improvement(part_score, self._best_score):
+                    self._best_part = part
+                    self._best_score = part_score
+
                 i += 1
                 if i >= num_steps:
                     break
 
             if time_stuck >= stuck_buffer * burst_length:
                 burst_length *= 2
+                time_stuck = 0
 
     def tilted_run(self, num_steps: int, p: float, with_progress_bar: bool = False):
         """
-- 
2.43.0


From b61b4ac287733466a72d70f13ffaa3a4d1e2e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 13/33] fix: Gingles scores of plans where every district is
 above the threshold

max() of no district raised ValueError.
---
 gerrychain/optimization/gingleator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..2b61b89 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,9 +168,9 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=None)
 
-        if next_dist < threshold - 0.1:
+        if next_dist is None or next_dist < threshold - 0.1:
             return num_opport_dists
         else:
             return num_opport_dists + (next_dist - threshold + 0.1) * 10
-- 
2.43.0


From 0f94e87c3fa7c7569e83658b2acbf9cfb4395b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 14/33] fix: count each neighbor in the metagraph once

A node with several cut edges into the same district yielded the same flip once
per edge, and metagraph_degree counted all of them.
---
 gerrychain/metagraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerrychain/metagraph.py b/gerrychain/metagraph.py
index 438af20..477b25e 100644
--- a/gerrychain/metagraph.py
+++ b/gerrychain/metagraph.py
@@ -27,8 +27,12 @@ def all_cut_edge_flips(partition: Partition) -> Iterator[Dict]:
     :returns: An iterator that yields dictionaries representing the flipped edges.
     :rtype: Iterator[Dict]
     """
+    seen = set()
     for edge, index in product(partition.cut_edges, (0, 1)):
-        yield {edge[index]: partition.assignment.mapping[edge[1 - index]]}
+        flip = (edge[index], partition.assignment.mapping[edge[1 - index]])
+        if flip not in seen:
+            seen.add(flip)
+            yield {flip[0]: flip[1]}
 
 
 def all_valid_states_one_flip_away(
-- 
2.43.0


From dea0e1766ac784942d3ee27a5b949c935d73376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 15/33] fix: boundary perimeter of grids with a single row or
 column

Their cells have two or more sides on the boundary, also those in the middle.
---
 gerrychain/grid.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..dbc9fe4 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -235,12 +235,8 @@ def get_boundary_perim(node: Tuple[int, int], dimensions: Tuple[int, int]) -> in
     :rtype: int
     """
     m, n = dimensions
-    if node in [(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1)]:
-        return 2
-    elif node[0] in [0, m - 1] or node[1] in [0, n - 1]:
-        return 1
-    else:
-        return 0
+    x, y = node
+    return sum((x == 0, x == m - 1, y == 0, y == n - 1))
 
 
 def color_half(node: Tuple[int, int], threshold: int) -> int:
-- 
2.43.0


From ea5b797b84b9d3281e1d5ab5a8bfa43fd44c662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 16/33] fix: add only the requested columns to the graph

add_data, and with it cols_to_add, put every column of the data frame on the
nodes.
---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..3247eb3 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -326,7 +326,7 @@ class Graph(networkx.Graph):
 
         check_dataframe(df[columns])
 
-        column_dictionaries = df.to_dict("index")
+        column_dictionaries = df[columns].to_dict("index")
         networkx.set_node_attributes(self, column_dictionaries)
 
         if hasattr(self, "data"):
-- 
2.43.0


From 91cf659e767467087efef22b503659480ccaa33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 17/33] fix: name the failed constraints of a Validator

A MarkovChain given a Validator wrapped it in another one, and failed with an
AttributeError (a Validator has no __name__) instead of the ValueError that
names the failed constraints when the initial state was not valid.
---
 gerrychain/chain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..2a3c2c1 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -76,7 +76,9 @@ class MarkovChain:
 
         :raises ValueError: If the initial_state is not valid according to the constraints.
         """
-        if callable(constraints):
+        if isinstance(constraints, Validator):
+            is_valid = constraints
+        elif callable(constraints):
             is_valid = Validator([constraints])
         else:
             is_valid = Validator(constraints)
@@ -130,7 +132,9 @@ class MarkovChain:
         :raises ValueError: If the initial_state is not valid according to the new constraints.
         """
 
-        if callable(constraints):
+        if isinstance(constraints, Validator):
+            is_valid = constraints
+        elif callable(constraints):
             is_valid = Validator([constraints])
         else:
             is_valid = Validator(constraints)
-- 
2.43.0


From f75a2fc377906e2074eaaef8dc729b581fa45d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 18/33] fix: reversible flips of nodes without a neighbor in
 their own part

slow_reversible_propose_bi failed with a ValueError when it picked a boundary
node all of whose neighbors are in other parts.
---
 gerrychain/proposals/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..3eaeb86 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -123,8 +123,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
                 for neighbor in partition.graph.neighbors(flip)
             ]
         )
+        - {partition.assignment.mapping[flip]}
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From fa03c0fda9faa4e83db2530604f7b1d30422fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 19/33] fix: propose_flip_every_district skips parts without
 cut edges

A part that lost its cut edges earlier in the run (it vanished, say) is still
listed by cut_edges_by_part, and the proposal failed with an IndexError.
---
 gerrychain/proposals/proposals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 3eaeb86..b0a9fd8 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -35,6 +35,10 @@ def propose_flip_every_district(partition: Partition) -> Partition:
     flips = dict()
 
     for dist_edges in partition["cut_edges_by_part"].values():
+        # Parts that have lost their last cut edge are still listed
+        if not dist_edges:
+            continue
+
         edge = random.choice(tuple(dist_edges))
 
         index = random.choice((0, 1))
-- 
2.43.0


From 19375942bf1dad1bacd3433b46397beff473da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:28 +0000
Subject: [PATCH 20/33] fix: logit schedules without cooldown stay hot for one
 step too long

---
 gerrychain/optimization/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 309aae3..5f66133 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -305,11 +305,11 @@ class SingleMetricOptimizer:
         cycle_length = duration_hot + 2 * duration_cooldown + duration_cold
 
         # this will scale from 0 to 1 approximately
-        logit = lambda x: (math.log(x / (1 - x)) + 5) / 10
+        logit = lambda x: (math.log(x / (1 - x)) + 5) / 10 if x > 0 else 0
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot:
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
@@ -357,11 +357,11 @@ class SingleMetricOptimizer:
         cycle_length = duration_hot + duration_cooldown + duration_cold
 
         # this will scale from 0 to 1 approximately
-        logit = lambda x: (math.log(x / (1 - x)) + 5) / 10
+        logit = lambda x: (math.log(x / (1 - x)) + 5) / 10 if x > 0 else 0
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot:
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
-- 
2.43.0


From 6ab55b600568075fb5f7845de5b7af83ae19a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:28 +0000
Subject: [PATCH 21/33] fix: cut_edge_accept divides by zero for a plan without
 cut edges

---
 gerrychain/accept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/accept.py b/gerrychain/accept.py
index 92d3b5c..148aa12 100644
--- a/gerrychain/accept.py
+++ b/gerrychain/accept.py
@@ -29,7 +29,8 @@ def cut_edge_accept(partition: Partition) -> bool:
     """
     bound = 1.0
 
-    if partition.parent is not None:
+    # Without cut edges there is nothing to weigh against, and nothing to divide by
+    if partition.parent is not None and len(partition["cut_edges"]) > 0:
         bound = min(1, len(partition.parent["cut_edges"]) / len(partition["cut_edges"]))
 
     return random.random() < bound
-- 
2.43.0


From 82065844fba5739e2f4813a70949b42ed8b1fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:43 +0000
Subject: [PATCH 22/33] fix: diversity stats count different plans with the
 same cut edges as one

---
 gerrychain/meta/diversity.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gerrychain/meta/diversity.py b/gerrychain/meta/diversity.py
index e8961ec..5c38064 100644
--- a/gerrychain/meta/diversity.py
+++ b/gerrychain/meta/diversity.py
@@ -34,9 +34,8 @@ def collect_diversity_stats(
 ) -> Iterable[Tuple[Partition, DiversityStats]]:
     """
     Report the diversity of the chain being run, live, as a drop-in wrapper.
-    Requires the cut_edges updater on each `Partition` object. Plans/districts
-    are considered distinct if they are not isomorphic. That is, relabled plans
-    and districts are considered non-unique and counted as duplicate.
+    Plans/districts are considered distinct if they are not isomorphic. That is,
+    relabled plans and districts are considered non-unique and counted as duplicate.
 
     Example usage::
 
@@ -65,17 +64,20 @@ def collect_diversity_stats(
     for partition in chain:
         steps_taken += 1
 
+        # Plans with discontiguous districts can share their cut edges, so
+        # plans are told apart by their districts
+        districts = []
         for district, nodes in partition.assignment.parts.items():
             hashable_nodes = tuple(sorted(list(nodes)))
             if hashable_nodes not in seen_districts:
                 unique_districts += 1
-                seen_districts[hashable_nodes] = 1
+                seen_districts[hashable_nodes] = unique_districts
+            districts.append(seen_districts[hashable_nodes])
 
-        cut_edges = partition["cut_edges"]
-        hashable_cut_edges = tuple(sorted(list(cut_edges)))
-        if hashable_cut_edges not in seen_plans:
+        hashable_plan = tuple(sorted(districts))
+        if hashable_plan not in seen_plans:
             unique_plans += 1
-            seen_plans[hashable_cut_edges] = 1
+            seen_plans[hashable_plan] = 1
 
         stats = DiversityStats(
             unique_plans=unique_plans,
-- 
2.43.0


From bcc4590572c7c1044eb7a2dc6f1847c62999f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:29 +0000
Subject: [PATCH 23/33] fix: splitting a single node raises IndexError instead
 of the documented error

---
 gerrychain/tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index f7f3a7d..7215cf5 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -266,7 +266,10 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice(_root_candidates(h))
+    candidates = _root_candidates(h)
+    if not candidates:  # There is nothing to cut in a tree without edges
+        return []
+    root = choice(candidates)
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
@@ -379,7 +382,10 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice(_root_candidates(h))
+    candidates = _root_candidates(h)
+    if not candidates:  # There is nothing to cut in a tree without edges
+        return []
+    root = choice(candidates)
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From 937eaf99b324ab9c29b4e3a9101dbaa779b1210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:43 +0000
Subject: [PATCH 24/33] fix: random spectral cuts leave their weights on the
 graph

---
 gerrychain/proposals/spectral_proposals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 3c213a9..83c8c44 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -32,6 +32,7 @@ def spectral_cut(
     n = len(nlist)
 
     if weight_type == "random":
+        graph = graph.copy()  # The weights are not to stay on the user's graph
         for edge in graph.edge_indices:
             graph.edges[edge]["weight"] = random.random()
 
-- 
2.43.0


From 00807c32c1cf7b8dd6beae1a9a2f88168db36d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:12 +0000
Subject: [PATCH 25/33] fix: spectral cuts give the entries of the Fiedler
 vector to the wrong nodes

---
 gerrychain/proposals/spectral_proposals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 83c8c44..9ef59a6 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -37,10 +37,10 @@ def spectral_cut(
             graph.edges[edge]["weight"] = random.random()
 
     if lap_type == "normalized":
-        LAP = (nx.normalized_laplacian_matrix(graph)).todense()
+        LAP = (nx.normalized_laplacian_matrix(graph, nodelist=nlist)).todense()
 
     else:
-        LAP = (nx.laplacian_matrix(graph)).todense()
+        LAP = (nx.laplacian_matrix(graph, nodelist=nlist)).todense()
 
     NLMva, NLMve = LA.eigh(LAP)
     NFv = NLMve[:, 1]
-- 
2.43.0


From 3df45201171093eb926099f1223161d8272de411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 26/33] fix: a Validator keeps its constraints when they come
 as an iterator

---
 gerrychain/constraints/validity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..9c8ce65 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -27,7 +27,7 @@ class Validator:
         :param constraints: List of validator functions that will check partitions.
         :type constraints: List[Callable]
         """
-        self.constraints = constraints
+        self.constraints = list(constraints)
 
     def __call__(self, partition: Partition) -> bool:
         """
-- 
2.43.0


From ee3eb145b3a9e272b15e666720dfdf5d37429f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:21 +0000
Subject: [PATCH 27/33] fix: ignore_errors is ignored when a map is reprojected

---
 gerrychain/graph/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 3247eb3..562ecf0 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -237,9 +237,8 @@ class Graph(networkx.Graph):
         # explicitly told not to.
         if reproject:
             df = reprojected(dataframe)
-            if ignore_errors:
+            if not ignore_errors:
                 invalid_reproj = invalid_geometries(df)
-                print(invalid_reproj)
                 if len(invalid_reproj) > 0:
                     raise GeometryError(
                         "Invalid geometries at rows {} after "
-- 
2.43.0


From 92c0d8656e1789f933f83148a1421654941a4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:21 +0000
Subject: [PATCH 28/33] fix: maps read from a file without a reference system,
 or reprojected, get their own crs

---
 gerrychain/graph/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 562ecf0..f69bcc9 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -171,7 +171,6 @@ class Graph(networkx.Graph):
             reproject=reproject,
             ignore_errors=ignore_errors,
         )
-        graph.graph["crs"] = df.crs.to_json()
         return graph
 
     @classmethod
-- 
2.43.0


From cd0011a774114ab4b81d6d70cb926f686922c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 29/33] fix: columns given as an iterator are not added to the
 graph

---
 gerrychain/graph/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index f69bcc9..0b59618 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -319,8 +319,7 @@ class Graph(networkx.Graph):
         :returns: None
         """
 
-        if columns is None:
-            columns = list(df.columns)
+        columns = list(df.columns if columns is None else columns)
 
         check_dataframe(df[columns])
 
-- 
2.43.0


From 650bfdf81b1f044740b01f14cd342a1195519b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:26 +0000
Subject: [PATCH 30/33] fix: crs_override cannot override a reference system
 and sets it on the caller's frame

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 0b59618..b38a0ba 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -267,7 +267,7 @@ class Graph(networkx.Graph):
         graph.add_data(df, columns=cols_to_add)
 
         if crs_override is not None:
-            df.set_crs(crs_override, inplace=True)
+            df = df.set_crs(crs_override, allow_override=True)
 
         if df.crs is None:
             warnings.warn(
-- 
2.43.0


From 339d15b563696c1a2f71c163af9307c53f4e9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:47 +0000
Subject: [PATCH 31/33] fix: an optimizer loses constraints given as an
 iterator after its first burst

---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5f66133..671f517 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -66,7 +66,9 @@ class SingleMetricOptimizer:
         """
         self._initial_part = initial_state
         self._proposal = proposal
-        self._constraints = constraints
+        self._constraints = (
+            constraints if callable(constraints) else list(constraints)
+        )
         self._score = optimization_metric
         self._maximize = maximize
         self._best_part = None
-- 
2.43.0


From dd2ba0179a2c3875fbd63548e958165189cb1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:47 +0000
Subject: [PATCH 32/33] fix: bounds cannot be checked on a function that
 returns an iterator

---
 gerrychain/constraints/bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 52c5dc0..95e7ce2 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -24,7 +24,7 @@ class Bounds:
 
     def __call__(self, *args, **kwargs) -> bool:
         lower, upper = self.bounds
-        values = self.func(*args, **kwargs)
+        values = list(self.func(*args, **kwargs))
         return lower <= min(values) and max(values) <= upper
 
     @property
-- 
2.43.0


From f124800f2e5aba01f56d846f406435bcceac55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 33/33] fix: frames whose geometry column is not called
 'geometry' cannot be read

---
 gerrychain/graph/geo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/graph/geo.py b/gerrychain/graph/geo.py
index 0fc0199..6e307d8 100644
--- a/gerrychain/graph/geo.py
+++ b/gerrychain/graph/geo.py
@@ -26,7 +26,7 @@ def identify_utm_zone(df: GeoDataFrame) -> int:
     number for the centroid of the geometries in the dataframe.
     """
     wgs_df = df.to_crs("+proj=longlat +ellps=WGS84 +datum=WGS84 +no_defs")
-    utm_counts = Counter(utm_of_point(point) for point in wgs_df["geometry"].centroid)
+    utm_counts = Counter(utm_of_point(point) for point in wgs_df.geometry.centroid)
     # most_common returns a list of tuples, and we want the 0,0th entry
     most_common = utm_counts.most_common(1)[0][0]
     return most_common
@@ -61,8 +61,8 @@ def invalid_geometries(df):
     :rtype: list of int
     """
     invalid = []
-    for idx, row in df.iterrows():
-        validity = explain_validity(row.geometry)
+    for idx, geometry in df.geometry.items():
+        validity = explain_validity(geometry)
         if validity != "Valid Geometry":
             invalid.append(idx)
     return invalid
-- 
2.43.0

