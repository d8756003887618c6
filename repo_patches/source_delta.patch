From a1e9a8f6fe0a90dba4a606a56df19beabb06ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 01/34] fix: make_joined fails when factors share only some of
 their variables or their joint is empty

can_join_samples compared only the variables common to all samples, so two
factors disagreeing on another variable were handed to make_joined_sample,
which raises. It also failed on an empty sample set.
---
 Python/research/scripts/relnet/relation_graph.py |  2 +-
 Python/research/scripts/relnet/sample_set.py     | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 85b9abd..593334e 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -313,7 +313,7 @@ class RelationGraph(SampleSpace):
                     [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
             else:
                 ss = acc.build()
-                if ss.can_join_samples():
+                if ss and ss.can_join_samples():
                     bo, cs = acc.build().make_joined_sample()
                     return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
                 else:
diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..6d7396e 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -170,15 +170,11 @@ class SampleSet(Samples):
 
     def can_join_samples(self) -> bool:
         """
-        Will join all contained samples to get new one which include all nodes and edges.
-        In case there is conflicting (same endpoint but different relation) AssertionError will be raise.
-        In case result sample graph will not connected AssertionError will be raise.
-        :return: (new_sample, list_of_counts)
+        Check if contained samples agree on the value of each variable, i.e. if make_joined_sample
+        will not fail because of two different values of the same variable.
+        :return: True if all values match, False otherwise
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
-                return False
-        return True
+        return self.is_all_values_match()
 
     def make_joined_sample(self) -> Tuple[SampleGraph, List[int]]:
         """
-- 
2.43.0


From 8979688595af2910613bfd0e4ba4145f20cd4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 02/34] fix: group_intersecting splits or rejects the variable
 of a single node sample

The group key of a single node sample was flattened one level too deep: variable
'ab' became {'a', 'b'}, and a variable that is not iterable raised TypeError.
---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 6d7396e..4b6688f 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({frozenset(sample.included_variables)})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From 366718f8d38dbb9e9c16bdf68385ccbad2355c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 03/34] fix: group_intersecting loses samples of a group whose
 key equals a merged key

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 4b6688f..346e69c 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged
                         group()
                         return
         group()
-- 
2.43.0


From d2e56aada54811971191908d04008028c71594de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 04/34] fix: make_joined_sample depends on the order of samples

Samples which join in to one connected sample were rejected when iterated in an
order where one of them is not yet connected to the previous ones.
---
 Python/research/scripts/relnet/sample_set.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 346e69c..4e9f579 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -21,7 +21,7 @@ created: 2021-11-19
 from math import isclose
 from typing import Dict, Set, Any, Optional, Tuple, Callable, List
 
-from .graph_components import SampleGraphComponentsProvider
+from .graph_components import SampleGraphComponentsProvider, ValueNode
 from .sample_graph import SampleGraph, SampleGraphBuilder
 
 
@@ -185,8 +185,13 @@ class SampleSet(Samples):
         :return: (new_sample, list_of_counts)
         """
         sgb = SampleGraphBuilder(self._components_provider)
-        for s in self._samples.keys():
-            sgb.join_sample(s)
+        nodes: Set[ValueNode] = set({})
+        to_join: List[SampleGraph] = list(self._samples.keys())
+        while to_join:  # To join first the samples connected to already joined
+            sample = next((s for s in to_join if not nodes.isdisjoint(s.nodes)), to_join[0])
+            to_join.remove(sample)
+            sgb.join_sample(sample)
+            nodes.update(sample.nodes)
         return sgb.build(), list(self._samples.values())
 
     def is_all_values_match(self) -> bool:
-- 
2.43.0


From eeabba0e2a8700fb5fd93b553bcca2db5849f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 05/34] fix: rejected join_sample leaves part of the sample in
 the builder

---
 Python/research/scripts/relnet/sample_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..f180b4d 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -238,7 +238,12 @@ class SampleGraphBuilder:
                 join_edges(not_connected)
 
         if sample.edges:
-            join_edges(set(sample.edges))
+            nodes, edges_set, endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
+            try:
+                join_edges(set(sample.edges))
+            except AssertionError:  # To not leave this builder with partially joined sample
+                self._nodes, self._edges, self._endpoints = nodes, edges_set, endpoints
+                raise
         else:  # Single node graph
             assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \
                 f"[SampleGraphBuilder.join_sample] Single node sample can be joined only " \
-- 
2.43.0


From 1d19f4801f31c712dd3a3f97da56ed6fd00c35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 06/34] fix: build_from_edges accepts two relations in between
 same endpoints

As add_relation does, reject them; and validate all edges before the builder is changed.
---
 Python/research/scripts/relnet/sample_graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index f180b4d..a4faaae 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,13 +137,20 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_endpoints: Dict[frozenset[ValueNode], RelationEdge] = {}
+
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            assert (self._endpoints | new_endpoints).get(edge.endpoints, edge) == edge, \
+                f"[SampleGraphBuilder.build_from_edges] Endpoints of edge {edge} already have another relation"
+            new_endpoints[edge.endpoints] = edge
+
+        for endpoints, edge in new_endpoints.items():
             self._edges.add(edge)
-            self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            self._endpoints[endpoints] = edge
+            self._nodes.update(endpoints)
 
         return self.build()
 
-- 
2.43.0


From f1de38e2c1497d05ca89a0e3f5a6d77d5d1c708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 07/34] fix: similarity of two empty samples raises
 ZeroDivisionError

---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index a4faaae..f859df6 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -443,6 +443,8 @@ class SampleGraph:
         """
         intersect_hash = self.hash.intersection(other.hash)
         differ_hash = self.hash.symmetric_difference(other.hash)
+        if not intersect_hash and not differ_hash:  # Both samples are empty
+            return 1.0
         return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
 
     def belt_nodes(
-- 
2.43.0


From b9b072ce21d89bf0a4e0fd254b662f63d0bb0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 08/34] fix: alarm stays armed after a timed function raises

With the default handler already restored, the pending SIGALRM kills the process.
---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..306b7e4 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -630,8 +630,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 79a51fa60575657ec0965b10b4b93cd6fc73095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 09/34] fix: deep copy of a won or lost game state is not
 terminal

---
 Python/research/scripts/demo/game.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..2570703 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -400,6 +400,8 @@ class GameStateData:
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
+        state._lose = self._lose
+        state._win = self._win
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From a8fe86849331767de5c0e1ab0ff1a0e5fd5553b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 10/34] fix: ghost move edits the eaten flags of the state it
 started from

---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 2570703..5abf49d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From 89cae44370926a7433faa8ab3b69c84e9c5c8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:18 +0000
Subject: [PATCH 11/34] fix: Counter argMax, sortedKeys and __radd__ do not
 work on Python 3

---
 Python/research/scripts/demo/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 306b7e4..5df3761 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda x: x[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
@@ -392,6 +390,7 @@ class Counter(dict):
         """
         for key, value in y.items():
             self[key] += value
+        return self
 
     def __add__( self, y ):
         """
-- 
2.43.0


From a70310b3d20103993159a7aa6c86f1d41ca02210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 12/34] fix: variables of a network change when the dictionary
 they were passed in is edited

---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From f45c7171fcd2816c3dd1a5d5b24b457fa7f4231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:30 +0000
Subject: [PATCH 13/34] fix: nodes of different outcomes share one id in
 visualize_outcomes

The id was the value text followed by the outcome index, so for example value '1' of
outcome 10 and value '11' of outcome 0 became one node.
---
 Python/research/scripts/relnet/sample_space.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..7178a58 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -206,23 +206,23 @@ class SampleSpace:
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{i}_{head_node.string_id}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{i}_{node.string_id}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{i}_{ep[0].string_id}", f"{i}_{ep[1].string_id}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-                net.add_node(node.string_id + "_query", label=node.string_id, color="red")
+                net.add_node(f"query_{node.string_id}", label=node.string_id, color="red")
 
             for edge in self._evidence.edges:
                 ep = list(edge.endpoints)
                 net.add_edge(
-                    ep[0].string_id + "_query", ep[1].string_id + "_query", label=str(edge.relation), color="red")
+                    f"query_{ep[0].string_id}", f"query_{ep[1].string_id}", label=str(edge.relation), color="red")
 
         net.show(f"{file_name}.html")
 
-- 
2.43.0


From 47185062596c178a85c49cc3ab09eeedeb73cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 14/34] fix: variable edges in between variables of different
 types can't be printed

---
 Python/research/scripts/relnet/activation_graph.py | 2 +-
 Python/research/scripts/relnet/folded_graph.py     | 2 +-
 Python/research/scripts/relnet/variables_graph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/activation_graph.py b/Python/research/scripts/relnet/activation_graph.py
index 49cf148..faa246c 100644
--- a/Python/research/scripts/relnet/activation_graph.py
+++ b/Python/research/scripts/relnet/activation_graph.py
@@ -62,7 +62,7 @@ class ActiveEdge(VariableEdge):
         self._relation_edges_dict: Dict[Any, int] = relations
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(v) for v in self.endpoints])
         relations = ",".join(sorted([f"{r}({c})" for r, c in self.relations]))
         in_query = "Q" if self.in_query else ""
         return f"({ep[0]})--{in_query}{{{relations}}}--({ep[1]})"
diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..cfab955 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -92,7 +92,7 @@ class FoldedEdge(VariableEdge):
         self._relation_edges_dict: Dict[RelationEdge, int] = relation_edges
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(v) for v in self.endpoints])
         relations = ",".join(sorted([f"{e.relation}({c})" for e, c in self.relation_edges]))
         return f"({ep[0]})--{{{relations}}}--({ep[1]})"
 
diff --git a/Python/research/scripts/relnet/variables_graph.py b/Python/research/scripts/relnet/variables_graph.py
index 960120f..48817ea 100644
--- a/Python/research/scripts/relnet/variables_graph.py
+++ b/Python/research/scripts/relnet/variables_graph.py
@@ -61,7 +61,7 @@ class VariableEdge:
         raise AssertionError("[VariableEdge.__copy__] variable edge should not be copied")
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted([str(v) for v in self.endpoints])
         return f"({ep[0]})--({ep[1]})"
 
     def __hash__(self):
-- 
2.43.0


From 04b8a950b8905efcf09f7de0698c46cf82717b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 15/34] fix: update of an item absent from a
 PriorityQueueWithFunction raises TypeError

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 5df3761..212649d 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -203,7 +203,7 @@ class PriorityQueue:
                 heapq.heapify(self.heap)
                 break
         else:
-            self.push(item, priority)
+            PriorityQueue.push(self, item, priority)
 
 class PriorityQueueWithFunction(PriorityQueue):
     """
-- 
2.43.0


From d0ee425baad5e387242854433708446cc17939c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 16/34] fix: wait_for_keys does not wait on Python 3

---
 Python/research/scripts/demo/graphicsUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 22e6ae1..097b6d1 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -309,7 +309,7 @@ def keys_waiting():
 def wait_for_keys():
     keys = []
     while keys == []:
-        keys = keys_pressed()
+        keys = list(keys_pressed())
         sleep(0.05)
     return keys
 
-- 
2.43.0


From 4558ec10d73edf34d5683495149a3b14378a257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 17/34] fix: belief distributions are shown on one cell only

---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..5c5716f 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = list(map(lambda x: x.copy(), distributions))
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From 8cccfda23c65bdf57e3a68dae10060ce8289e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 18/34] fix: cells shown in an earlier game delete parts of the
 next game's picture

---
 Python/research/scripts/demo/graphicsDisplay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index 5c5716f..ec60e50 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -185,6 +185,7 @@ class PacmanGraphics:
         self.make_window(self.width, self.height)
         self.infoPane = InfoPane(layout, self.gridSize)
         self.currentState = layout
+        self.expandedCells = []  # those of an earlier game are gone with its window
 
     def drawDistributions(self, state):
         walls = state.layout.walls
-- 
2.43.0


From 26a87db39c93b35b53326bf1c44a9cfcc7dc545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 19/34] fix: exploration of a sample does not fail on long
 chains of relations

---
 .../research/scripts/relnet/sample_graph.py   | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index f859df6..65db619 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -487,19 +487,12 @@ class SampleGraph:
                                 if None then select all neighbors.
         :return: Dict[external_node, Set[relation_edge_which_lead_to_internal_node]]
         """
-        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)
-        if acc_nodes:
-            for node, edges in self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter).items():
-                if node in acc_nodes:
-                    assert acc_nodes[node].isdisjoint(edges), \
-                        "[SampleGraph.external_nodes] sample graph can't have identical edges " \
-                        "and they can't be checked twice, look like bug."
-                    acc_nodes[node].update(edges)
-                else:
-                    acc_nodes[node] = edges
-            return acc_nodes
-        else:
-            return {}  # All value nodes checked
+        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
+        belt = self.belt_nodes(internal_nodes, relation_filter)
+        while belt:  # Until all value nodes checked
+            acc_nodes.update(belt)
+            belt = self.belt_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter)
+        return acc_nodes
 
     def variables_subgraph_hash(self, variables: Set[Any]) -> frozenset[Any]:
         """
-- 
2.43.0


From 359e5ef58211933b30d8cdf372b1446fad93db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 20/34] fix: joining of many sample sets does not exceed the
 recursion limit

---
 Python/research/scripts/relnet/sample_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 4e9f579..a575059 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -268,12 +268,12 @@ class SampleSetBuilder(Samples):
         :param sample_sets: smple sets to be joined
         :return: joined sample set
         """
-        if len(sample_sets) > 1:
-            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))
-        else:
-            assert sample_sets, \
-                "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
-            return sample_sets[0]
+        assert sample_sets, \
+            "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
+        joined = sample_sets[0]
+        for sample_set in sample_sets[1:]:
+            joined = joined.union(sample_set)
+        return joined
 
     def __init__(
             self,
-- 
2.43.0


From 718e93b4b4b95ed7d9af50d0ea173507dbc29fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 21/34] fix: grouping of samples that form long chains does not
 exceed the recursion limit

---
 Python/research/scripts/relnet/sample_set.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index a575059..0075ca0 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -150,15 +150,16 @@ class SampleSet(Samples):
             else:
                 sample_acc[key] = {sample: count}
 
-        def group():
+        def group() -> bool:
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
                         merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
                         sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged
-                        group()
-                        return
-        group()
+                        return True
+            return False
+        while group():
+            pass
         grouped = {
             frozenset({v for vs in key for v in vs}): SampleSet(self._components_provider, samples)
             for key, samples in sample_acc.items()}
-- 
2.43.0


From 7ee18528c124a70a3ffa496600ffd059829a28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 22/34] fix: joining of many factors or groups does not exceed
 the recursion limit

---
 .../research/scripts/relnet/relation_graph.py | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 593334e..ca18a76 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -19,6 +19,7 @@ created: 2021-08-09
 """
 
 from typing import List, Dict, Set, Any, Tuple, Optional, Callable
+from itertools import product
 from math import prod
 
 from .graph_components import SampleGraphComponentsProvider, BuilderComponentsProvider
@@ -248,22 +249,19 @@ class RelationGraph(SampleSpace):
         join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}
         outcomes_acc: SampleSetBuilder = self.outcomes.builder()
 
-        def cross_join(groups: List[SampleSet], joints: SampleSetBuilder) -> SampleSet:
+        def cross_join(groups: List[SampleSet]) -> SampleSet:
             ssb = SampleSetBuilder(self._components_provider)
-            if not groups:  # To join if groups empty
-                joints_set = joints.build()
+            for samples in product(*[list(g.items()) for g in groups]):
+                joints_set = SampleSet(self._components_provider, dict(samples))
                 if joints_set and joints_set.is_all_values_match():
-                    joined_sample, counts = joints.build().make_joined_sample()
+                    joined_sample, counts = joints_set.make_joined_sample()
                     ssb.add(joined_sample, prod(counts))
-            else:
-                for s, c in groups[0].items():
-                    ssb.add_all(cross_join(groups[1:], joints.copy().add(s, c)))
             return ssb.build()
 
         for join_var in join_variables:
             join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)
             groped_outcomes = join_outcomes.group_intersecting()
-            joined_outcomes = cross_join(list(groped_outcomes.values()), SampleSetBuilder(self._components_provider))
+            joined_outcomes = cross_join(list(groped_outcomes.values()))
             outcomes_acc.remove_all(join_outcomes)
             outcomes_acc.add_all(joined_outcomes)
 
@@ -307,17 +305,14 @@ class RelationGraph(SampleSpace):
         :return: New instance of relation graph which contains joined distribution
         """
 
-        def join_factors(outcomes: List[Dict[SampleGraph, int]], acc: SampleSetBuilder) -> SampleSet:
-            if outcomes:
-                return SampleSetBuilder.join_sample_set(
-                    [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
-            else:
-                ss = acc.build()
+        def join_factors(outcomes: List[Dict[SampleGraph, int]]) -> SampleSet:
+            ssb = SampleSetBuilder(self._components_provider)
+            for samples in product(*[os.items() for os in outcomes]):
+                ss = SampleSet(self._components_provider, dict(samples))
                 if ss and ss.can_join_samples():
-                    bo, cs = acc.build().make_joined_sample()
-                    return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
-                else:
-                    return SampleSetBuilder(self._components_provider).empty()
+                    bo, cs = ss.make_joined_sample()
+                    ssb.add(bo, prod(cs))
+            return ssb.build()
 
         factors: frozenset[SampleSet] = self.factorized()
 
@@ -326,9 +321,7 @@ class RelationGraph(SampleSpace):
             joined_factor = SampleSetBuilder(self._components_provider)
             for val in values:
                 outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]
-                joined_factor.add_all(join_factors(
-                    [os for os in outcomes_for_val if os],
-                    SampleSetBuilder(self._components_provider)))
+                joined_factor.add_all(join_factors([os for os in outcomes_for_val if os]))
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
 
-- 
2.43.0


From adc9ca8c9899b05f2669ca00d3e9d767370a9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 23/34] fix: connectivity check does not fail on long chains of
 relations

---
 Python/research/scripts/relnet/sample_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 65db619..1d2dcfe 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -47,13 +47,13 @@ class SampleGraphBuilder:
             tracing_map[endpoints[0]].add(endpoints[1])
             tracing_map[endpoints[1]].add(endpoints[0])
 
-        def trace(start_node: (Any, Any)):
+        to_trace = [next(iter(tracing_map.keys()))]
+        while to_trace:
+            start_node = to_trace.pop()
             if start_node not in traced:
                 traced.add(start_node)
-                for next_node in tracing_map[start_node]:
-                    trace(next_node)
+                to_trace.extend(tracing_map[start_node])
 
-        trace(next(iter(tracing_map.keys())))
         return len(tracing_map) == len(traced)
 
     @staticmethod
-- 
2.43.0


From 5af3fab2ff6825559c77261e27e94635b58b82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:21 +0000
Subject: [PATCH 24/34] fix: joining of a long chain of relations does not
 exceed the recursion limit

---
 Python/research/scripts/relnet/sample_graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 1d2dcfe..fb3dded 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -217,7 +217,7 @@ class SampleGraphBuilder:
         def is_connected(edge: RelationEdge) -> bool:
             return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
 
-        def join_edges(edges: Set[RelationEdge]) -> None:
+        def join_edges(edges: Set[RelationEdge]) -> Set[RelationEdge]:
             not_connected = set({})
 
             for edge in edges:
@@ -241,13 +241,14 @@ class SampleGraphBuilder:
                 f"[SampleGraphBuilder.join_sample] One or both endpoint should be previously added, " \
                 f"to keep graph connected, got not connected edges  {edges} where previously added {self._nodes}"
 
-            if not_connected:
-                join_edges(not_connected)
+            return not_connected
 
         if sample.edges:
             nodes, edges_set, endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
             try:
-                join_edges(set(sample.edges))
+                to_join = set(sample.edges)
+                while to_join:
+                    to_join = join_edges(to_join)
             except AssertionError:  # To not leave this builder with partially joined sample
                 self._nodes, self._edges, self._endpoints = nodes, edges_set, endpoints
                 raise
-- 
2.43.0


From 835b182b49a0caed7a118e509210feffa42a4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 25/34] fix: list sub graphs of a single node

make_all_sub_graphs(1) raised IndexError: without edges there is nothing to
advance, but the loop was entered.
---
 Python/research/scripts/playaround/number_of_subgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/playaround/number_of_subgraphs.py b/Python/research/scripts/playaround/number_of_subgraphs.py
index ac5b5a6..377bf92 100644
--- a/Python/research/scripts/playaround/number_of_subgraphs.py
+++ b/Python/research/scripts/playaround/number_of_subgraphs.py
@@ -51,7 +51,7 @@ def make_all_sub_graphs(n: int) -> Network:
     index_acc = [-1 for _ in range(0, len(edges))]
     indices = []
 
-    while set([i < (len(types) - 1) for i in index_acc]) != {False}:
+    while any(i < (len(types) - 1) for i in index_acc):
         i = 0
         while index_acc[i] >= (len(types) - 1) and i < len(edges):
             index_acc[i] = -1
-- 
2.43.0


From 63f87e87e4e99ca011a4eb939dc06efd38e0d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 26/34] fix: factors mix up a variable named by two variables
 with relations in between those

---
 Python/research/scripts/relnet/sample_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 7178a58..e41d057 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -257,7 +257,7 @@ class SampleSpace:
         for o, c in self.outcomes.items():
             assert not o.is_k_0, \
                 f"[SampleSpace.factorized] Sample spase which contains empty outcome can't be factorized"
-            evs = frozenset({o.single_node_variable()}) if o.is_single_node else o.edges_endpoint_variables()
+            evs = frozenset({frozenset({o.single_node_variable()})}) if o.is_single_node else o.edges_endpoint_variables()
             if evs not in acc:
                 for aep in acc.keys():
                     assert aep.isdisjoint(evs), \
-- 
2.43.0


From 0b042a702b59af85610dbac205f107dc53be0e50 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 27/34] fix: drawing from a distribution fails for random
 numbers next to 1 and draws values without a share for 0

---
 Python/research/scripts/demo/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 212649d..7cf3e68 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -478,8 +478,9 @@ def nSample(distribution, values, n):
     rand.sort()
     samples = []
     samplePos, distPos, cdf = 0,0, distribution[0]
+    last = max(i for i, share in enumerate(distribution) if share > 0) # gets what rounding leaves below 1
     while samplePos < n:
-        if rand[samplePos] < cdf:
+        if rand[samplePos] < cdf or distPos == last:
             samplePos += 1
             samples.append(values[distPos])
         else:
@@ -496,7 +497,8 @@ def sample(distribution, values = None):
         distribution = normalize(distribution)
     choice = random.random()
     i, total= 0, distribution[0]
-    while choice > total:
+    last = max(j for j, share in enumerate(distribution) if share > 0) # gets what rounding leaves below 1
+    while choice >= total and i < last:
         i += 1
         total += distribution[i]
     return values[i]
@@ -528,7 +530,9 @@ def chooseFromDistribution( distribution ):
     base = 0.0
     for prob, element in distribution:
         base += prob
-        if r <= base: return element
+        if prob > 0: last = element
+        if r < base: return element
+    return last # gets what rounding leaves below 1
 
 def nearestPoint( pos ):
     """
-- 
2.43.0


From 463e78fbdd8ac113c490282edeb3131cf9ed7aec Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 28/34] fix: a refused removal of several samples removes some
 of them

---
 Python/research/scripts/relnet/sample_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 0075ca0..a4ddd8f 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -337,7 +337,11 @@ class SampleSetBuilder(Samples):
         :param samples: sample set to be removed
         :return: self
         """
-        for sample in samples.samples():
+        to_remove = samples.samples()
+        assert to_remove.issubset(self._samples.keys()), \
+            f"[SampleSetBuilder.remove_all] Not all of the samples {to_remove} are in this sample set"
+
+        for sample in to_remove:
             self.remove(sample)
         return self
 
-- 
2.43.0


From 7b0c9e1202b0c442b6048e1eb403318fd3cdd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 29/34] fix: the game window fails for more than five ghosts

---
 Python/research/scripts/demo/graphicsDisplay.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index ec60e50..e9fde3d 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -115,7 +115,7 @@ class InfoPane:
             size = 10
 
         for i, d in enumerate(distances):
-            t = text( self.toScreen(self.width//2 + self.width//8 * i, 0), GHOST_COLORS[i+1], d, "Times", size, "bold")
+            t = text( self.toScreen(self.width//2 + self.width//8 * i, 0), GHOST_COLORS[(i+1) % len(GHOST_COLORS)], d, "Times", size, "bold")
             self.ghostDistanceText.append(t)
 
     def updateScore(self, score):
@@ -276,7 +276,7 @@ class PacmanGraphics:
 
         if self.capture:
             outlineColor = TEAM_COLORS[index % 2]
-            fillColor = GHOST_COLORS[index]
+            fillColor = GHOST_COLORS[index % len(GHOST_COLORS)]
             width = PACMAN_CAPTURE_OUTLINE_WIDTH
 
         return [circle(screen_point, PACMAN_SCALE * self.gridSize,
@@ -331,7 +331,7 @@ class PacmanGraphics:
         if ghost.scaredTimer > 0:
             return SCARED_COLOR
         else:
-            return GHOST_COLORS[ghostIndex]
+            return GHOST_COLORS[ghostIndex % len(GHOST_COLORS)]
 
     def drawGhost(self, ghost, agentIndex):
         pos = self.getPosition(ghost)
@@ -398,7 +398,7 @@ class PacmanGraphics:
         if ghost.scaredTimer > 0:
             color = SCARED_COLOR
         else:
-            color = GHOST_COLORS[ghostIndex]
+            color = GHOST_COLORS[ghostIndex % len(GHOST_COLORS)]
         edit(ghostImageParts[0], ('fill', color), ('outline', color))
         self.moveEyes(self.getPosition(ghost), self.getDirection(ghost), ghostImageParts[-4:])
         refresh()
@@ -602,9 +602,8 @@ class PacmanGraphics:
                     pass
                 # Fog of war
                 color = [0.0,0.0,0.0]
-                colors = GHOST_VEC_COLORS[1:] # With Pacman
-                if self.capture: colors = GHOST_VEC_COLORS
-                for weight, gcolor in zip(weights, colors):
+                for i, weight in enumerate(weights):
+                    gcolor = GHOST_VEC_COLORS[(i + 1 - self.capture) % len(GHOST_VEC_COLORS)]
                     color = [min(1.0, c + 0.95 * g * weight ** .3) for c,g in zip(color, gcolor)]
                 changeColor(image, formatColor(*color))
         refresh()
@@ -647,7 +646,7 @@ class FirstPersonPacmanGraphics(PacmanGraphics):
                     self.currentGhostImages[i] = None
 
     def getGhostColor(self, ghost, ghostIndex):
-        return GHOST_COLORS[ghostIndex]
+        return GHOST_COLORS[ghostIndex % len(GHOST_COLORS)]
 
     def getPosition(self, ghostState):
         if not self.showGhosts and not ghostState.isPacman and ghostState.getPosition()[1] > 1:
-- 
2.43.0


From 61252050b5024658a56ebfa207110e2a53f5d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:00 +0000
Subject: [PATCH 30/34] fix: a game played by a muted agent leaves the output
 redirected

The streams to restore were kept in the module, so a muted game played
inside of a callback of another one replaced them by those of the agent.
---
 Python/research/scripts/demo/game.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 5abf49d..1ef277f 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -551,19 +551,17 @@ class Game:
 
     def mute(self, agentIndex):
         if not self.muteAgents: return
-        global OLD_STDOUT, OLD_STDERR
         import io
-        OLD_STDOUT = sys.stdout
-        OLD_STDERR = sys.stderr
+        self.OLD_STDOUT = sys.stdout
+        self.OLD_STDERR = sys.stderr
         sys.stdout = self.agentOutput[agentIndex]
         sys.stderr = self.agentOutput[agentIndex]
 
     def unmute(self):
         if not self.muteAgents: return
-        global OLD_STDOUT, OLD_STDERR
         # Revert stdout/stderr to originals
-        sys.stdout = OLD_STDOUT
-        sys.stderr = OLD_STDERR
+        sys.stdout = self.OLD_STDOUT
+        sys.stderr = self.OLD_STDERR
 
 
     def run( self ):
-- 
2.43.0


From 676029e85217cc3c21fb2043b6380b75c19d9526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:42 +0000
Subject: [PATCH 31/34] fix: a timed call inside of another one lifts the limit
 of the outer one

The alarm of the enclosing call was replaced and then switched off, so an
agent that played a game of its own could take any time afterwards.
---
 Python/research/scripts/demo/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 7cf3e68..b88cd18 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -629,12 +629,15 @@ class TimeoutFunction:
         # after the method has returned, and throw an exception then.
         if hasattr(signal, 'SIGALRM'):
             old = signal.signal(signal.SIGALRM, self.handle_timeout)
-            signal.alarm(self.timeout)
+            startTime = time.time()
+            outer = signal.alarm(self.timeout)
             try:
                 result = self.function(*args, **keyArgs)
             finally:
                 signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
+                if outer:   # the limit of an enclosing timed call goes on
+                    signal.alarm(max(1, outer - int(time.time() - startTime)))
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 89f311252c9c323a51052afedd8fd9632d1b1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 32/34] fix: Bayesian experiment takes the value of another
 variable when a name is part of another one

---
 .../scripts/experiments/comparing_with_bayes_network.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/experiments/comparing_with_bayes_network.py b/Python/research/scripts/experiments/comparing_with_bayes_network.py
index 289b86f..a8f6b4b 100644
--- a/Python/research/scripts/experiments/comparing_with_bayes_network.py
+++ b/Python/research/scripts/experiments/comparing_with_bayes_network.py
@@ -92,7 +92,7 @@ def _build_outcome(rgb: RelationGraphBuilder, var: str, p_var: List[str], vs: Li
         o_builder = rgb.sample_builder()
         for p_v in p_var:
             o_builder.add_relation(
-                {(p_v, next(v for v in vs if p_v in v)), (var, next(v for v in vs if var in v))},
+                {(n, next(v for v in vs if v.rpartition("(")[0] == n)) for n in (p_v, var)},
                 DirectedRelation(p_v, var, "r"))
         return o_builder.build()
     else:
-- 
2.43.0


From f66de02511c5e87488d3764ac120b2880eb64a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 33/34] fix: Bayesian experiment refuses probabilities like
 0.29, whose product with the factor is whole but for rounding

---
 .../scripts/experiments/comparing_with_bayes_network.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/experiments/comparing_with_bayes_network.py b/Python/research/scripts/experiments/comparing_with_bayes_network.py
index a8f6b4b..dcaf72b 100644
--- a/Python/research/scripts/experiments/comparing_with_bayes_network.py
+++ b/Python/research/scripts/experiments/comparing_with_bayes_network.py
@@ -108,8 +108,8 @@ def make_relation_graph() -> RelationGraph:
     for var, (card, cpd, p_var, p_card) in net_config.items():
         for vs, prop in _value_map_from_cpd(var, card, p_var, p_card, cpd).items():
             outcome = _build_outcome(rgb, var, p_var, list(vs))
-            count = int(prop * prop_factor)
-            assert count == (prop * prop_factor), "[make_relation_graph] Select correct 'prop_factor'"
+            count = round(prop * prop_factor)
+            assert isclose(count, prop * prop_factor, rel_tol=1e-9), "[make_relation_graph] Select correct 'prop_factor'"
             print(f"[make_relation_graph] Outcome: {outcome}, count = {count}")
             rgb.add_outcome(outcome, count)
 
-- 
2.43.0


From 10fee35248d5416d99280f8fa1e64aa7cf8ef2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 34/34] fix: Bayesian experiment misreads values from 10 on and
 names of several letters when comparing

---
 .../scripts/experiments/comparing_with_bayes_network.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/experiments/comparing_with_bayes_network.py b/Python/research/scripts/experiments/comparing_with_bayes_network.py
index dcaf72b..56c2e57 100644
--- a/Python/research/scripts/experiments/comparing_with_bayes_network.py
+++ b/Python/research/scripts/experiments/comparing_with_bayes_network.py
@@ -122,7 +122,7 @@ def make_relation_graph() -> RelationGraph:
 
 
 def _value_map_from_factor(factor: DiscreteFactor) -> Dict[frozenset[str], float]:
-    return {frozenset(vs): factor.get_value(**{v[0]: int(v[2]) for v in vs})
+    return {frozenset(vs): factor.get_value(**{v.rpartition("(")[0]: int(v.rpartition("(")[2][:-1]) for v in vs})
             for vs in _value_combination(list(zip(factor.variables, factor.cardinality)))}
 
 
-- 
2.43.0

