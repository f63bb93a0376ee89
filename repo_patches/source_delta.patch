From 0adc5a7af3fce4e2b70d8d2157de8535af6d7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 01/17] fix: report out-of-order edges with ValueError instead
 of KeyError

The error message looked up the outgoing edge of the new edge's source,
which need not exist, instead of the outgoing edge of its destination.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..a389f4b 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From 1f8609822236a0a2d41d7f913da80604605044dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 02/17] fix: reject self-loop edges during DAG construction

A self-loop was accepted whenever it was the first outgoing edge of its
state, so the graph being built was not guaranteed to be a DAG.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a389f4b..698c1e0 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -245,6 +245,9 @@ def adding_edge_tracebacks():
 
 def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
   """Adds an edge to the DAG."""
+  if edge.dest == edge.source:
+    raise ValueError(f"Edge {edge} would form a self-loop at {edge.source}")
+
   if edge.dest in dag.seen_outgoing:
     raise ValueError(
         (
-- 
2.43.0


From 56a48b8b9d77d262ae71e113b3dcb6ea01c5a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 03/17] fix: reuse ids of evicted states when pruning and
 rewriting DAGs

A state evicted from the scratch table was given a second id the next
time it appeared as a destination, splitting it in two and losing paths.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 698c1e0..b0621c5 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -427,6 +427,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but evicted earlier due to a conflict.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From 5072f63927e5ea758b9cf3ca69e0b1524868ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 04/17] fix: raise ValueError when the final state is never
 reached in pruning

The id of an unseen final state was allocated after sizing the
reachability array, causing an IndexError.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index b0621c5..bdc3011 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -456,8 +456,9 @@ def prune_unreachable_and_rewrite_states(
 
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
+  final_state_id = lookup_or_create_id_for_state(dag.final_state)
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  reachable_from_end[final_state_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From f2b29e7af2fb7a7787d6903243051006601377b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 05/17] fix: let unmatched parts continue past region ends

The unmatched-selection branch set the flag of the skip-prototype branch,
so advancing past a region end relied on a stale value (or crashed when
the first in-order item was a region end).
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From f627144a5ff5d5d81bcaea18ea3b430dffe1a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 06/17] fix: honor the soft timeout of the sweep solver

The timeout only left the inner loop over sweep directions, so a system
that kept improving ran on past its timeout.
---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..a57e27e 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -696,7 +696,8 @@ def solve_system_with_sweeps(
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
 
-  while True:
+  timed_out = False
+  while not timed_out:
     saw_any_change = False
 
     for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):
@@ -728,6 +729,7 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
-- 
2.43.0


From bd1ff092b51475b8efd3a92370e3fd618f17ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 07/17] fix: compute minimal cost of DAGs without variables

The default strategy indexed a min-marginal of a nonexistent variable.
---
 r_u_sure/decision_diagrams/packed_dags.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..64fc7ea 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1416,7 +1416,10 @@ def compute_minimal_cost(
   Returns:
     Cost of the optimal path.
   """
-  if strategy == MinimalCostComputationStrategy.AT_START:
+  if (
+      strategy == MinimalCostComputationStrategy.AT_START
+      or memo.dag.num_variable_keys == 0
+  ):
     update_suffixes_up_to(memo, -1)
     return memo.suffix_table[0]
   elif strategy == MinimalCostComputationStrategy.AT_END:
-- 
2.43.0


From 500dde03111bf313de5b083772627d12eab91b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 08/17] fix: parse empty Python code

Empty input raised IndexError for Python only.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From 234d5b27ef9e8aa0799971cf0c9d950f9f0c2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:42 +0000
Subject: [PATCH 09/17] fix: accept splitters=None in
 infer_split_truncation_index

The documented default of considering all splitters raised TypeError.
---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..13ef0b1 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -287,7 +287,7 @@ def infer_split_truncation_index(
       if after_cursor:
         if (node.parent.annotation == 'split' and
             node.parent.children[-1] == node and
-            tokens_raw[node.lo] in splitters):
+            (splitters is None or tokens_raw[node.lo] in splitters)):
           # we found the split immediately proceeding the cursor
           return code_index
 
-- 
2.43.0


From 2e9a4c3eedc8a251e41dd744bce25e4bfd916428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 10/17] fix: truncate at a match pair that closes at the end of
 the code

When the closing bracket was the last token, the function reported that
the cursor was not enclosed by the match pair at all.
---
 r_u_sure/parsing/pseudo_parser/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 13ef0b1..a296aa1 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -245,7 +245,9 @@ def infer_match_pair_truncation_index(
         # infer_split_truncation_index
         finished = True
 
-  return None
+  # if the closing match pair is the very last leaf, there is no further leaf to
+  # process:
+  return code_index if finished else None
 
 
 def infer_split_truncation_index(
-- 
2.43.0


From 56178b9e1dffac23d35ed2a310fca42bce70b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 11/17] fix: infer the largest consistent indent for any
 candidate order

The last consistent candidate was returned, which is only the largest
one if the candidates happen to be sorted.
---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index a296aa1..1bd2632 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -57,7 +57,7 @@ def infer_python_spaces_per_indent(
     return 1
 
   inferred_indent_length = 1
-  for candidate_indent_length in candidate_spaces_per_indent:
+  for candidate_indent_length in sorted(candidate_spaces_per_indent):
     if all([not this_indent_length % candidate_indent_length for
             this_indent_length in indent_lengths]):
       inferred_indent_length = candidate_indent_length
-- 
2.43.0


From 6f033fb24cfe169e0d6d13a2c28a983a1adfcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 12/17] fix: remove nothing when truncating an empty prefix

Truncating at offset 0 dropped the region and early-exit markers before
the first text node, so that node could not be put into a region.
---
 r_u_sure/tree_structure/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/tree_structure/transforms.py b/r_u_sure/tree_structure/transforms.py
index b1d90b9..8ed1275 100644
--- a/r_u_sure/tree_structure/transforms.py
+++ b/r_u_sure/tree_structure/transforms.py
@@ -289,8 +289,9 @@ def truncate_prefix_at_offset(
   Returns:
     Extended sequence with region start/end nodes.
   """
-  # Tracks whether we have seen the start point yet.
-  past_start_point = False
+  # Tracks whether we have seen the start point yet. (With an empty prefix, there
+  # is nothing to remove.)
+  past_start_point = start_offset == 0
   # If past_start_point is False, tracks the characters we have seen so far.
   prefix_chars_seen_so_far = 0
 
-- 
2.43.0


From 4cb36efa93a51779678386700d39c1cd7f8b5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:24 +0000
Subject: [PATCH 13/17] fix: treat no token as seen when the context is empty

---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 1779be73db52a903d022a27da2136944495cfd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 14/17] fix: place multi-line and upward SVG labels where they
 are asked for

---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..8787e46 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0


From e48942defce8cb0a0f22e7f47d7187ce3f5f4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:47 +0000
Subject: [PATCH 15/17] fix: sweep over the only variable of a one-variable
 system

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index a57e27e..6466ae4 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -703,7 +703,12 @@ def solve_system_with_sweeps(
     for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):
       if sweep_direction == SweepDirection.FORWARD:
         # 0, 1, ..., len-3, len-2
-        variables_in_sweep = range(0, system_data.num_variable_keys - 1)
+        # (Unless there is only one variable, in which case this is the only
+        # sweep that can visit it.)
+        if system_data.num_variable_keys == 1:
+          variables_in_sweep = range(0, 1, 1)
+        else:
+          variables_in_sweep = range(0, system_data.num_variable_keys - 1, 1)
       else:
         # len-1, len-2, ..., 2, 1
         variables_in_sweep = range(system_data.num_variable_keys - 1, 0, -1)
-- 
2.43.0


From 6349d89a8cd37096286b1ef1e5c1287f52926d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:47 +0000
Subject: [PATCH 16/17] fix: apply no constraint when one of several is unknown

---
 .../decision_diagrams/consistent_path_dual_solver.py  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6466ae4..5901115 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -1050,10 +1050,13 @@ def constrain_system(
   """
   index_of_variable_key = {k: i for i, k in enumerate(system.variable_keys)}
   index_of_variable_value = {v: i for i, v in enumerate(system.variable_values)}
-  for key, value in constraints.items():
-    variable_index = index_of_variable_key[key]
-    value_index = index_of_variable_value[value]
-
+  # Resolve every constraint before applying any of them, so that an unknown
+  # variable or value leaves the system untouched.
+  constraint_indices = [
+      (index_of_variable_key[key], index_of_variable_value[value])
+      for key, value in constraints.items()
+  ]
+  for variable_index, value_index in constraint_indices:
     penalty_vector = np.full(
         (system.data.num_variable_values,), np.float64(penalty)
     )
-- 
2.43.0


From 9492ab51ff338838c55418a3a58ffadb6e8fb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:58 +0000
Subject: [PATCH 17/17] fix: reject a node path that ends outside its sequence

---
 r_u_sure/tree_structure/packed_sequence_nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/tree_structure/packed_sequence_nodes.py b/r_u_sure/tree_structure/packed_sequence_nodes.py
index ffde0c2..c2b6653 100644
--- a/r_u_sure/tree_structure/packed_sequence_nodes.py
+++ b/r_u_sure/tree_structure/packed_sequence_nodes.py
@@ -177,7 +177,13 @@ class PackedSequenceNodeStorage(NamedTuple):
     the_sequence = self.subsequence_from_node_path(
         sequence_nodes.NestedNodePath(path=node_path.path[:-1])
     )
-    return the_sequence[node_path.path[-1]]
+    position = node_path.path[-1]
+    if position < 0 or position >= len(the_sequence):
+      raise ValueError(
+          f"Invalid path position {position} for sequence of length"
+          f" {len(the_sequence)}"
+      )
+    return the_sequence[position]
 
   def subsequence_from_node_path(
       self, sequence_path: sequence_nodes.NestedNodePath
-- 
2.43.0

