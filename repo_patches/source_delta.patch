From 67cb32c890242ea8fb6e6cb7cfa2c71f67237ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 01/29] fix: discrete DryVR bloating scales sensitivities back
 by the radius they were divided by

---
 verse/analysis/dryvr_disc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..2ecf60f 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -19,7 +19,7 @@ def all_sensitivities_calc(training_traces: np.ndarray, initial_radii: np.ndarra
     y_points: np.array = np.zeros(
         (normalizing_initial_set_radii.shape[0], trace_len - 1))
     normalizing_initial_set_radii[np.where(
-        normalizing_initial_set_radii < 1e-10)] = 1.0
+        normalizing_initial_set_radii == 0)] = 1.0
     for cur_dim_ind in range(1, ndims):
         # keyi: move out of loop
         normalized_initial_points: np.array = training_traces[:,
-- 
2.43.0


From 422f2bd203478a18199c881988b42605c48f2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 02/29] fix: simulation checks assertions of agents that have
 no transitions

---
 verse/analysis/simulator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..76d5568 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -707,6 +707,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # Assertions have to be checked even when an agent has no transitions to check
+        for agent_id, agent in node.agent.items():
+            if agent.decision_logic.asserts:
+                agent_guard_dict[agent_id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
@@ -801,6 +805,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # Assertions have to be checked even when an agent has no transitions to check
+        for agent_id, agent in node.agent.items():
+            if agent.decision_logic.asserts:
+                agent_guard_dict[agent_id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
-- 
2.43.0


From e465b60f583a1ac9f7867163a440e98e495c7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 03/29] fix: simulation keeps transitions that differ only in
 their continuous reset

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 76d5568..af33103 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -775,7 +775,7 @@ class Simulator:
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
                 break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {aid: dedup(v, lambda p: (p[1], list(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From 95fdd3e24e764cf216fd9846dcb506edb90bffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 04/29] fix: nodes created by simulate_simple get unique ids

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index af33103..0bc5519 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -514,6 +514,7 @@ class Simulator:
 
         simulation_queue = []
         simulation_queue.append(root)
+        last_id = root.id
         # Perform BFS through the simulation tree to loop through all possible transitions
         while simulation_queue != []:
             node: AnalysisTreeNode = simulation_queue.pop(0)
@@ -602,12 +603,13 @@ class Simulator:
 
                     all_transition_paths.append(transition_paths)
 
+                    last_id += 1
                     tmp = node.new_child(
                         trace=next_node_trace,
                         init=next_node_init,
                         mode=next_node_mode,
                         start_time=next_node_start_time,
-                        id=-1,
+                        id=last_id,
                     )
                     node.child.append(tmp)
                     simulation_queue.append(tmp)
-- 
2.43.0


From 83d6459a768967a0187aa810a7cef26b8a1631d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 05/29] fix: parser handles the filter of a generator in
 any/all/sum

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..d7f1d1e 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -926,7 +926,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            ifs = [proc(cond, env) for cond in ifs]
+            expr = cond_trans(expr, merge_conds(ifs)) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From ffdf00ae384f235665adc129a2055160b2dd3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 06/29] fix: parser keeps outer variables shadowed by
 parameters and generator variables

---
 verse/parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index d7f1d1e..7893d89 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -465,7 +465,7 @@ class Env:
         self.scopes[0].v[key] = val
 
     def add_hole(self, name: str, typ: Optional[str]):
-        self.set(name, ast.arg(name, ast.Constant(typ, None)))
+        self.scopes[0].v[name] = ast.arg(name, ast.Constant(typ, None))
 
     def add_assert(self, expr, label):
         self.scopes[0].asserts.append(_Assert(expr, label))
@@ -579,8 +579,8 @@ ScopeValueMap = Dict[str, ScopeValue]
 
 def merge_if(test: ast.expr, trues: Env, falses: Env, env: Env):
     # `true`, `false` and `env` should have the same level
-    for true, false in zip(trues.scopes, falses.scopes):
-        merge_if_single(test, true.v, false.v, env)
+    for true, false, scope in zip(trues.scopes, falses.scopes, env.scopes):
+        merge_if_single(test, true.v, false.v, scope.v)
     env.scopes[0].asserts = merge_assert(
         test, trues.scopes[0].asserts, falses.scopes[0].asserts, env.scopes[0].asserts
     )
-- 
2.43.0


From 1976ef86b0adbe7acc8cfaff0a27463d69ff7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 07/29] fix: parser keeps assignments that both branches make
 or that repeat the original value

---
 verse/parser/parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 7893d89..32a15f0 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -617,7 +617,10 @@ def merge_if_single(
 
     for var in set(true.keys()).union(set(false.keys())):
         var_true, var_false = true.get(var), false.get(var)
-        if ControllerIR.ir_eq(var_true, var_false):
+        # The branches can agree because both of them assigned the same value
+        if ControllerIR.ir_eq(var_true, var_false) and ControllerIR.ir_eq(
+            var_true, lookup(scope, var)
+        ):
             continue
         if var_true != None and var_false != None:
             assert isinstance(var_true, dict) == isinstance(var_false, dict)
@@ -665,11 +668,12 @@ def merge_if_val(
 
     true, false, orig = as_cv(true), as_cv(false), as_cv(orig)
     if orig != None:
-        for orig_cve in orig.elems:
-            if true != None and orig_cve in true.elems:
-                true.elems.remove(orig_cve)
-            if false != None and orig_cve in false.elems:
-                false.elems.remove(orig_cve)
+        for branch in (true, false):
+            # Only a value inherited from before the `if` carries all of the original cases
+            if branch != None and all(orig_cve in branch.elems for orig_cve in orig.elems):
+                for orig_cve in orig.elems:
+                    if orig_cve in branch.elems:
+                        branch.elems.remove(orig_cve)
 
     true_emp, false_emp = (
         true == None or len(true.elems) == 0,
-- 
2.43.0


From 8123512d29ff86916dca8090ca37812cddcb14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 08/29] fix: resets in verification substitute variables by
 name, not by text

---
 verse/analysis/verifier.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..852635e 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -2,6 +2,7 @@ from enum import Enum, auto
 from dataclasses import dataclass
 from collections import defaultdict
 import copy, itertools, functools, pprint
+from types import SimpleNamespace
 from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
@@ -1362,11 +1363,15 @@ class Verifier:
                 ub = -float("inf")
 
                 for comb in comb_list:
-                    val_dict = {}
-                    tmp = copy.deepcopy(expr)
-                    for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
-                    res = eval(tmp, {}, val_dict)
+                    # Bind the values by name: replacing text would confuse ego.x with ego.x2
+                    val_dict = defaultdict(SimpleNamespace)
+                    for symbol, value in zip(symbols, comb):
+                        obj, _, attr = symbol.partition(".")
+                        if attr:
+                            setattr(val_dict[obj], attr, value)
+                        else:
+                            val_dict[obj] = value
+                    res = eval(expr, {}, dict(val_dict))
                     lb = min(lb, res)
                     ub = max(ub, res)
 
-- 
2.43.0


From a30de636bdf5c8fd927a9ad60e091daa3c98cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 09/29] fix: verification reports an assertion whose
 precondition only part of a box satisfies

---
 verse/analysis/verifier.py | 44 ++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 852635e..9215ec1 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1107,38 +1107,36 @@ class Verifier:
                 resets = defaultdict(list)
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
-                    pre_expr = a.pre
 
-                    def eval_expr(expr):
-                        ge = GuardExpressionAst([copy.deepcopy(expr)])
+                    def some_state_satisfies(exprs):
+                        ge = GuardExpressionAst(exprs)
                         cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
                         Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
                         sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
                         if sat:
                             sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                             if sat:
-                                sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                                sat = sat and contained
+                                sat, _ = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # Violated when some state satisfies the precondition but not the condition
+                    if some_state_satisfies([a.pre, ast.UnaryOp(op=ast.Not(), operand=a.cond)]):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From 6bf925532e2c7305bb7c9f96b2b4a10a4392ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 10/29] fix: verification with unsafe_continue crashed at a
 violated assertion

---
 verse/analysis/verifier.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9215ec1..ed5e1f5 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -570,10 +570,11 @@ class Verifier:
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
             config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
         )
+        if asserts != None:
+            asserts, idx = asserts
         node.assert_hits = asserts
 
         if not config.unsafe_continue and asserts != None:
-            asserts, idx = asserts
             if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
@@ -1062,6 +1063,7 @@ class Verifier:
             reduction_queue.reverse()
         # for idx, end_idx,combine_len in reduction_queue:
         hits = []
+        found_asserts = None  # violations passed so far, only with unsafe_continue
         while reduction_queue:
             idx, end_idx, combine_len = reduction_queue.pop()
             reduction_needed = False
@@ -1093,7 +1095,7 @@ class Verifier:
                     guard_hit = True
                     break
                 else:
-                    return None, cached_trans
+                    return found_asserts, cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1139,7 +1141,7 @@ class Verifier:
                             break
                 if reduction_needed:
                     break
-                if agent_id in asserts:
+                if agent_id in asserts and not config.unsafe_continue:
                     continue
                 if agent_id not in agent_guard_dict:
                     continue
@@ -1204,7 +1206,13 @@ class Verifier:
             if reduction_needed or combine_len > 1:
                 continue
             if len(asserts) > 0:
-                return (asserts, idx), None
+                if not config.unsafe_continue:
+                    return (asserts, idx), None
+                if found_asserts is None:
+                    found_asserts = (defaultdict(list), idx)
+                for agent_id, labels in asserts.items():
+                    known = found_asserts[0][agent_id]
+                    known.extend(label for label in labels if label not in known)
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
@@ -1274,7 +1282,7 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return None, possible_transitions + cached_trans
+        return found_asserts, possible_transitions + cached_trans
 
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
@@ -1670,10 +1678,11 @@ class Verifier:
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
             config, {}, [], node, consts.lane_map, consts.sensor
         )
+        if asserts != None:
+            asserts, idx = asserts
         node.assert_hits = asserts
 
         if not config.unsafe_continue and asserts != None:
-            asserts, idx = asserts
             for agent in node.agent:
                 node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
-- 
2.43.0


From f1d2a89d2d11b4aa20bada1d9c6b23a1899c71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 11/29] fix: initial sets of a successor follow the steps at
 which they arise

---
 verse/analysis/verifier.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index ed5e1f5..8c8f4a0 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1256,6 +1256,15 @@ class Verifier:
             for reset_idx in reset_dict[agent]:
                 for dest in reset_dict[agent][reset_idx]:
                     reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
+                    if config.reachability_method != ReachabilityMethod.STAR_SETS:
+                        # The k-th initial set of a node starts k steps after the first one
+                        rects = {}
+                        for rect, hit_idx in zip(*reset_data[:2]):
+                            rects[hit_idx] = combine_all([rects[hit_idx], rect]) if hit_idx in rects else rect
+                        hit_idxs = list(range(min(rects), max(rects) + 1))
+                        for hit_idx in hit_idxs:
+                            rects.setdefault(hit_idx, rects.get(hit_idx - 1))
+                        reset_data = ([rects[i] for i in hit_idxs], hit_idxs, reset_data[2])
                     # paths = [r[-1] for r in reset_data[-1]]
                     paths = [r[-1] for r in reset_data[-1][0]]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
-- 
2.43.0


From 063a2c91fdfc554929bcec05289c3e9d52afbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 12/29] fix: loading a saved simulation tree failed when a node
 has no trace of some agent

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..c72250d 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -227,7 +227,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(t) for aid, t in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From 7ff81d6ecefa579b334069f47f1fc6f7ef65592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 13/29] fix: containment of simulation trees did not compare
 simulations

---
 verse/analysis/analysis_tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index c72250d..e8b24c9 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -335,15 +335,18 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
             def sim_seg_contains(a: Dict[str, TraceType], b: Dict[str, TraceType]) -> bool:
-                return all(
-                    a[aid].shape == b[aid].shape
+                # nodes that were not explored do not have traces of all agents
+                common = [aid for aid in min_agents if aid in a]
+                return common == [aid for aid in min_agents if aid in b] and all(
+                    a[aid].size == b[aid].size == 0
+                    or a[aid].shape == b[aid].shape
                     and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
-                    for aid in min_agents
+                    for aid in common
                 )
 
             def sim_node_contains(a: AnalysisTreeNode, b: AnalysisTreeNode) -> bool:
-- 
2.43.0


From 17ba08b2465a087ce8ac2600590d9650fb6e47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 14/29] fix: containment of reachable sets with successors that
 start later or end earlier

---
 verse/analysis/analysis_tree.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index e8b24c9..db203d0 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -367,17 +367,24 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
-            cont_num = len(other.nodes[0].trace[min_agents[0]][0])
+            cont_num = {
+                aid: len(n.trace[aid][0])
+                for n in self.nodes + other.nodes
+                for aid in min_agents
+                if len(n.trace.get(aid, ())) > 0
+            }
 
             def collect_ranges(
                 n: AnalysisTreeNode,
             ) -> Dict[str, List[List[portion.Interval]]]:
-                trace_len = len(n.trace[min_agents[0]])
+                # nodes that were not explored do not have traces of all agents
+                explored = all(aid in n.trace for aid in min_agents)
+                trace_len = len(n.trace[min_agents[0]]) if explored else 0
                 cur = {
                     aid: [
                         [
                             portion.closed(n.trace[aid][i][j], n.trace[aid][i + 1][j])
-                            for j in range(cont_num)
+                            for j in range(cont_num[aid])
                         ]
                         for i in range(0, trace_len, 2)
                     ]
@@ -398,7 +405,13 @@ class AnalysisTree:
                         round((c.start_time - min_start_time) / time_step) for c in n.child
                     ]
                     trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
+                    overlap_len = round(
+                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
+                    )
+                    # successors may end before the node itself does
+                    trace_len = max(
+                        [overlap_len] + [b + l for b, l in zip(bias_list, trace_len_list)]
+                    )
                     combined = {
                         aid: [
                             [
@@ -412,22 +425,19 @@ class AnalysisTree:
                                         for k in range(child_num)
                                     ),
                                 )
-                                for j in range(cont_num)
+                                for j in range(cont_num[aid])
                             ]
                             for i in range(trace_len)
                         ]
                         for aid in other_agents
                     }
-                    overlap_len = round(
-                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
-                    )
                     overlap = {
                         aid: [
                             [
                                 portion.Interval.union(
                                     cur[aid][i][j], combined[aid][overlap_len + i][j]
                                 )
-                                for j in range(cont_num)
+                                for j in range(cont_num[aid])
                             ]
                             for i in range(-overlap_len, 0)
                         ]
@@ -440,7 +450,8 @@ class AnalysisTree:
 
             this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
             total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+            if total_len > len(this_tree[min_agents[0]]):
+                return False
             # bloat and containment
             return all(
                 other_tree[aid][i][j]
@@ -449,7 +460,7 @@ class AnalysisTree:
                 )
                 for aid in other_agents
                 for i in range(total_len)
-                for j in range(cont_num)
+                for j in range(cont_num[aid])
             )
 
     @staticmethod
-- 
2.43.0


From f58af0f42d7cafe9181a451d6543c5d239d56e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 15/29] fix: first_transitions returned a later transition

---
 verse/analysis/analysis_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index db203d0..14d948a 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -580,6 +580,8 @@ def first_transitions(tree: AnalysisTree) -> Dict[str, float]:  # id, start time
     for node in tree.nodes:
         for child in node.child:
             for aid in node.agent:
-                if aid not in d and node.mode[aid] != child.mode[aid]:
+                if node.mode[aid] != child.mode[aid] and (
+                    aid not in d or child.start_time < d[aid]
+                ):
                     d[aid] = child.start_time
     return d
-- 
2.43.0


From 62b0c8a6fdcc7c7244ec4ea4dd8701e67bb5f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 16/29] fix: last step of a tree of reachable sets when a
 branch ends early, times are inexact or nodes are unexplored

---
 verse/utils/fixed_points.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..09851a8 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -27,11 +27,12 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
     sim_enum: Dict[str, Dict[str, int]] = {} #indexed by agent and then by mode -- simulates the enum class 
     for agent in agents:
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
-    T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
+    T = 0 # the last time in the tree; not every leaf node gets there, since branches end at violated assertions
     if t_lower is None or t_upper is None:
-        last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        T = max(trace[-1][0] for node in nodes for trace in node.trace.values())
     for node in nodes:
+        if any(agent not in node.trace for agent in agents): # node was not explored, so it has no composed states
+            continue
         reached[node_counter] = None
         modes = node.mode 
         reach_node: Dict[str, List[List[float]]] = {} # will store ordered list of hyperrectangle vertices indexed by agents
@@ -45,8 +46,6 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
 
             ### make error message for t_lower and t_upper
             if t_lower is not None and t_upper is not None: ### may want to seperate this out into a seperate function
-                if agent not in node.trace: # NOTE: not all agents present in all modes -- is this desired? 
-                    continue 
                 loop_step = 1 if node.trace[agent][0][0] == node.trace[agent][1][0] else 2 # NOTE: so that 
                 # FIXME: the loop below only makes sense for dryvr, not dryvr_disc -- not important if solely using dryvr, but important to mention
                 for i in range(0, len(node.trace[agent])-1, loop_step): # just check the upper bound, time difference between lower and upper known to be time step of scenario
@@ -63,7 +62,7 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
                         upper.append(sim_enum[agent][mode]) 
                     reach_node[agent] += [lower, upper]
             else: ### for now, just assume if t_lower and t_upper not supplied, we just want last node 
-                if node.trace[agent][-1][0]==T:
+                if np.isclose(node.trace[agent][-1][0], T, rtol=0, atol=1e-8): # nodes add up different time steps
                     lower = list(node.trace[agent][-2][1:])
                     upper = list(node.trace[agent][-1][1:])
                     for mode in modes[agent]: # assume that size of modes[agent] doesn't change between nodes
-- 
2.43.0


From 28c7194c17d46c6104b7ddfb46b3f847f17e5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 17/29] fix: lane coordinates on arcs longer than half a circle

---
 verse/map/lane_segment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..7823195 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -280,7 +280,9 @@ class CircularLane(AbstractLane):
     def local_coordinates(self, position: np.ndarray) -> Tuple[float, float]:
         delta = position - self.center
         phi = np.arctan2(delta[1], delta[0])
-        phi = self.start_phase + wrap_to_pi(phi - self.start_phase)
+        # Angles are unrolled around the middle of the arc, so that arcs can be longer than half a circle
+        mid_phase = (self.start_phase + self.end_phase) / 2
+        phi = mid_phase + wrap_to_pi(phi - mid_phase)
         r = np.linalg.norm(delta)
         longitudinal = self.direction * (phi - self.start_phase) * self.radius
         lateral = self.direction * (self.radius - r)
-- 
2.43.0


From 7207bbb1d447d8855696f92759d0e717ffa763b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 18/29] fix: position on overlapping lane segments used the
 leftmost instead of the nearest one

---
 verse/map/lane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..63b6a86 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -29,10 +29,10 @@ class Lane:
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                if abs(lateral) < min_lateral:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_lateral = abs(lateral)
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
-- 
2.43.0


From e4971423be42ece0eae8d93d690b67de96854e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 19/29] fix: SimpleMap4Switch2 allowed no single lane change to
 the left

---
 verse/map/example_map/simple_map2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/map/example_map/simple_map2.py b/verse/map/example_map/simple_map2.py
index 3bc84dd..1228e01 100644
--- a/verse/map/example_map/simple_map2.py
+++ b/verse/map/example_map/simple_map2.py
@@ -114,7 +114,7 @@ class SimpleMap4Switch2(LaneMap):
                 ind = int(lane_idx[1])
                 if typ == "Left" and ind > 0:
                     new_ind = ind - 1
-                if typ == "Left2" and ind > 1:
+                elif typ == "Left2" and ind > 1:
                     new_ind = ind - 2
                 elif typ == "Right" and ind < 4:
                     new_ind = ind + 1
-- 
2.43.0


From 103ddac30f7d26bf22f3eeb463e0348425263e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 20/29] fix: longitudinal range of a box on an arc when its
 angles straddle a cut, the center, or half a turn

---
 verse/automaton/guard.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..5d8d0f1 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -619,25 +619,27 @@ class GuardExpressionAst:
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
+            mid_phase = (lane_seg.start_phase + lane_seg.end_phase) / 2
+            if np.all(delta0 <= 0) and np.all(delta1 >= 0):
+                # The box contains the center, all angles are possible
+                phi0, phi1 = mid_phase - np.pi, mid_phase + np.pi
+            else:
+                phi = np.array(
+                    [
+                        np.arctan2(delta0[1], delta0[0]),
+                        np.arctan2(delta0[1], delta1[0]),
+                        np.arctan2(delta1[1], delta0[0]),
+                        np.arctan2(delta1[1], delta1[0]),
+                    ]
+                )
+                if delta1[0] <= 0 and delta0[1] <= 0 <= delta1[1]:
+                    # The angles on the left of the center are contiguous in [0, 2*pi]
+                    phi = phi % (2 * np.pi)
+                # Unroll the angles in the same way as the lane does
+                phi0 = mid_phase + wrap_to_pi(np.min(phi) - mid_phase)
+                phi1 = phi0 + np.max(phi) - np.min(phi)
+                if phi1 >= mid_phase + np.pi:
+                    phi0, phi1 = mid_phase - np.pi, mid_phase + np.pi
             longitudinal_low = (
                 min(
                     lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-- 
2.43.0


From 4e64f605bd8d58e234c3bf7cbcee726d52b4c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 21/29] fix: guards on lane queries ignored segments between
 those of the corners of the box, and mixed up shared segments

---
 verse/automaton/guard.py | 59 +++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 5d8d0f1..296e214 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -463,18 +463,18 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
                         # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
+                        lateral_sets = [
+                            self._handle_lateral_set(seg, np.array(vehicle_pos))
+                            for seg, _ in self._lane_segments(
+                                track_map, vehicle_lane, np.array(vehicle_pos)
+                            )
+                        ]
 
-                        # Use the union of two sets as the set of possible lateral positions
+                        # Use the union of the sets as the set of possible lateral positions
                         lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
+                            min(low for low, _ in lateral_sets),
+                            max(high for _, high in lateral_sets),
                         ]
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
@@ -533,21 +533,17 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
                         # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
-                        )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
-                        )
-                        # Use the union of two sets as the set of possible longitudinal positions
+                        longitudinal_sets = [
+                            longitudinal
+                            for _, longitudinal in self._lane_segments(
+                                track_map, vehicle_lane, np.array(vehicle_pos)
+                            )
+                        ]
+                        # Use the union of the sets as the set of possible longitudinal positions
                         longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
+                            min(low for low, _ in longitudinal_sets),
+                            max(high for _, high in longitudinal_sets),
                         ]
 
                         if agent_vars != {}: #stars:
@@ -595,6 +591,25 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
+    def _lane_segments(self, track_map: LaneMap, lane_idx, position: np.ndarray):
+        """
+        The segments of a lane that some position of a box can be on, each with the range of the positions along the lane
+        """
+        lane = track_map.lane_dict[track_map.get_phys_lane(lane_idx)]
+        segments = []
+        # Segments can be shared by lanes, so their longitudinal_start may be that of another lane
+        start = 0
+        for seg in lane.segment_list:
+            low, high = self._handle_longitudinal_set(seg, position)
+            low, high = low - seg.longitudinal_start, high - seg.longitudinal_start
+            if high >= -lane.COMPENSATE and low < seg.length:
+                low, high = max(low, -lane.COMPENSATE), min(high, seg.length)
+                segments.append((seg, (low + start, high + start)))
+            start += seg.length
+        if not segments:
+            raise ValueError(f"No position in {position.tolist()} is on lane {lane_idx}")
+        return segments
+
     def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
         if lane_seg.type == "Straight":
             # Delta lower
-- 
2.43.0


From 4dec268723cf48916f9f8e1995853c165eb8bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 22/29] fix: cached tubes of covering sets were missed or taken
 for sets they do not cover, and equal intervals crashed the caches

---
 verse/analysis/incremental.py | 49 +++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..f2f9a5a 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -22,7 +22,7 @@ class CachedTransition:
     paths: List[ModePath]
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedSegment:
     trace: nptyp.NDArray[np.double]
     asserts: List[str]
@@ -41,7 +41,7 @@ class CachedReachTrans:
     paths: List[ModePath]
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedRTTrans:
     asserts: List[str]
     transitions: List[CachedReachTrans]
@@ -154,15 +154,10 @@ def reach_trans_suit(
     return all(suits(av, bv) for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedTube:
     tube: List[List[List[float]]]
 
-    def __eq__(self, other) -> bool:
-        if other is None:
-            return False
-        return (self.tube == other.tube).all()
-
 
 class SimTraceCache:
     def __init__(self):
@@ -285,22 +280,34 @@ class TubeCache:
                 tree = next_level_tree
         raise Exception("???")
 
+    @staticmethod
+    def query_cont(tree: IntervalTree, cont: List[List[float]]) -> List[Tuple[float, CachedTube]]:
+        """All the tubes of sets that contain a set, with how much larger these sets are"""
+        assert isinstance(tree, IntervalTree)
+        low, high = cont[0]
+        res = []
+        for t in tree[low : high + _EPSILON]:
+            if t.begin <= low and high + _EPSILON <= t.end:
+                extra = low - t.begin + t.end - high
+                if len(cont) == 1:
+                    assert isinstance(t.data, CachedTube)
+                    res.append((extra, t.data))
+                else:
+                    res.extend(
+                        (extra + rest, ent) for rest, ent in TubeCache.query_cont(t.data, cont[1:])
+                    )
+        return res
+
     def check_hit(
         self, agent_id: str, mode: Tuple[str], init: List[List[float]]
     ) -> Optional[CachedTube]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
-        tree = self.cache[key]
-        for low, high in list(map(list, zip(*init))):
-            next_level_entries = [
-                t for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end
-            ]
-            if len(next_level_entries) == 0:
-                return None
-            tree = min(next_level_entries, key=lambda e: low - e.begin + e.end - high).data
-        assert isinstance(tree, CachedTube)
-        return tree
+        entries = self.query_cont(self.cache[key], list(map(list, zip(*init))))
+        if len(entries) == 0:
+            return None
+        return min(entries, key=lambda e: e[0])[1]
 
 
 class ReachTubeCache:
@@ -343,7 +350,9 @@ class ReachTubeCache:
         assert isinstance(tree, IntervalTree)
         low, high = cont[0]
         next_level_entries = [
-            t.data for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end
+            t.data
+            for t in tree[low : high + _EPSILON]
+            if t.begin <= low and high + _EPSILON <= t.end
         ]
         if len(cont) == 1:
             for ent in next_level_entries:
@@ -383,7 +392,7 @@ class ReachTubeCache:
             return [
                 [
                     (i.begin + i.end) / 2,
-                    (i.data.run_num, i.data.node_id, [t.transition for t in i.data.transitions]),
+                    (i.data.node_ids, [t.transition for t in i.data.transitions]),
                 ]
                 for i in tree
             ]
-- 
2.43.0


From a6935347215ac9037bede4039829253542a52121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 23/29] fix: incremental runs reused traces, tubes and
 transitions that do not apply

---
 verse/analysis/analysis_tree.py |   4 +-
 verse/analysis/incremental.py   | 150 +++++++++++++++++++------------
 verse/analysis/simulator.py     | 122 ++++++++++---------------
 verse/analysis/verifier.py      | 154 +++++++++++---------------------
 4 files changed, 197 insertions(+), 233 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 14d948a..04c1697 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
-import json
+import copy, json
 import numpy.typing as nptyp, numpy as np, portion
 import networkx as nx
 from matplotlib import colors
@@ -134,7 +134,7 @@ class AnalysisTreeNode:
             mode=mode,
             static=static,
             uncertain_param=uncertain_param,
-            agent=agent,
+            agent={aid: copy.copy(a) for aid, a in agent.items()},
             ndigits=ndigits,
             type=type,
             trace={},
diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index f2f9a5a..92c420b 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -20,6 +20,7 @@ class CachedTransition:
     disc: List[str]
     cont: List[float]
     paths: List[ModePath]
+    node_id: Tuple[int, int]  # run_num, node_id of the node it was taken in
 
 
 @dataclass(eq=False)
@@ -28,6 +29,8 @@ class CachedSegment:
     asserts: List[str]
     transitions: List[CachedTransition]
     node_ids: Set[Tuple[int, int]]
+    start_time: float  # of the trace
+    span: tuple  # time horizon and time step of the trace
 
 
 @dataclass
@@ -39,6 +42,7 @@ class CachedReachTrans:
     reset: List[float]
     reset_idx: List[int]
     paths: List[ModePath]
+    node_id: Tuple[int, int]  # run_num, node_id of the node it was found in
 
 
 @dataclass(eq=False)
@@ -46,63 +50,80 @@ class CachedRTTrans:
     asserts: List[str]
     transitions: List[CachedReachTrans]
     node_ids: Set[Tuple[int, int]]  # run_num, node_id
+    trace: List[List[float]]  # the full tube of the agent in these nodes
+
+
+def same_path(a: ModePath, b: ModePath) -> bool:
+    return (
+        a.var == b.var
+        and ControllerIR.ir_eq(a.cond_veri, b.cond_veri)
+        and ControllerIR.ir_eq(a.val_veri, b.val_veri)
+    )
+
+
+def same_asserts(old: ControllerIR, new: ControllerIR) -> bool:
+    return len(old.asserts_veri) == len(new.asserts_veri) and all(
+        a.label == b.label
+        and ControllerIR.ir_eq(a.pre, b.pre)
+        and ControllerIR.ir_eq(a.cond, b.cond)
+        for a, b in zip(old.asserts_veri, new.asserts_veri)
+    )
+
+
+def same_states(a, b) -> bool:
+    """Whether two traces or tubes go through the same states, at whatever time"""
+    a, b = np.array(a), np.array(b)
+    return a.shape == b.shape and bool((a[:, 1:] == b[:, 1:]).all())
 
 
 def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
+    old_node: AnalysisTreeNode,
+    old_node_id: Tuple[int, int],
+    node: AnalysisTreeNode,
     cached: Dict[str, CachedSegment],
 ) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
-    assert set(old_agents.keys()) == set(new_agents.keys())
+    """The transitions taken in `old_node` that tell about those in `node`, and the paths it didn't
+    have. Nothing can be told when the traces or the assertions differ."""
+    assert set(old_node.agent.keys()) == set(node.agent.keys())
     new_cache = {}
     total_added_paths = []
     for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
-            continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
-
-
-def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
+        old_ctlr = old_node.agent[agent_id].decision_logic
+        new_ctlr = node.agent[agent_id].decision_logic
+        if (
+            old_ctlr.args != new_ctlr.args
+            or old_ctlr.state_defs != new_ctlr.state_defs
+            or not same_asserts(old_ctlr, new_ctlr)
+            or old_node.static[agent_id] != node.static[agent_id]
+            or not same_states(segment.trace, node.trace[agent_id])
+        ):
+            return {}, []
+        segment = copy.copy(segment)
+        segment.transitions = [t for t in segment.transitions if t.node_id == old_node_id]
+        new_cache[agent_id] = segment
+        total_added_paths.extend(
+            (node.agent[agent_id], p)
+            for p in new_ctlr.paths
+            if not any(same_path(p, old) for old in old_ctlr.paths)
+        )
+    kept = all(
+        any(same_path(p, new) for new in node.agent[agent_id].decision_logic.paths)
+        for agent_id, segment in new_cache.items()
+        for trans in segment.transitions
+        for p in trans.paths
+    )
+    unchanged = kept and not total_added_paths
+    if not unchanged and not any(segment.transitions for segment in new_cache.values()):
+        # the search for transitions in the old node may have stopped anywhere
+        return {}, []
+    return new_cache, None if unchanged else total_added_paths
+
+
+def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
             CachedTransition(
-                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths
+                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths, node_id
             )
             for _id, mode, init, paths in transition
         ]
@@ -110,10 +131,10 @@ def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
         return []
 
 
-def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
+def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
-            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths)
+            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths, node_id)
             for _id, mode, dest, reset, reset_idx, paths in transition
         ]
     else:
@@ -157,6 +178,7 @@ def reach_trans_suit(
 @dataclass(eq=False)
 class CachedTube:
     tube: List[List[List[float]]]
+    span: tuple  # time horizon, time step and bloating method of the tube
 
 
 class SimTraceCache:
@@ -172,6 +194,7 @@ class SimTraceCache:
         transition,
         trans_ind: int,
         run_num: int,
+        span: tuple,
     ):
         key = (agent_id,) + tuple(node.mode[agent_id])
         init = node.init[agent_id]
@@ -180,11 +203,17 @@ class SimTraceCache:
         # pp(('add seg', agent_id, *node.mode[agent_id], *init))
         for i, val in enumerate(init):
             if i == len(init) - 1:
+                node_id = (run_num, node.id)
                 transitions = convert_sim_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id, transit_agents, node.init, transition, trans_ind, node_id
                 )
                 entry = CachedSegment(
-                    trace, assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
+                    trace,
+                    assert_hits.get(agent_id),
+                    transitions,
+                    set([node_id]),
+                    node.start_time,
+                    span,
                 )
                 tree[val - _EPSILON : val + _EPSILON] = entry
                 return entry
@@ -236,13 +265,18 @@ class SimTraceCache:
             ]
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[float], inits: Dict[str, List[float]]
+        self,
+        agent_id: str,
+        mode: Tuple[str],
+        init: List[float],
+        inits: Dict[str, List[float]],
+        span: tuple,
     ) -> Optional[CachedSegment]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
         tree = self.cache[key]
-        entries = self.query_cont(tree, init)
+        entries = [e for e in self.query_cont(tree, init) if e.span == span]
         if len(entries) == 0:
             return None
 
@@ -265,13 +299,14 @@ class TubeCache:
         mode: Tuple[str],
         init: List[List[float]],
         trace: List[List[List[float]]],
+        span: tuple,
     ):
         key = (agent_id,) + tuple(mode)
         init = list(map(list, zip(*init)))
         tree = self.cache[key]
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
-                entry = CachedTube(trace)
+                entry = CachedTube(trace, span)
                 tree[low : high + _EPSILON] = entry
                 return entry
             else:
@@ -299,12 +334,13 @@ class TubeCache:
         return res
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[List[float]]
+        self, agent_id: str, mode: Tuple[str], init: List[List[float]], span: tuple
     ) -> Optional[CachedTube]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
         entries = self.query_cont(self.cache[key], list(map(list, zip(*init))))
+        entries = [(extra, ent) for extra, ent in entries if ent.span == span]
         if len(entries) == 0:
             return None
         return min(entries, key=lambda e: e[0])[1]
@@ -323,6 +359,7 @@ class ReachTubeCache:
         transition,
         trans_ind: int,
         run_num: int,
+        trace: List[List[float]],
     ):
         key = (agent_id,) + tuple(node.mode[agent_id])
         tree = self.cache[key]
@@ -331,11 +368,12 @@ class ReachTubeCache:
         init = list(map(tuple, zip(*init[agent_id])))
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
+                node_id = (run_num, node.id)
                 transitions = convert_reach_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id, transit_agents, node.init, transition, trans_ind, node_id
                 )
                 entry = CachedRTTrans(
-                    assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
+                    assert_hits.get(agent_id), transitions, set([node_id]), trace
                 )
                 tree[low : high + _EPSILON] = entry
                 return entry
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 0bc5519..5766dd1 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -23,6 +23,7 @@ from verse.analysis.incremental import (
     CachedSegment,
     combine_all,
     reach_trans_suit,
+    same_states,
     sim_trans_suit,
 )
 
@@ -214,7 +215,10 @@ class Simulator:
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    cached = cached_segments[agent_id]
+                    trace = cached.trace.copy()
+                    trace[:, 0] += node.start_time - cached.start_time
+                    node.trace[agent_id] = trace
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -235,7 +239,7 @@ class Simulator:
                     consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
                 )
                 assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
+                new_cache, paths_to_sim = to_simulate(old_node, old_node_id, node, cached_segments)
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
             new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
@@ -284,6 +288,7 @@ class Simulator:
                                 [],
                                 transition_idx,
                                 consts.run_num,
+                                (remain_time, consts.time_step),
                             )
                         )
                 # print(red("no trans"))
@@ -305,6 +310,7 @@ class Simulator:
                             transition,
                             transition_idx,
                             consts.run_num,
+                            (remain_time, consts.time_step),
                         )
                     )
             # pp(("cached inits", self.cache.get_cached_inits(3)))
@@ -371,24 +377,33 @@ class Simulator:
             transition,
             transition_idx,
             run_num,
+            span,
         ) in cache_updates:
             cached = self.cache.check_hit(
-                aid, done_node.mode[aid], done_node.init[aid], done_node.init
+                aid, done_node.mode[aid], done_node.init[aid], done_node.init, span
             )
+            node_id = (run_num, done_node.id)
             if new and not cached:
                 self.cache.add_segment(
-                    aid, done_node, transit_agents, full_trace, transition, transition_idx, run_num
+                    aid,
+                    done_node,
+                    transit_agents,
+                    full_trace,
+                    transition,
+                    transition_idx,
+                    run_num,
+                    span,
                 )
                 self.num_cached += 1
             else:
                 assert cached != None
-                cached.transitions.extend(
-                    convert_sim_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                if same_states(cached.trace, full_trace):
+                    cached.transitions.extend(
+                        convert_sim_trans(
+                            aid, transit_agents, done_node.init, transition, transition_idx, node_id
+                        )
                     )
-                )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
+                    cached.node_ids.add(node_id)
             # pre_len = len(cached_segments[aid].transitions)
             # pp(("dedup!", pre_len, len(cached_segments[aid].transitions)))
         # print(f"proc dur {timeit.default_timer() - t}")
@@ -438,7 +453,9 @@ class Simulator:
                     init = node.init[agent_id]
                     if self.config.incremental:
                         # pp(("check hit", agent_id, mode, init))
-                        cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        cached = self.cache.check_hit(
+                            agent_id, mode, init, node.init, (remain_time, time_step)
+                        )
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                         else:
@@ -639,64 +656,24 @@ class Simulator:
 
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = defaultdict(list)
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if sim_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", _transitions))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # pp(("min", min_trans_ind))
+        # Before this index, only the paths which the cached transitions don't tell about can be taken
+        min_trans_ind = 0
+        all_paths = [
+            (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
+        ]
+        if cache:
+            _transitions = [(aid, trans) for aid, seg in cache.items() for trans in seg.transitions]
+            if paths is None:
+                # print(red("full cache"))
+                cached_trans = defaultdict(list)
                 for aid, trans in _transitions:
-                    # TODO: check for asserts
-                    if trans.transition == min_trans_ind:
-                        # pp(("chosen tran", aid, trans))
-                        cached_trans[aid].append((aid, trans.disc, trans.cont, trans.paths))
-                for agent_id in cached_trans:
-                    cached_trans[agent_id] = dedup(cached_trans[agent_id], lambda p: p[:3])
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, dict(cached_trans), min_trans_ind
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    cont_var_dict_template, discrete_variable_dict, len_dict = sensor.sense(
-                        agent, state_dict, track_map
-                    )
-                    for path in agent_paths:
-                        cached_guards[agent_id].append(
-                            (path, discrete_variable_dict, path_transitions[path.cond])
-                        )
+                    cached_trans[aid].append((aid, trans.disc, trans.cont, trans.paths))
+                idx = min([t.transition for _, t in _transitions], default=trace_length - 1)
+                return None, dict(cached_trans), idx
+            min_trans_ind = min(t.transition for _, t in _transitions)
+        new_paths = [p for _, p in paths or []]
 
-        for agent, path in paths:
+        for agent, path in all_paths:
             # Get guard
             if len(agent.decision_logic.args) == 0:
                 continue
@@ -717,8 +694,6 @@ class Simulator:
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
-            if min_trans_ind != None and idx >= min_trans_ind:
-                return None, dict(cached_trans), min_trans_ind
             satisfied_guard = []
             all_asserts = defaultdict(list)
             for agent_id in agent_guard_dict:
@@ -732,12 +707,13 @@ class Simulator:
                 continuous_variable_dict, orig_disc_vars, _ = sensor.sense(
                     agent, state_dict, track_map
                 )
-                unchecked_cache_guards = [
-                    g[:2] for g in cached_guards[agent_id] if g[2] < idx
-                ]  # FIXME: off by 1?
                 asserts, satisfied = check_sim_transitions(
                     agent,
-                    agent_guard_dict[agent_id] + unchecked_cache_guards,
+                    [
+                        g
+                        for g in agent_guard_dict[agent_id]
+                        if idx >= min_trans_ind or any(g[0] is p for p in new_paths)
+                    ],
                     continuous_variable_dict,
                     orig_disc_vars,
                     track_map,
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 8c8f4a0..6c033d2 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -19,7 +19,7 @@ from verse.analysis.incremental import (
     to_simulate,
     combine_all,
 )
-from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
+from verse.analysis.incremental import CachedRTTrans, combine_all, same_states
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
@@ -54,6 +54,11 @@ class ReachConsts:
     agent_dict: Dict
 
 
+def tube_span(time_horizon, time_step, params) -> tuple:
+    """What a cached tube depends on, besides the agent, its mode and the initial set"""
+    return time_horizon, time_step, params.get("bloating_method", "PW")
+
+
 class Verifier:
     def __init__(self, config):
         self.reachtube_tree = None
@@ -94,7 +99,7 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(agent_id, mode_label, combined_rect, None)
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -241,6 +246,7 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        span,
         combine_seg_length=1000,
     ):
         """
@@ -265,7 +271,7 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(agent_id, mode_label, combined_rect, span)
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -274,16 +280,18 @@ class Verifier:
                     # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
             else:
                 cached = None
-            if cached != None:
+            # The tubes are combined in order, each one starting where its segment does
+            if cached != None and not missing_seg_idx_list:
                 cur_bloated_tube = cached.tube
             else:
                 missing_seg_idx_list.append(combine_seg_idx)
                 continue
-            # FIXME
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = cur_bloated_tube.copy()
                 tube_length = cur_bloated_tube.shape[0]
             else:
+                if tube_length <= 2 * combine_seg_idx:
+                    break
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
                 # Handle Lower Bound
                 res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
@@ -359,7 +367,10 @@ class Verifier:
                 lane_map=lane_map,
             )
             if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+                span = tube_span(time_horizon, time_step, params)
+                cache_tube_updates.append(
+                    (agent_id, mode_label, combined_rect, cur_bloated_tube.copy(), span)
+                )
             if res_tube is None:
                 res_tube = cur_bloated_tube
                 tube_length = cur_bloated_tube.shape[0]
@@ -561,7 +572,7 @@ class Verifier:
                 )
                 assert old_node != None
                 new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
+                    old_node, old_node_id, node, cached_trans_tubes
                 )
                 # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
 
@@ -597,9 +608,9 @@ class Verifier:
         }
         transit_agents = transit_map.keys()
         # pp(("transit agents", transit_agents))
-        if config.incremental:
+        if config.incremental and asserts == None:
             transit_ind = (
-                min(l[-2][-1] for l in all_possible_transitions)
+                min(l[-2][0] for l in all_possible_transitions)
                 if len(all_possible_transitions) > 0
                 else len(list(node.trace.values())[0])
             )
@@ -613,6 +624,7 @@ class Verifier:
                         transition,
                         transit_ind,
                         consts.run_num,
+                        node.trace[agent_id],
                     )
                 )
 
@@ -730,10 +742,12 @@ class Verifier:
             transition,
             transition_idx,
             run_num,
+            full_trace,
         ) in cache_trans_tube_updates:
             cached = self.trans_cache.check_hit(
                 aid, done_node.mode[aid], combine_all(done_node.init[aid]), done_node.init
             )
+            node_id = (run_num, done_node.id)
             if new and not cached:
                 self.trans_cache.add_tube(
                     aid,
@@ -743,19 +757,22 @@ class Verifier:
                     transition,
                     transition_idx,
                     run_num,
+                    full_trace,
                 )
                 self.num_cached += 1
             else:
                 assert cached != None
+                if not same_states(cached.trace, full_trace):
+                    # What is known about other tubes doesn't apply to this one
+                    cached.trace, cached.transitions, cached.node_ids = full_trace, [], set()
                 cached.transitions.extend(
                     convert_reach_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                        aid, transit_agents, done_node.init, transition, transition_idx, node_id
                     )
                 )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
-        for agent_id, mode_label, combined_rect, cur_bloated_tube in cache_tube_updates:
-            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube)
+                cached.node_ids.add(node_id)
+        for agent_id, mode_label, combined_rect, cur_bloated_tube, span in cache_tube_updates:
+            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube, span)
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def compute_full_reachtube(
@@ -844,8 +861,9 @@ class Verifier:
                         elif agent_id not in node.trace and reachability_method == ReachabilityMethod.DRYVR:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
+                            span = tube_span(remain_time, time_step, params)
                             cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                                agent_id, mode, inits, span, combine_seg_length=init_seg_length
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                 # FIXME
@@ -936,87 +954,27 @@ class Verifier:
     ]:
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = []
+        # Before this index, only the paths which the cached transitions don't tell about can be taken
+        min_trans_ind = 0
         agent_dict = node.agent
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            # _transitions = [trans.transition for seg in cache.values() for trans in seg.transitions]
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if reach_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", len(_transitions)))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # TODO: check for asserts
-                cached_trans = [
+        all_paths = [
+            (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
+        ]
+        if cache:
+            _transitions = [(aid, tran) for aid, seg in cache.items() for tran in seg.transitions]
+            if paths is None:
+                # print(red("full cache"))
+                return None, [
                     (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
-                    if tran.transition == min_trans_ind
+                    for aid, tran in _transitions
                 ]
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, cached_trans
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    for path in agent_paths:
-                        cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(
-                            agent, state_dict, track_map, False
-                        )
-                        reset = (path.var, path.val_veri)
-                        guard_expression = GuardExpressionAst([path.cond_veri])
-
-                        cont_var_updater = guard_expression.parse_any_all_new(
-                            cont_var_dict_template, discrete_variable_dict, length_dict
-                        )
-                        Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
-                        guard_can_satisfied = guard_expression.evaluate_guard_disc(
-                            agent, discrete_variable_dict, cont_var_dict_template, track_map
-                        )
-                        if not guard_can_satisfied:
-                            continue
-                        cached_guards[agent_id].append(
-                            (
-                                path,
-                                guard_expression,
-                                cont_var_updater,
-                                copy.deepcopy(discrete_variable_dict),
-                                reset,
-                                path_transitions[path.cond],
-                            )
-                        )
+            min_trans_ind = min(t.transition for _, t in _transitions)
+        new_paths = [p for _, p in paths or []]
 
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
         #         pp(("weird state", aid, trace))
-        for agent, path in paths:
+        for agent, path in all_paths:
             if len(agent.decision_logic.args) == 0:
                 continue
             agent_id = agent.id
@@ -1089,13 +1047,6 @@ class Verifier:
 					)
 					for aid in node.agent
 				}
-            if min_trans_ind != None and idx > min_trans_ind:
-                if hits:
-                    guard_hits.append((hits, state_dict, idx))
-                    guard_hit = True
-                    break
-                else:
-                    return found_asserts, cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1146,13 +1097,12 @@ class Verifier:
                 if agent_id not in agent_guard_dict:
                     continue
 
-                unchecked_cache_guards = [
-                    g[:-1] for g in cached_guards[agent_id] if g[-1] < idx
-                ]  # FIXME: off by 1?
                 for guard_expression, continuous_variable_updater, discrete_variable_dict, path in (
-                    agent_guard_dict[agent_id] + unchecked_cache_guards
+                    agent_guard_dict[agent_id]
                 ):
                     assert isinstance(path, ModePath)
+                    if idx < min_trans_ind and not any(path is p for p in new_paths):
+                        continue
                     new_cont_var_dict = copy.deepcopy(cont_vars)
                     one_step_guard: GuardExpressionAst = copy.deepcopy(guard_expression)
 
@@ -1291,7 +1241,7 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return found_asserts, possible_transitions + cached_trans
+        return found_asserts, possible_transitions
 
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
-- 
2.43.0


From 0019392e0a4b3f03ab7dac3319260990439ed9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 24/29] fix: mixed monotone tubes cover every initial set

calculate_bloated_tube_mixmono_* received one set per step at which a
transition can happen and used only the first; dynamics without inputs
raised an IndexError; and the module could not be imported where
astunparse is unusable (the parser ships its own copy).
---
 verse/analysis/mixmonotone.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index fcdeea5..cbcdab4 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.optimize import minimize
-import inspect, ast, textwrap, inspect, astunparse
+import inspect, ast, textwrap, inspect
 import warnings
 from sympy import Symbol, diff
 from sympy.utilities.lambdify import lambdify
@@ -8,6 +8,9 @@ from sympy.core import *
 
 from scipy.integrate import ode
 
+from verse.analysis.incremental import combine_all
+from verse.parser import astunparser
+
 
 def find_min(expr_func, jac_func, var_range, num_var, args, idx):
     bounds = []
@@ -55,7 +58,10 @@ def find_max_symbolic(expr, var_range):
 def compute_reachtube_mixmono_disc(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
-    initial_set = initial_set[0]
+    # after a transition there is one set per step at which it can happen: cover all of them
+    initial_set = combine_all(initial_set)
+    if len(uncertain_var_bound) == 0:
+        uncertain_var_bound = [[], []]  # dynamics without inputs
     number_points = int(np.ceil(time_horizon / time_step))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     trace = [[0] + initial_set[0] + initial_set[1]]
@@ -96,7 +102,10 @@ def compute_reachtube_mixmono_disc(
 def compute_reachtube_mixmono_cont(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
-    initial_set = initial_set[0]
+    # after a transition there is one set per step at which it can happen: cover all of them
+    initial_set = combine_all(initial_set)
+    if len(uncertain_var_bound) == 0:
+        uncertain_var_bound = [[], []]  # dynamics without inputs
     num_var = len(initial_set[0])
     num_uncertain_var = len(uncertain_var_bound[0])
 
@@ -225,7 +234,7 @@ def calculate_bloated_tube_mixmono_disc(
                     extract = False
             elif extract:
                 if isinstance(elem, ast.Assign):
-                    text_exprs.append(astunparse.unparse(elem.value))
+                    text_exprs.append(astunparser.unparse(elem.value))
                     # x_var_name = elem.targets[0].id.replace('_plus','')
                     # x_var.append(x_var_name)
             else:
-- 
2.43.0


From 218c7c22439e9ede5064f99f50fe89e6e2cf2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 25/29] fix: star set operations with any number of basis
 vectors

Intersections and maximisation used the basis transposed, emptiness was
decided over as many coordinates as dimensions and only for nonnegative
ones, maximize negated its caller's array, and the generic predicate had
the old predicate's number of bounds.
---
 verse/stars/starset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index ea0dbf5..03416eb 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -272,7 +272,7 @@ class StarSet:
             raise Exception("constraint_mat vectors should be of length n")
         if not (len(rhs) == len(constraint_mat)):
             raise Exception("constraint_mat should be length of rhs")
-        new_c = np.matmul(constraint_mat, self.basis)
+        new_c = np.matmul(constraint_mat, np.transpose(self.basis))
         conj_c = np.vstack((self.C, new_c))
         new_g = np.subtract(rhs, np.matmul(constraint_mat, self.center))
         conj_g = np.append(self.g, new_g) 
@@ -463,11 +463,11 @@ class StarSet:
     def maximize(self, opt_direction):
         """return the point that maximizes the direction"""
 
-        opt_direction *= -1
+        opt_direction = -opt_direction
 
         # convert opt_direction to domain
         #print(self.basis)
-        domain_direction = opt_direction.T @ self.basis
+        domain_direction = (self.basis @ opt_direction).T
 
 
         # use LP to optimize the constraints
@@ -531,13 +531,13 @@ class StarSet:
 #        return None
 
     def is_empty(self):
-        feasible = StarSet.is_feasible(self.n,self.C,self.g)
+        feasible = StarSet.is_feasible(self.m,self.C,self.g)
         if feasible:
             return False
         return True
 
     def is_feasible(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
-        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs)
+        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
         if results.status == 0:
             return True
         if results.status == 2:
@@ -689,7 +689,7 @@ def new_pred(old_star: StarSet) -> StarSet:
                 col_i.append(0)
         new_C.append(col_i)
     new_C = np.transpose(np.array(new_C))
-    new_g = np.ones(old_star.g.shape)
+    new_g = np.ones(2 * cols)
     return StarSet(old_star.center, old_star.basis, new_C, new_g)
 
 ### from a set of points at a given time, generate a starset -- could possible reformat or remake this function to be more general
-- 
2.43.0


From e193c03ead01ea7e867547162bd5f01844cbaa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 26/29] fix: DRYVR_DISC tubes start from every initial set of a
 node

---
 verse/analysis/verifier.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 6c033d2..0c0a64d 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -479,9 +479,7 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
+                    init = combine_all(inits)
                     cur_bloated_tube = calc_bloated_tube_dryvr(
                         mode,
                         init,
-- 
2.43.0


From 396f1bafd2a6cd5f77bfa71ee00bbada030b432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 27/29] fix: integer bounds truncated the hull of initial sets

---
 verse/analysis/verifier.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 0c0a64d..2bed0fe 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -261,15 +261,7 @@ class Verifier:
         tube_length = 0
         for combine_seg_idx in range(0, len(initial_set), combine_seg_length):
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
+            combined_rect = combine_all(rect_seg)
             if self.config.incremental:
                 cached = self.cache.check_hit(agent_id, mode_label, combined_rect, span)
                 if cached != None:
@@ -346,15 +338,7 @@ class Verifier:
         # for combine_seg_idx in tqdm(missing_seg_idx_list): # NOTE: is it possible to parallelize this
         for combine_seg_idx in missing_seg_idx_list: # NOTE: is it possible to parallelize this
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
+            combined_rect = combine_all(rect_seg)
             cur_bloated_tube = calc_bloated_tube(
                 mode_label,
                 combined_rect,
-- 
2.43.0


From d341c64661a76dee2f3099a714a46f4244f3cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 28/29] fix: resets of star sets bind variables by name and
 keep real values

---
 verse/analysis/verifier.py | 32 +++++++-------------------------
 verse/stars/starset.py     |  9 ++++-----
 2 files changed, 11 insertions(+), 30 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 2bed0fe..65081c5 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1403,34 +1403,16 @@ class Verifier:
                         break
                 if not found:
                     raise ValueError(f"Reset continuous variable {cts_variable} not found")
-                # substituting low variables
-                statevec = []
-                for var in cont_var_dict:
-                    #TODO: check that this only gets run on ego?
-                    if 'ego' in var:
-                        statevec.append(var)
-                
-
-
-
-                #print(statevec)
 
                 #concern: how to handle the case where you need other agents state. for now: assume you do not
         def reset_func(state, expr_list, reset_vars): #[ego.x, ego.y, ...]
-            #breakpoint()
-            output = np.copy(state)
-            idxs = list(reset_vars.keys())
-            for idx in idxs:
-                val_dict = {}
-                tmp_exp = copy.deepcopy(expr_list[idx])
-                for i in range(0, len(state)):
-                    if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
-                #print(tmp_exp)
-                result = eval(tmp_exp, {}, val_dict)
-                for i in range(0, len(state)):
-                    if reset_vars[idx] == statevec[i].split('.',1)[1]:
-                        output[i] = result 
+            # Bind the values by name: replacing text would confuse ego.x with ego.x2
+            names = agent.decision_logic.state_defs[ego_type].cont
+            val_dict = {EGO: SimpleNamespace(**dict(zip(names, state)))}
+            output = list(state)
+            for idx in reset_vars:
+                output[idx] = eval(expr_list[idx], {}, val_dict)
+            output = np.array(output)
             return output
             #print("TODO: find where/when this gets set elsewhere")
             #breakpoint()
diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 03416eb..14a6f0e 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -234,12 +234,11 @@ class StarSet:
         #center = np.copy(self.center)
         #basis = np.copy(self.basis)
         new_center = reset_function(self.center, expr_list, reset_vars)
-        new_basis = np.empty_like(self.basis)
-        for i in range(0, len(self.basis)):
-            vec = self.basis[i]
+        new_basis = []
+        for vec in self.basis:
             new_x = reset_function(np.add(self.center, vec), expr_list, reset_vars)
-            new_basis[i] = np.subtract(new_x, new_center)
-        return self.superposition(new_center, new_basis)
+            new_basis.append(np.subtract(new_x, new_center))
+        return self.superposition(new_center, np.array(new_basis))
 
     def show(self):
         print(self.center)
-- 
2.43.0


From 6c1a44c0f90e9682a1cffd8b27abbfdf9df3d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:39 +0000
Subject: [PATCH 29/29] fix: star set verification keeps every initial set and
 agent

---
 verse/analysis/verifier.py | 56 ++++++++++++++------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 65081c5..3b8fc39 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -165,12 +165,6 @@ class Verifier:
         else:
             cached_tube, missing_seg_idx_list = None, range(0, len(initial_set), combine_seg_length)
         res_tube = cached_tube
-        if res_tube is None:
-            tube_length = 0
-        else:
-            tube_length = res_tube.shape[0]
-        #What is this and why does the same star set appear twice?    
-        print(missing_seg_idx_list)
 
         for combine_seg_idx in missing_seg_idx_list:
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
@@ -185,7 +179,7 @@ class Verifier:
             #        combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
             #        combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             from verse.stars.starset import StarSet
-            combined_star = initial_set[0]
+            combined_star = rect_seg[0]
             if len(rect_seg) > 1:
                 combined_star = StarSet.combine_stars(rect_seg)
             #print(combined_rect)
@@ -221,25 +215,14 @@ class Verifier:
             if incremental:
                 cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
                 #EXISTING CODE, NOT SURE WHAT TO DO:
-            old_code = False
-            if old_code:
-                if res_tube is None:
-                    res_tube = cur_bloated_tube
-                    tube_length = cur_bloated_tube.shape[0]
-                else:
-                    if not tube_length <= 2 * combine_seg_idx:
-                        
-                        cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
-                        # Handle Lower Bound
-                        res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
-                            res_tube[combine_seg_idx * 2 :: 2, 1:], cur_bloated_tube[::2, 1:]
-                        )
-                        # Handle Upper Bound
-                        res_tube[combine_seg_idx * 2 + 1 :: 2, 1:] = np.maximum(
-                            res_tube[combine_seg_idx * 2 + 1 :: 2, 1:], cur_bloated_tube[1::2, 1:]
-                        )
-        
-        return reach_tube, cache_tube_updates
+            if res_tube is None:
+                res_tube = reach_tube
+            else:
+                # The tubes are combined in order, each one starting where its segment does
+                for entry, (_, star) in zip(res_tube[combine_seg_idx:], reach_tube):
+                    entry[1] = StarSet.combine_stars([entry[1], star])
+
+        return res_tube, cache_tube_updates
 
     def check_cache_bloated_tube(
         self,
@@ -653,6 +636,9 @@ class Verifier:
             for agent_idx in next_node_agent:
                 if agent_idx == transit_agent_idx:
                     next_node_init[agent_idx] = next_init
+                elif consts.reachability_method == ReachabilityMethod.STAR_SETS:
+                    next_node_init[agent_idx] = [truncated_trace[agent_idx][0][1]]
+                    next_node_trace[agent_idx] = truncated_trace[agent_idx]
                 else:
                     next_node_init[agent_idx] = [
                         [truncated_trace[agent_idx][0][1:], truncated_trace[agent_idx][1][1:]]
@@ -1188,15 +1174,15 @@ class Verifier:
             for reset_idx in reset_dict[agent]:
                 for dest in reset_dict[agent][reset_idx]:
                     reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
-                    if config.reachability_method != ReachabilityMethod.STAR_SETS:
-                        # The k-th initial set of a node starts k steps after the first one
-                        rects = {}
-                        for rect, hit_idx in zip(*reset_data[:2]):
-                            rects[hit_idx] = combine_all([rects[hit_idx], rect]) if hit_idx in rects else rect
-                        hit_idxs = list(range(min(rects), max(rects) + 1))
-                        for hit_idx in hit_idxs:
-                            rects.setdefault(hit_idx, rects.get(hit_idx - 1))
-                        reset_data = ([rects[i] for i in hit_idxs], hit_idxs, reset_data[2])
+                    # The k-th initial set of a node starts k steps after the first one
+                    stars = config.reachability_method == ReachabilityMethod.STAR_SETS
+                    rects = {}
+                    for rect, hit_idx in zip(*reset_data[:2]):
+                        rects[hit_idx] = combine_all([rects[hit_idx], rect], stars) if hit_idx in rects else rect
+                    hit_idxs = list(range(min(rects), max(rects) + 1))
+                    for hit_idx in hit_idxs:
+                        rects.setdefault(hit_idx, rects.get(hit_idx - 1))
+                    reset_data = ([rects[i] for i in hit_idxs], hit_idxs, reset_data[2])
                     # paths = [r[-1] for r in reset_data[-1]]
                     paths = [r[-1] for r in reset_data[-1][0]]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
-- 
2.43.0

