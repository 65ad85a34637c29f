From b943f534fa4578316c63dbcf1cbf99c37fa9d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 001/146] fix: LazyAstar crashes when the source state is
 already a goal

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..09f0285 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:  # the source itself may be a goal
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From 2f35968fd9aa481432e0b6ef7abef7ed47642fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 002/146] fix: LazyAstar keeps values and plan of the previous
 solve

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index 09f0285..76b8f32 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -116,6 +116,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
                 enqueued[neighbor] = ncost, h
                 push(queue, (ncost + (self._weight * h), next(c), neighbor, ncost, curnode, lbl))
         self._policy = {}
+        self._values = {}
+        self._plan = []
         for node, label in path:
             self._policy[node] = label['action'] if label is not None else None
             self._values[node] = estim_total - enqueued[node][0]
-- 
2.43.0


From b824a546151970741f74a70548970a45d6fe5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 003/146] fix: LRTAstar reports its policy as defined nowhere

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..c080d9a 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
-- 
2.43.0


From 6b5685a693188f87acde4aafaa15f976420d15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 004/146] fix: LRTAstar crashes when the source state is
 already a goal

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index c080d9a..1a64a3e 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -127,5 +127,5 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
-        cumulated_reward += self.values[current_state]
+        cumulated_reward += self._get_utility(current_state)  # the trial may have visited nothing
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 02ae917233c88ca0035126a0b506b4e61450a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 005/146] fix: LRTAstar keeps the policy of the previous solve

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 1a64a3e..0e4704b 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From ff53a1657bc9efee6a573baac4a7766a479a28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 006/146] fix: SimpleGreedy crashes when values do not depend
 on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From 64358068278be3480787c88a0311525240f244ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 007/146] fix: casting the same object twice from one level
 stacks the casts

---
 skdecide/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..a3d1764 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -651,7 +651,12 @@ def autocast(func: Callable, src: object, dst: object, hint_obj: str = 'D') -> C
 def autocast_all(obj: object, src: object, dst: object):
     for name, f in inspect.getmembers(obj, lambda x: inspect.isfunction(x) or inspect.ismethod(x)):
         if getattr(f, '_autocastable', None):
-            setattr(obj, name, autocast(f, src, dst))
+            if getattr(f, '_autocast_src', None) is src:  # already cast from src: replace that cast, do not stack it
+                f = f.__wrapped__
+            cast_f = autocast(f, src, dst)
+            if cast_f is not f:
+                cast_f._autocast_src = src
+            setattr(obj, name, cast_f)
 
 
 # autocastable (function decorator)
-- 
2.43.0


From 3eec1de659b094e9cd748b67aa3593819cbb2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 008/146] fix: uncertain graph exploration drops transitions
 into states already discovered

---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..c1d5034 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -65,14 +65,15 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
+                    if prob != 0:
+                        nb_edges += 1
+                        cost = domain.get_transition_value(s, action, succ)
+                        next_state_map[s][action][succ] = (prob, cost.cost)
                     if prob != 0 and succ not in result:
                         nb_states += 1
-                        nb_edges += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
             if (nb_states > self.max_nodes) \
-- 
2.43.0


From b74f5d478ee4d3e02815835e59b09a3c4b5c06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 009/146] fix: graph explorations crash when no bound is given

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py        | 6 +++---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py  | 6 +++---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..80ad00d 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -12,9 +12,9 @@ class DFSExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = max_edges if max_edges is not None else float('inf')
+        self.max_nodes = max_nodes if max_nodes is not None else float('inf')
+        self.max_path = max_path if max_path is not None else float('inf')
 
     def build_graph_domain(self, init_state: Any=None,
                            transition_extractor=None,
diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index c1d5034..31c44a6 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -19,9 +19,9 @@ class DFSExploration(GraphExploration):
         self.c = count()
         if score_function is None:
             self.score_function = lambda s: (next(self.c))
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = max_edges if max_edges is not None else float('inf')
+        self.max_nodes = max_nodes if max_nodes is not None else float('inf')
+        self.max_path = max_path if max_path is not None else float('inf')
 
     def build_graph_domain(self, init_state: Any = None) -> GraphDomainUncertain:
         if init_state is None:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..c5e9238 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -13,9 +13,9 @@ class FullSpaceExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = max_edges if max_edges is not None else float('inf')
+        self.max_nodes = max_nodes if max_nodes is not None else float('inf')
+        self.max_path = max_path if max_path is not None else float('inf')
 
     def build_graph_domain(self, init_state: Any=None) -> GraphDomain:
         next_state_map = {}
-- 
2.43.0


From 69a68c7b72d8a7c6e7a363e910e0d25326e8e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 010/146] fix: full space exploration never expands more than
 the initial state

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index c5e9238..c76521c 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -33,7 +33,8 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-                if next not in next_state_map:
+                new_state = next not in next_state_map
+                if new_state:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
@@ -49,7 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if new_state:
                         stack.append((next, path+[next]))
             if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
                 or (nb_edges > self.max_edges and nb_path >= 1):
-- 
2.43.0


From 5315595df7140c36d8901c25ddfbec7264f4e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 011/146] fix: graph explorations and GraphDomain pass a
 history where the (Markovian) memory is a state

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 4 ++--
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 6 +++---
 skdecide/hub/solver/graph_explorer/GraphDomain.py          | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 80ad00d..c005052 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -2,7 +2,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index c76521c..1d14a3a 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -3,7 +3,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -41,10 +41,10 @@ class FullSpaceExploration(GraphExploration):
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
+                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(vertex,
                                                                                                   action,
                                                                                                   next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
+                                                         "reward": self.domain.get_transition_value(vertex,
                                                                                                     action,
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..73c0e02 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,13 +133,13 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
     def is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
@@ -148,7 +148,7 @@ class GraphDomain(Domain,
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
-- 
2.43.0


From 9b373ef0b8a5b84f71e09ff7c27bcd82ca37d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 012/146] fix: graph explorations lose the goals and costs of
 the explored domain

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 2 +-
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index c005052..d93e06b 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -68,6 +68,6 @@ class DFSExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           {s for s in next_state_map if self.domain.is_goal(s)}, "cost")
 
 
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 1d14a3a..9604c59 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -57,7 +57,7 @@ class FullSpaceExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           {s for s in next_state_map if self.domain.is_goal(s)}, "cost")
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From 1448562d134ca51dfa6c6724de62f0cd0fbd471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 013/146] fix: GraphDomainUncertain answers a sampled pair
 instead of the next state distribution

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 73c0e02..ed90fb6 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, \
+    DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +94,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From 14ffa175994ae0890203f31bc371733cc920f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 014/146] fix: action space of graph domains contains nothing

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index ed90fb6..3f1e384 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -15,7 +15,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From beb811cd2f693faf53b2e39efdd189ad81815df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 015/146] fix: zero-duration tasks never give their renewable
 resources back

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..15376c9 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,6 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
+                for res, res_consumption in next_state.resource_used_for_task[task].items():
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= res_consumption
                 next_state.resource_used_for_task.pop(task)
         return next_state
 
@@ -440,6 +443,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
+                    for res, res_consumption in next_state.resource_used_for_task[task].items():
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= res_consumption
                     next_state.resource_used_for_task.pop(task)
         return next_states
 
-- 
2.43.0


From 27c902cf0d9f3f52726fd2e79d18adcba3d6f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 016/146] fix: active time of a paused task raises IndexError

---
 skdecide/builders/scheduling/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..2c6c3cd 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,8 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            time_resumed = self.resumed[i] if i < len(self.resumed) else tt  # still paused
+            time_paused += time_resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From cb3b8b15395ab4ae589820c78cb9ce6eeb376ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 017/146] fix: a refused resume action leaves the task ongoing
 without resources

---
 skdecide/builders/scheduling/scheduling_domains.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 15376c9..65cad93 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -494,13 +494,16 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
-            b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
+            b, resource_to_use = self.check_if_action_can_be_started(
+                next_state,
+                action=SchedulingAction(task=resumed_task, action=action.action, mode=mode,
+                                        time_progress=action.time_progress,
+                                        resource_unit_names=action.resource_unit_names))
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From 497caf620f309c091b81ca367a4261c2c4dd1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 018/146] fix: pausing looks up the non renewable policy of a
 resource instead of the task

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 65cad93..baed109 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -466,7 +466,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From dc30cec64cce2952acdd2cb13557fe75d00beae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 019/146] fix: cost of non renewable resources indexes a
 Markovian memory

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index baed109..25db492 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -793,14 +793,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 0af912c566d11fd2491b43244852dd1ebd68ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 020/146] fix: only the last mode of a task is offered to start
 it

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 25db492..8e3d1dd 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -681,8 +681,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
-- 
2.43.0


From ed13f5eaee1de76390bcfd75dd2427f48b52aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 021/146] fix: startable tasks are looked up with the needs at
 the current date instead of at their start

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 8e3d1dd..6975740 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -678,7 +678,7 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_tasks = {}
-- 
2.43.0


From bb3d18d406b8c3f15359d4ec1bb1f3cff86abc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 022/146] fix: resumable tasks ignore the mode, the progress
 and the available predecessors of the task

---
 skdecide/builders/scheduling/scheduling_domains.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6975740..945b91a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -689,9 +689,9 @@ class SchedulingDomain(WithPrecedence,
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
                                     for n in state.tasks_paused
-                                    for mode in self.get_task_modes(n).keys()
+                                    for mode in [state.tasks_mode[n]]
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
@@ -699,7 +699,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-- 
2.43.0


From ccf9285b7ef2897d4912c446455609c43a432f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 023/146] fix: resume actions are offered for tasks whose
 resources are not available

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 945b91a..f651e34 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -931,7 +931,7 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
-- 
2.43.0


From 54a9a1ffe27f605f7034805e3a6d7089ef2791b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 024/146] fix: action space with resource units offers to start
 paused tasks instead of resuming them

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f651e34..70969b6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -993,7 +993,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
@@ -1001,7 +1001,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From 0520632a11ea9f493e3fe75841084ef33af0c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 025/146] fix: needs of a completing task are looked up after
 its last time step

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 70969b6..f46fb27 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
-- 
2.43.0


From 20bf561516eff3d1cc6b7e42b60571bccb69f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 026/146] fix: duration branches of an uncertain start share
 one record of the resources used

---
 skdecide/builders/scheduling/scheduling_domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f46fb27..a958df4 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -625,10 +625,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 80b0198dfcad6f2eedb8676c1f159ad9d15dc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 027/146] fix: completing tasks resets the probability of the
 branches

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a958df4..a39c377 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,7 +360,7 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, prob in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
@@ -400,7 +400,7 @@ class SchedulingDomain(WithPrecedence,
             for comb in combinations:
                 do_copy = len(comb) > 0
                 next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
+                proba = prob
                 for i in comb:
                     next_state_2._current_conditions.add(all_values[i]['cond'])
                     proba *= all_values[i]['prob']
-- 
2.43.0


From 81b3f091be45cd5b8d92074a58c8f5398b0ae11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 028/146] fix: independent completion conditions of a task are
 drawn as alternatives

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a39c377..a8658ff 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -379,15 +379,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
                 if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
                     for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
+                        all_models[(completed_task, i)] = []
                         for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                             all_values.append({'task': completed_task,
                                                'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][0],
                                                'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
+                            all_models[(completed_task, i)].append(len(all_values)-1)
 
             combinations = list(product(*all_models.values()))
             # for comb in combinations:
-- 
2.43.0


From 94ea9b817e89a9d2b355c072df8dcaa616fd790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 029/146] fix: conditional tasks only appear one time step
 after their condition

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a8658ff..11b44f5 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
-- 
2.43.0


From 3697960e95b5707fdf3e3820fe8fcedd867f3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 030/146] fix: completing a zero-duration task never draws its
 completion conditions

---
 .../builders/scheduling/scheduling_domains.py   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 11b44f5..a94558f 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -437,7 +437,9 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            states_and_proba = []
+            for next_state, prob in next_states.get_values():
+                branches = [(next_state, prob)]
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
@@ -447,12 +449,21 @@ class SchedulingDomain(WithPrecedence,
                         if self.is_renewable(res):
                             next_state.resource_used[res] -= res_consumption
                     next_state.resource_used_for_task.pop(task)
+                    for conditions in self.get_task_on_completion_added_conditions().get(task, []):
+                        previous_branches, branches = branches, []
+                        for state, proba in previous_branches:
+                            for condition, proba_condition in conditions.get_values():
+                                state_with_condition = state.copy()
+                                state_with_condition._current_conditions.add(condition)
+                                branches.append((state_with_condition, proba * proba_condition))
+                states_and_proba += branches
+            return DiscreteDistribution(states_and_proba)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(DiscreteDistribution([(state, 1.)]), action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
@@ -756,7 +767,7 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
+        if action.time_progress or action.action == SchedulingActionEnum.START:
             for next_state, _ in next_states.get_values():
                 all_available_tasks = self.get_available_tasks(next_state)
                 all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-- 
2.43.0


From 25c32e2f960aeb2075f05113fca5f8a8aed9d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 031/146] fix: resource costs per time unit are charged per
 action instead of per time unit

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a94558f..d7d037c 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -806,14 +806,14 @@ class SchedulingDomain(WithPrecedence,
             nonrenewable_type_cost_val = 0.
             for res in self.get_resource_types_names():
                 if self.is_renewable(res):
-                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * (next_state.t - memory.t)
                 else:
                     nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
-                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * (next_state.t - memory.t)
                 else:
                     nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
-- 
2.43.0


From fac6c015fd73cf90ac0fa52c01a1aef3dab9d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 032/146] fix: SMRCPSPCalendar has no original resource
 quantities

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..4a897c7 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -326,6 +326,7 @@ class SMRCPSPCalendar(D):
         self.successors = successors
         self.max_horizon = max_horizon
         self.resource_availability = resource_availability
+        self.original_resource_availability = {r: max(self.resource_availability[r]) for r in self.resource_availability}
         self.resource_renewable = resource_renewable
         self.duration_distribution = duration_distribution
         self.initialize_domain()
-- 
2.43.0


From 4916b4d26bb4b25163d32d860ed7b690642d9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 033/146] fix: termination test crashes on non renewable
 resources with varying needs

---
 skdecide/builders/scheduling/resource_renewability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/resource_renewability.py b/skdecide/builders/scheduling/resource_renewability.py
index 16ff3b8..9dbc2d1 100644
--- a/skdecide/builders/scheduling/resource_renewability.py
+++ b/skdecide/builders/scheduling/resource_renewability.py
@@ -35,7 +35,7 @@ class MixedRenewable:
                 mode_possible = True
                 for res in self.get_resource_types_names():
                     if not self.get_resource_renewability()[res]:
-                        need = self.get_task_modes(task_id)[mode].get_resource_need(res)
+                        need = self.get_task_modes(task_id)[mode].get_resource_need_at_time(res, time=0)
                         avail = state.resource_availability[res] - state.resource_used[res]
                         if avail - need < 0:
                             mode_possible = False
-- 
2.43.0


From 21c3ca905c4cba652b07a61e09c2dab1aee1b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 034/146] fix: membership test of the empty space is not
 implemented

---
 skdecide/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/core.py b/skdecide/core.py
index a3d1764..13c77d1 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -108,6 +108,9 @@ class EmptySpace(Space[T]):
     def get_elements(self) -> Iterable[T]:
         return ()
 
+    def contains(self, x: T) -> bool:
+        return False
+
 
 class SamplableSpace(Space[T]):
     """A space which can be sampled (uniformly randomly)."""
-- 
2.43.0


From c802f2292d21855019486003baf219707c4985c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 035/146] fix: is_action crashes on multi-agent domains

---
 skdecide/builders/domain/events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/domain/events.py b/skdecide/builders/domain/events.py
index 12149e7..4746964 100644
--- a/skdecide/builders/domain/events.py
+++ b/skdecide/builders/domain/events.py
@@ -189,7 +189,11 @@ class Events:
         # Returns
         True if the event is an action (False otherwise).
         """
-        return self._get_action_space().contains(event)
+        action_space = self._get_action_space()
+        if self.T_agent == Union:
+            return action_space.contains(event)
+        else:  # StrDict
+            return any(space.contains(event) for space in action_space.values())
 
     @autocastable
     def get_applicable_actions(self, memory: Optional[D.T_memory[D.T_state]] = None) -> D.T_agent[Space[D.T_event]]:
-- 
2.43.0


From 914d4bc3e692a87cef70f6e5efc396efeda855c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 036/146] fix: stepping crashes with an unbounded history and
 replaces a history of length one by a state

---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..89ba6b0 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -8,7 +8,7 @@ import functools
 from typing import Optional
 
 from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
-    EnvironmentOutcome, TransitionOutcome, autocastable
+    EnvironmentOutcome, TransitionOutcome, Memory, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
 
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory is Memory:
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From 75e41192f82e9e9938808feeca6027c24a6915e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 037/146] fix: set_memory shares the caller's history and loses
 the memory length

---
 skdecide/builders/domain/dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index 89ba6b0..209aa33 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -155,6 +155,9 @@ class Simulation(Environment):
             simulation_domain._step(my_action)
         ```
         """
+        if self.T_memory is Memory:
+            # own copy, bounded as the domain's memory, so that steps neither alter the given history nor outgrow it
+            memory = Memory(memory, maxlen=self._get_memory_maxlen())
         self._memory = memory
 
     @autocastable
-- 
2.43.0


From 17223d4662dc94476bfbad2bcba77fea0f9f7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 038/146] fix: rollout_episode crashes when no starting memory
 is given

---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From 319f6be39b88834510b0fc8b4c908c0c497674fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 039/146] fix: rollout_episode replaces the memory of the
 domain by the observation

---
 skdecide/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..7bc1121 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -17,7 +17,7 @@ from typing import Any, Union, Optional, Type, Iterable, Tuple, List, Dict, Call
 from pkg_resources import iter_entry_points, EntryPoint, DistributionNotFound
 
 from skdecide import Domain, Solver, D, Space, EnvironmentOutcome, autocast_all, autocastable
-from skdecide.builders.domain import Goals, Markovian, Renderable, FullyObservable
+from skdecide.builders.domain import Goals, Markovian, Memoryless, Renderable, FullyObservable, Simulation
 from skdecide.builders.solver import Policies
 
 __all__ = ['get_registered_domains', 'get_registered_solvers', 'load_registered_domain', 'load_registered_solver',
@@ -302,6 +302,10 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    # Only then can the latest observation be set as memory of the domain
+    observation_is_memory = isinstance(domain, FullyObservable) and isinstance(domain, Markovian) \
+        and not isinstance(domain, Memoryless) and isinstance(domain, Simulation)
+
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -330,7 +334,8 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
+            if observation_is_memory:
+                domain.set_memory(observation)
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From edfabcf6607ea8732a60b34dd11ca8dc319b56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 040/146] fix: rollout_episode runs a single episode whatever
 num_episodes

---
 skdecide/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 7bc1121..167da74 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -356,4 +356,4 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if has_goal and verbose:
             logger.info(f'The goal was{"" if domain.is_goal(observation) else " not"} reached '
                         f'in episode {i_episode + 1}.')
-        return observations, actions, values
+    return observations, actions, values
-- 
2.43.0


From fcccf25e653f4117983777d2d52c95f348cb4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 041/146] fix: rollout stops after the first episode when
 results are saved

---
 skdecide/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 167da74..88c88ff 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -217,6 +217,10 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
             directory = os.path.join(save_result_directory, str_timestamp)
+            i_directory = 1
+            while os.path.exists(directory):  # another episode saved within the same second
+                directory = os.path.join(save_result_directory, f'{str_timestamp}_{i_directory}')
+                i_directory += 1
             os.mkdir(directory)
             try:
                 with open(os.path.join(directory, 'actions.json'), 'w') as f:
@@ -234,7 +238,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    if save_result_directory is not None:
+        return directory
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 025e07720b1b8b0641ec7c85e62b76a48f84438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 042/146] fix: reading the result of a failed job hangs when
 notified by ipc

---
 skdecide/domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..77cfd5f 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -550,8 +550,7 @@ def _launch_domain_server_(domain_factory, lambdas, i,
                 logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
+                conn.send(str(e))  # send failure (!= 0)
 
 class PipeParallelDomain(ParallelDomain):
     """This class can be used to create and launch n domains in separate processes.
-- 
2.43.0


From 009917936b48684f7c77cc50beaed30a83592633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 043/146] fix: results of the same vector type overlap in
 shared memory

---
 skdecide/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 77cfd5f..2c932a1 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -665,7 +665,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                         res_name = type(r).__name__
                         (start, end) = shm_registers[res_name]
                         if res_name in type_counters:
-                            type_counters[res_name] += 1
+                            type_counters[res_name] += shm_sizes[res_name]
                             k = type_counters[res_name]
                             if (k >= end):
                                 raise IndexError('''No more available register for type {}. 
-- 
2.43.0


From 0c6dab8816cca95938b253db574fe2eded4a5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 044/146] fix: the arguments of a job failed in shared memory
 are returned as its result

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 2c932a1..4ccb491 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -684,6 +684,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                 if ipc_conn is not None:
                     pusher.send(b'0')  # send success
             except Exception as e:
+                shm_params[i][:] = [-1]*len(shm_params[i])  # a failed job has no result
                 if int(shm_lambdas[i].value) == -1:
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
-- 
2.43.0


From ffcd216184a40ca2d3e656d8bb78c65208065ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 045/146] fix: a job that cannot be launched leaks its worker

---
 skdecide/domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 4ccb491..d1d863d 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -575,11 +575,14 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job runs there
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -754,6 +757,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -790,6 +794,8 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job runs there
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From 832a5043bd40a5bf254096e840d5de11c8bb60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 046/146] fix: two threads can be given the same free parallel
 domain

---
 skdecide/domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index d1d863d..6b3b256 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -421,8 +421,10 @@ class ParallelDomain:
             while True:
                 for j, v in enumerate(self._active_domains):
                     if not v:
-                        self._active_domains[j] = True
-                        return j
+                        with self._active_domains.get_lock():  # another thread may be about to take it too
+                            if not self._active_domains[j]:
+                                self._active_domains[j] = True
+                                return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From ebf6ec1fa6f55b7bafae889bca30b431b58e495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 047/146] fix: parallel domains closed with an unread result
 hang when used again

---
 skdecide/domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 6b3b256..ca30fbc 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -618,6 +618,7 @@ class PipeParallelDomain(ParallelDomain):
             self._processes[i].close()
             self._waiting_jobs[i].close()
             self._processes[i] = None
+            self._active_domains[i] = False
             self.close_ipc_connection(i)
 
 
@@ -851,4 +852,7 @@ class ShmParallelDomain(ParallelDomain):
             self._processes[i].join()
             self._processes[i].close()
             self._processes[i] = None
+            self._active_domains[i] = False
+            self._activations[i].value = False
+            self._dones[i].value = False
             self.close_ipc_connection(i)
-- 
2.43.0


From 48411b3de64ef68b33c40abbb51e65782eae0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:38 +0000
Subject: [PATCH 048/146] fix: get_domain of parallel solvers calls a method
 that does not exist

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From 3f0a92284a90bfc91fc21e49e0b57663a36dfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 049/146] fix: a result store built empty cannot be filled

---
 .../generic_tools/result_storage/result_storage.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..371473d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -41,6 +41,7 @@ class ResultStorage:
                 nlargest(self.nb_best_score, self.heap)
             heapify(self.heap)
             self.size_heap = self.nb_best_score
+        self.min, self.max = None, None
         if len(self.heap) > 0:
             self.min = min(self.heap)
             self.max = max(self.heap)
@@ -53,6 +54,9 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if self.max is None:  # first solution of the store
+            self.min, self.max = fitness, fitness
+            self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From bbcb6bdafdb0adf9201b49fbede814d77d99eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 050/146] fix: bounded result stores drop their best fitness
 when minimizing or after finalize, and the worst one when not full

---
 .../result_storage/result_storage.py          | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 371473d..a4d1330 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -60,17 +60,15 @@ class ResultStorage:
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-        if self.maximize and fitness >= self.min or \
-                (not self.maximize and fitness <= self.max):
-            if self.size_heap >= self.nb_best_score and self.limit_store:
-                heappushpop(self.heap, fitness)
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
-            else:
-                heappush(self.heap, fitness)
-                self.size_heap += 1
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
+        if self.size_heap >= self.nb_best_score and self.limit_store:
+            worst = (min if self.maximize else max)(range(self.size_heap), key=lambda i: self.heap[i])
+            if fitness > self.heap[worst] if self.maximize else fitness < self.heap[worst]:
+                self.heap[worst] = fitness
+        else:
+            heappush(self.heap, fitness)
+            self.size_heap += 1
+        self.min = min(fitness, self.min)
+        self.max = max(fitness, self.max)
 
     def finalize(self):
         self.heap = sorted(self.heap, reverse=self.maximize)
-- 
2.43.0


From 9e54d466389679876f58cd729a6b6da93fec01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 051/146] fix: result stores rank a solution once per insertion

---
 .../generic_tools/result_storage/result_storage.py           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index a4d1330..661e54c 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -51,7 +51,8 @@ class ResultStorage:
 
     def add_solution(self, solution: Solution,
                      fitness: fitness_class):
-        if solution not in self.map_solutions:
+        new_solution = solution not in self.map_solutions
+        if new_solution:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
         if self.max is None:  # first solution of the store
@@ -60,6 +61,8 @@ class ResultStorage:
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
+        if not new_solution:  # already ranked
+            return
         if self.size_heap >= self.nb_best_score and self.limit_store:
             worst = (min if self.maximize else max)(range(self.size_heap), key=lambda i: self.heap[i])
             if fitness > self.heap[worst] if self.maximize else fitness < self.heap[worst]:
-- 
2.43.0


From 1c5e6787dc60fa0040fd3a63e601f1e5369195ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 052/146] fix: the merged pareto front of minimizing stores is
 the front of the worst points

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From f08321435034a496a7a1e3d608df4f80a18e6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 053/146] fix: the best solution of a store of vector fitnesses
 is compared with another solution's fitness

---
 .../generic_tools/result_storage/result_storage.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 661e54c..1fc6e91 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -43,8 +43,8 @@ class ResultStorage:
             self.size_heap = self.nb_best_score
         self.min, self.max = None, None
         if len(self.heap) > 0:
-            self.min = min(self.heap)
-            self.max = max(self.heap)
+            self.min = min([x[1] for x in self.list_solution_fits])
+            self.max = max([x[1] for x in self.list_solution_fits])
             if self.best_solution is None:
                 f = min if not self.maximize else max
                 self.best_solution = f(self.list_solution_fits, key=lambda x: x[1])[0]
@@ -70,8 +70,8 @@ class ResultStorage:
         else:
             heappush(self.heap, fitness)
             self.size_heap += 1
-        self.min = min(fitness, self.min)
-        self.max = max(fitness, self.max)
+        self.min = min(self.min, fitness)
+        self.max = max(self.max, fitness)
 
     def finalize(self):
         self.heap = sorted(self.heap, reverse=self.maximize)
-- 
2.43.0


From 640c547995aedfe8d4e7168353166dd5071ad1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 054/146] fix: local search stores rank a minimized objective
 as a maximized one

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 .../generic_tools/ls/simulated_annealing.py                    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..dbfe941 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,12 +39,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -125,6 +127,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..c07e46a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,12 +55,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From 240cdbfb63cb282e34fe7f8302486aaf50cf1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 055/146] fix: local search stores solutions whose move is
 undone, or altered by later moves

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py  | 6 +++---
 .../generic_tools/ls/simulated_annealing.py                 | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index dbfe941..d3d958d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -72,20 +72,20 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:  # before the move is undone
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index c07e46a..839fbe8 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -91,6 +91,8 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:  # before the move is undone
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -100,8 +102,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 43814b88b7063392024e7b5f76d33b8e48149148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 056/146] fix: simulated annealing divides by zero once its
 temperature has vanished

---
 .../generic_tools/ls/simulated_annealing.py                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index 839fbe8..baa62cd 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -1,4 +1,5 @@
 import math
+import sys
 import random
 import pickle
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Problem, Solution, \
@@ -88,7 +89,7 @@ class SimulatedAnnealing:
             else:
                 r = random.random()
                 fac = 1 if self.mode_optim == ModeOptim.MAXIMIZATION else -1
-                p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
+                p = math.exp(fac*(objective-cur_objective)/max(self.temperature_handler.temperature, sys.float_info.min))
                 accept = p > r
                 local_move_accepted = accept
             if self.store_solution:  # before the move is undone
-- 
2.43.0


From c15904ae5014863e78b2072854fc5d666df061fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 057/146] fix: a restart pairs the start of another run with
 the objective of this one

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py      | 2 ++
 .../generic_tools/ls/simulated_annealing.py                     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index d3d958d..6a947ce 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -53,6 +53,7 @@ class HillClimber:
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
@@ -135,6 +136,7 @@ class HillClimberPareto(HillClimber):
         cur_objective = objective
         cur_best_objective = objective
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             accept = False
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index baa62cd..a699c62 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -67,6 +67,7 @@ class SimulatedAnnealing:
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
+        self.restart_handler.solution_best = initial_variable.copy()
         iteration = 0
         while iteration < nb_iteration_max:
             local_improvement = False
-- 
2.43.0


From a0e43652133936c638e77afd80ae5579ba2516fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 058/146] fix: the single bit flip reports the objective of the
 solution before the flip

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From 643c9db2d84fc3514dc6ffd0d68add6906c78ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 059/146] fix: undoing several swaps of a permutation replays
 them in the wrong order

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..4d9e50b 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -146,7 +146,7 @@ class SwapsLocalMove(LocalMove):
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in reversed(self.list_index_swap):
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
         return solution
-- 
2.43.0


From 72bed592edb31859badff52a773ba0ef9621a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 060/146] fix: a swapped scheduling solution keeps the schedule
 of its former permutation

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 4d9e50b..c02f33e 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,6 +142,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)  # lets the solution know that it changed
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
@@ -149,6 +150,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in reversed(self.list_index_swap):
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From d80b8216175042666cb760f7c95e112b72613512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 061/146] fix: the swap mutation never moves the last position

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index c02f33e..3e13f43 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -180,7 +180,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From 99219f425cfad60b9d27a2dc98072dff4050dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 062/146] fix: mutation portfolios use a type that numpy no
 longer has

---
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
-- 
2.43.0


From a58bbef4f2caff0d4934b3bf8382158537be50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 063/146] fix: changing the modes of a scheduling solution
 keeps its former schedule

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..4a45fb3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -49,6 +48,7 @@ class RCPSPSolution(Solution):
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
                 self.rcpsp_modes = self.problem.fixed_modes
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -75,7 +75,7 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in {"rcpsp_permutation", "rcpsp_modes"}:
             self._schedule_to_recompute = True
 
     def copy(self):
-- 
2.43.0


From d0ef2e5070e27adc0bcbb2badba54767a0a9ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 064/146] fix: a copied scheduling solution forgets that its
 schedule is out of date

---
 .../rcpsp/rcpsp_model.py                      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 4a45fb3..0b276db 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -79,20 +79,24 @@ class RCPSPSolution(Solution):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 14624df60a415e05e97026decfada22e714eb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 065/146] fix: feasibility of a scheduling solution is judged
 on an out of date schedule

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 0b276db..984b921 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -544,6 +544,8 @@ class RCPSPModel(Problem):
                             2)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
@@ -724,6 +726,8 @@ class RCPSPModelCalendar(RCPSPModel):
                                   name_ressource_to_index=self.name_ressource_to_index)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
-- 
2.43.0


From c0d89c5f6e17ba8e424c88e47c2b86199e996f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 066/146] fix: the penalty of an infeasible schedule lands on
 whichever task is listed last

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 984b921..ff1693b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -262,7 +262,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = self.problem.n_jobs + 2
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
@@ -392,7 +392,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = completed_tasks[act_id].end
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = self.problem.n_jobs + 2
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
-- 
2.43.0


From bebed20df5357c1365af9003f5c65cad2de3576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 067/146] fix: tasks without duration use no non renewable
 resource in a generated schedule

---
 .../rcpsp/rcpsp_model.py                      | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index ff1693b..cf779b5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -240,13 +240,12 @@ class RCPSPSolution(Solution):
                 for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']):  # 15
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_t:
-                            for tt in range(end_t+1, new_horizon):
-                                resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                                if resource_avail_in_time[res][tt] < 0:
-                                    unfeasible_non_renewable_resources = True
-                                    # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
-                        # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                for res in self.problem.non_renewable_resources:
+                    for tt in range(end_t+1, new_horizon):
+                        resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
+                            # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
@@ -366,13 +365,12 @@ class RCPSPSolution(Solution):
                 for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']):  # 15
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_t:
-                            for tt in range(end_t+1, new_horizon):
-                                resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                                if resource_avail_in_time[res][tt] < 0:
-                                    unfeasible_non_renewable_resources = True
-                                    # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
-                        # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                for res in self.problem.non_renewable_resources:
+                    for tt in range(end_t+1, new_horizon):
+                        resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
+                            # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
-- 
2.43.0


From 222b242be81a9bf48889f16c9a91484c3c5f35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 068/146] fix: repairing the modes of a scheduling solution
 alters its copies

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index cf779b5..628291f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -189,6 +189,7 @@ class RCPSPSolution(Solution):
             if modes_extended[i] not in list(self.problem.mode_details[i+1].keys()):
                 modes_extended[i] = 1
                 if i != 0 and i != len(modes_extended)-1:
+                    self.rcpsp_modes = list(self.rcpsp_modes)  # it may be shared with other solutions
                     self.rcpsp_modes[i-1] = modes_extended[i]
 
         # print('modes_extended: ', modes_extended)
@@ -314,6 +315,7 @@ class RCPSPSolution(Solution):
             if modes_extended[i] not in list(self.problem.mode_details[i+1].keys()):
                 modes_extended[i] = 1
                 if i != 0 and i != len(modes_extended)-1:
+                    self.rcpsp_modes = list(self.rcpsp_modes)  # it may be shared with other solutions
                     self.rcpsp_modes[i-1] = modes_extended[i]
 
         # print('modes_extended: ', modes_extended)
-- 
2.43.0


From ac5263adc9dd80fe171cb63b8b01721255cbca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 069/146] fix: the average scenario of an uncertain project
 loses a unit to rounding

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 628291f..9ba0a5e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1069,7 +1069,7 @@ class UncertainRCPSPModel:
                 for detail in self.probas[activity][mode]:
                     if method_robustification.method_base == MethodBaseRobustification.AVERAGE:
                         model.mode_details[activity][mode][detail] = \
-                            int(self.probas[activity][mode][detail]["prob-distribution"].mean())
+                            int(round(self.probas[activity][mode][detail]["prob-distribution"].mean(), 6))
                     if method_robustification.method_base == MethodBaseRobustification.WORST_CASE:
                         model.mode_details[activity][mode][detail] = \
                             self.probas[activity][mode][detail]["prob-distribution"].support()[1]
-- 
2.43.0


From 99f6df4f2b7b06095a42fd668d92a1ac909f3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 070/146] fix: a generated multi-skill solution reports modes
 that its tasks do not have

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..816637b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From a89f9ec026752d78d2b45b41a4b7cce0bf7d3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 071/146] fix: tasks without duration use no non renewable
 resource in a multi-skill schedule

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 816637b..39aae02 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -247,12 +247,12 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                            current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):  # 15
                 for res in resource_avail_in_time.keys():  # 16
                     resource_avail_in_time[res][t] -= problem.mode_details[act_id][modes_extended[act_id - 1]][res]  # 17
-                    if res in problem.non_renewable_resources and t == end_t:
-                        for tt in range(end_t + 1, new_horizon):
-                            resource_avail_in_time[res][tt] -= \
-                            problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                            if resource_avail_in_time[res][tt] < 0:
-                                unfeasible_non_renewable_resources = True
+            for res in problem.non_renewable_resources:
+                for tt in range(end_t + 1, new_horizon):
+                    resource_avail_in_time[res][tt] -= \
+                        problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                    if resource_avail_in_time[res][tt] < 0:
+                        unfeasible_non_renewable_resources = True
             if worker_ids is not None:
                 priority_list_this_task = solution.priority_worker_per_task[act_id-2]
                 worker_used = []
-- 
2.43.0


From fadf895e2deb4c27b3c3e63152d18b75a5b90ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 072/146] fix: worker priorities given as a permutation are
 ranks instead of employees

---
 .../rcpsp_multiskill/rcpsp_multiskill.py              | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 39aae02..2c91c37 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -726,12 +726,13 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         self.fixed_priority_worker_per_task = self.convert_fixed_priority_worker_per_task_from_permutation(permutation)
 
     def convert_fixed_priority_worker_per_task_from_permutation(self, permutation):
+        employees = sorted(self.employees)
         priority_worker_per_task_corrected = []
         for i in range(self.n_jobs_non_dummy):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            tmp_corrected = [employees[int(x) - 1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -759,13 +760,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From 6cc3232525b69131babbe708bbe295f84f850fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 073/146] fix: fixing the modes counted from 0 shifts them by
 one

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 2c91c37..e6f862e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -703,7 +703,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
+            modes_corrected = [x + 1 for x in sol.modes_vector_from0]
             self.set_fixed_modes(modes_corrected)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
-- 
2.43.0


From 373600c98baa06db976f01a27e10aeb5c8ea77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 074/146] fix: multi-skill models forget that tasks are staffed
 by a single employee

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index e6f862e..f21f231 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -593,7 +593,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +609,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,7 +644,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
-- 
2.43.0


From 40761c3cc79045e918afec756f8603b2211450b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 075/146] fix: the check of a multi-skill solution crashes when
 it is unfeasible or a task has no qualified employee

---
 .../rcpsp_multiskill/rcpsp_multiskill.py               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index f21f231..0122205 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -470,6 +470,8 @@ class MS_RCPSPModel(Problem):
         # check the skills :
         if len(rcpsp_sol.schedule) != self.nb_tasks:
             return False
+        if rcpsp_sol.schedule[self.sink_task]['end_time'] > self.horizon * self.horizon_multiplier:
+            return False
         for task in self.tasks:
             mode = rcpsp_sol.modes[task]
             required_skills = {s: self.mode_details[task][mode][s]
@@ -477,10 +479,14 @@ class MS_RCPSPModel(Problem):
                                if s in self.skills_set and self.mode_details[task][mode][s] > 0}
             # Skills for the given task are used
             if len(required_skills) > 0:
+                employee_usage = rcpsp_sol.employee_usage.get(task, {})
                 for skill in required_skills:
+                    if any(skill in employee_usage[emp] and skill not in self.employees[emp].dict_skill
+                           for emp in employee_usage):
+                        return False
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in employee_usage
+                                      if skill in employee_usage[emp]]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
-- 
2.43.0


From a44a9b8fe61fc91066d62911de1227bf8d76186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 076/146] fix: the pooled representative of a multi-skill model
 sums the end of the calendars at its last date

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 0122205..f166690 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -408,7 +408,8 @@ class MS_RCPSPModel(Problem):
             skills_availability = {s: [0]*len(self.resources_availability[self.resources_list[0]])
                                    for s in self.skills_set}
         for emp in self.employees:
-            for j in range(len(self.employees[emp].calendar_employee)):
+            for j in range(min([len(self.employees[emp].calendar_employee)]
+                               + [len(skills_availability[s]) for s in skills_availability])):
                 if self.employees[emp].calendar_employee[min(j,
                                                              len(self.employees[emp].calendar_employee)-1)]:
                     for s in self.employees[emp].dict_skill:
-- 
2.43.0


From 962b227c5e26eb60b8389f9bf7ba9ff3787d4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 077/146] fix: left shifting a multi-skill schedule ignores the
 resources

---
 .../rcpsp_multiskill/solvers/lns_post_process_rcpsp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
index c5da336..13b16c4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
@@ -51,7 +51,7 @@ def sgs_variant(solution: MS_RCPSPSolution,
     # 1, 2
     resource_avail_in_time = {}
     new_horizon = problem.horizon
-    for res in problem.resources_set:
+    for res in problem.resources_set - set(problem.non_renewable_resources):
         resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
     worker_avail_in_time = {}
     for i in problem.employees:
@@ -74,7 +74,11 @@ def sgs_variant(solution: MS_RCPSPSolution,
             if all(all(worker_avail_in_time[emp][time]
                        for time in range(t,
                                          t+ solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]))
-                   for emp in employee_used):
+                   for emp in employee_used) \
+                    and all(resource_avail_in_time[res][time] >= problem.mode_details[task][solution.modes[task]][res]
+                            for res in resource_avail_in_time
+                            for time in range(t,
+                                              t + solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"])):
                 new_starting_time = t
                 break
         duration = solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]
@@ -83,6 +87,8 @@ def sgs_variant(solution: MS_RCPSPSolution,
         for t in range(new_starting_time, new_starting_time+duration):
             for emp in employee_used:
                 worker_avail_in_time[emp][t] = False
+            for res in resource_avail_in_time:
+                resource_avail_in_time[res][t] -= problem.mode_details[task][solution.modes[task]][res]
     new_solution = MS_RCPSPSolution(problem=problem,
                                     modes=solution.modes,
                                     schedule=new_proposed_schedule,
-- 
2.43.0


From 928eb778cf0ef24e0eeb50f679ccbd101e1e01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 078/146] fix: the stochastic scheduling domain keeps which
 resources are renewable

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 4a897c7..e355e4f 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -200,6 +200,9 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
                                         multivariate_settings: Optional[Dict[str, int]]=None) -> Distribution:
         return self.duration_distribution[task][mode]
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        return self.resource_renewable
+
     def _get_original_quantity_resource(self, resource: str, **kwargs) -> int:
         return self.resource_availability[resource]
 
-- 
2.43.0


From 7a2908ea6f5548530562a253311ce1743bcb80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 079/146] fix: a calendar problem built from a domain covers
 the horizon itself

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 858a12b..1c5f00e 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -101,7 +101,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         horizon = scheduling_domain.get_max_horizon()
         return RCPSPModelCalendar(resources={r: [scheduling_domain.get_quantity_resource(r, time=t)
-                                                 for t in range(horizon)]
+                                                 for t in range(horizon+1)]
                                              for r in scheduling_domain.get_resource_types_names()},
                                   non_renewable_resources=[r
                                                            for r in scheduling_domain.get_resource_renewability()
-- 
2.43.0


From 7a303d9a28bf1cdfd464c389201b41c0e84b8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 080/146] fix: a domain built from a problem keeps its horizon
 multiplier

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 1c5f00e..930937a 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -175,7 +175,7 @@ def build_sk_domain(rcpsp_do_domain: Union[MS_RCPSPModel,
                                        task_ids=sorted(rcpsp_do_domain.mode_details.keys()),
                                        tasks_mode=rcpsp_do_domain.mode_details,
                                        successors=rcpsp_do_domain.successors,
-                                       max_horizon=rcpsp_do_domain.horizon,
+                                       max_horizon=rcpsp_do_domain.horizon*rcpsp_do_domain.horizon_multiplier,
                                        resource_availability=rcpsp_do_domain.resources,
                                        resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources
                                                            for r in rcpsp_do_domain.resources_list})
@@ -186,7 +186,7 @@ def build_sk_domain(rcpsp_do_domain: Union[MS_RCPSPModel,
                                task_ids=sorted(rcpsp_do_domain.mode_details.keys()),
                                tasks_mode=rcpsp_do_domain.mode_details,
                                successors=rcpsp_do_domain.successors,
-                               max_horizon=rcpsp_do_domain.horizon,
+                               max_horizon=rcpsp_do_domain.horizon*rcpsp_do_domain.horizon_multiplier,
                                resource_availability={r: max(rcpsp_do_domain.resources[r])
                                                       for r in rcpsp_do_domain.resources},
                                resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources
@@ -198,7 +198,7 @@ def build_sk_domain(rcpsp_do_domain: Union[MS_RCPSPModel,
                           task_ids=sorted(rcpsp_do_domain.mode_details.keys()),
                           tasks_mode=rcpsp_do_domain.mode_details,
                           successors=rcpsp_do_domain.successors,
-                          max_horizon=rcpsp_do_domain.horizon,
+                          max_horizon=rcpsp_do_domain.horizon*rcpsp_do_domain.horizon_multiplier,
                           resource_availability=rcpsp_do_domain.resources,
                           resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources
                                               for r in rcpsp_do_domain.resources_list})
@@ -209,7 +209,7 @@ def build_sk_domain(rcpsp_do_domain: Union[MS_RCPSPModel,
                             task_ids=sorted(rcpsp_do_domain.mode_details.keys()),
                             tasks_mode=rcpsp_do_domain.mode_details,
                             successors=rcpsp_do_domain.successors,
-                            max_horizon=rcpsp_do_domain.horizon,
+                            max_horizon=rcpsp_do_domain.horizon*rcpsp_do_domain.horizon_multiplier,
                             resource_availability=rcpsp_do_domain.resources,
                             resource_renewable={r: r not in rcpsp_do_domain.non_renewable_resources
                                                 for r in rcpsp_do_domain.resources_list})
-- 
2.43.0


From ea7bf182c9d4a5a3d54dc59cd50e5f41da447f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 081/146] fix: the final state of a multi-skill execution gives
 a multi-skill solution

---
 .../hub/solver/do_solver/sk_to_do_binding.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 930937a..f30428d 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -8,7 +8,7 @@ from skdecide.solvers import Solver, DeterministicPolicies
 from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, SingleModeRCPSPModel, \
     MultiModeRCPSPModel, RCPSPModelCalendar, RCPSPSolution
 from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPModel_Variant, Employee, \
-    SkillDetail
+    SkillDetail, MS_RCPSPSolution
 
 
 def from_last_state_to_solution(state: State, domain: SchedulingDomain):
@@ -17,7 +17,24 @@ def from_last_state_to_solution(state: State, domain: SchedulingDomain):
     schedule = {j: {"start_time": state.tasks_details[j].start,
                     "end_time": state.tasks_details[j].end}
                 for j in state.tasks_details}
-    return RCPSPSolution(problem=build_do_domain(domain),
+    problem = build_do_domain(domain)
+    if isinstance(problem, MS_RCPSPModel):
+        # the employees are numbered in the order of their sorted names, as in build_do_domain
+        employees = {name: i for i, name in enumerate(sorted(domain.get_resource_units_names()))}
+        modes = {j: state.tasks_mode.get(j, 1) for j in domain.get_tasks_ids()}
+        employee_usage = {}
+        for j in state.tasks_details:
+            required = domain.get_skills_of_task(task=j, mode=modes[j])
+            usage = {employees[r]: {s for s, v in domain.get_skills_of_resource(resource=r).items()
+                                    if v > 0 and required.get(s, 0) > 0}
+                     for r in state.tasks_details[j].resources if r in employees}
+            if len(usage) > 0:
+                employee_usage[j] = usage
+        return MS_RCPSPSolution(problem=problem,
+                                modes=modes,
+                                schedule=schedule,
+                                employee_usage=employee_usage)
+    return RCPSPSolution(problem=problem,
                          rcpsp_permutation=None,
                          rcpsp_modes=modes,
                          rcpsp_schedule=schedule)
-- 
2.43.0


From f1d664ee6f6b5ba590f054727ea1f7007194631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 082/146] fix: policy evaluation ignores successors of zero
 probability

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..01f78d5 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,8 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            if prob != 0:
+                assert (state in preds[succ])
     return policy_dict, preds, succs
 
 
@@ -55,6 +56,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From 6469d5963d21b2300dbafde9bdcd918f11ab2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 083/146] fix: the multi-objective knapsack declares its
 optimisation direction

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..cbe9806 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -154,7 +154,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 22fdfb36d370c4036069884e06fe1c4d9dbb6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 084/146] fix: the multi-skill problem only declares objectives
 it evaluates

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index f166690..d226086 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -584,8 +584,7 @@ class MS_RCPSPModel(Problem):
         return EncodingRegister(dict_register)
 
     def get_objective_register(self) -> ObjectiveRegister:
-        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
-                          "mean_resource_reserve": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
+        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1}}
         return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
                                  objective_handling=ObjectiveHandling.SINGLE,
                                  dict_objective_to_doc=dict_objective)
-- 
2.43.0


From 2f2a76b3594e4a37145d96d8786d3ee9043818ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 085/146] fix: estimating a scheduling policy leaves the domain
 in its own mode

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 01f78d5..e625dab 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -150,6 +150,7 @@ def rollout_based_policy_estimation_fast_scheduling(domain: SchedulingDomain,
     s = domain.get_initial_state()
     summed_value[s] = 0
     nb_visit_dict[s] = 0
+    inplace_environment = domain.inplace_environment
     domain.set_inplace_environment(True)
     for rollout in range(nb_rollout):
         states, summed_value_rollout, values, actions = my_custom_rollout(domain,
@@ -157,6 +158,7 @@ def rollout_based_policy_estimation_fast_scheduling(domain: SchedulingDomain,
                                                                           policy)
         summed_value[s] += states[-1].t-s.t
         nb_visit_dict[s] += 1
+    domain.set_inplace_environment(inplace_environment)
     final_value = {st: summed_value[st]/nb_visit_dict[st] for st in summed_value}
     return final_value, policy_dict, preds, succs
 
-- 
2.43.0


From d41e5586dbe0235b61f97c3687eab8f3271fab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 086/146] fix: a state reached in a gym domain remembers its
 own environment

---
 skdecide/hub/domain/gym/gym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..d225e1f 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -204,9 +204,9 @@ class DeterministicInitializedGymDomain(D):
             D.T_state, D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]:
         obs, reward, done, info = self._gym_env.step(action)
         if self._set_state is not None and self._get_state is not None:
-            state = GymDomainStateProxy(state=obs, context=self._initial_env_state)
+            state = GymDomainStateProxy(state=obs, context=self._get_state(self._gym_env))
         else:
-            state = GymDomainStateProxy(state=obs, context=self._init_env)
+            state = GymDomainStateProxy(state=obs, context=deepcopy(self._gym_env))
         return TransitionOutcome(state=state, value=TransitionValue(reward=reward), termination=done, info=info)
     
     def _get_action_space_(self) -> D.T_agent[Space[D.T_event]]:
-- 
2.43.0


From f8056953fc38dca491339f416ccf9c2eacb6fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 087/146] fix: interval features of gym states with discrete or
 named parts

---
 skdecide/hub/domain/gym/gym.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index d225e1f..4511d66 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,9 +279,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee1_features(self, state):
@@ -391,9 +392,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee2_features(self, state):
-- 
2.43.0


From 184546e56468e2cb181e3a469f44e920a1356403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 088/146] fix: the number of binary features of a gym state,
 and named parts

---
 skdecide/hub/domain/gym/gym.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 4511d66..3126433 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -441,10 +441,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -511,7 +509,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From 6db7ec7ff7ec2553309f03ab57bee955622718d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 089/146] fix: discretised gym actions of several components
 are legal actions

---
 skdecide/hub/domain/gym/gym.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 3126433..ba0a1fa 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -635,7 +635,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -644,10 +644,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
+            dkeys = list(action_space.spaces.keys())
             generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
                                   [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace([dict(zip(dkeys, e)) for e in generate(0)])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
@@ -658,16 +659,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist, dtype=dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From 12fd34d8f041cd204534c47130833f73cfc42b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 090/146] fix: planning in gym environments with multi-discrete
 observations

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index ba0a1fa..5207570 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -755,7 +755,7 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
-        elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
+        elif isinstance(space, (gym.spaces.multi_binary.MultiBinary, gym.spaces.multi_discrete.MultiDiscrete)):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
             assert len(e1) == len(e2) == len(space)
-- 
2.43.0


From 41fb9d1e4fb88125bce5401d4258c1e4d930f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 091/146] fix: a domain used as a gym environment speaks in the
 spaces it declares

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 5207570..fbe79b1 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -911,9 +911,10 @@ class AsGymEnv(gym.Env):
         - done (boolean): Whether the episode ended, in which case further step() calls will return undefined results.
         - info (dict): Contains auxiliary diagnostic information (helpful for debugging, and sometimes learning).
         """
-        action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
+        if self._unwrap_spaces:
+            action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
         outcome = self._domain.step(action)
-        outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
+        outcome_observation = self._unwrap_observation(outcome.observation)
         # Some solvers dealing with OpenAI Gym environments crash when info is None (e.g. baselines solver)
         outcome_info = outcome.info if outcome.info is not None else {}
         return outcome_observation, outcome.value.reward, outcome.termination, outcome_info
@@ -924,7 +925,12 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return self._unwrap_observation(self._domain.reset())
+
+    def _unwrap_observation(self, observation):
+        if self._unwrap_spaces:
+            return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
+        return observation
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From 5dbe5fe36d24d75472672332a6ce43e2a7248545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 092/146] fix: every mastermind score is in the observation
 space

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..89573e6 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 77fa4e537d3b31d59ea291e66c61d6f36bba8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 093/146] fix: drawing the maze with current matplotlib

---
 skdecide/hub/domain/maze/maze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/maze/maze.py b/skdecide/hub/domain/maze/maze.py
index 5d6c66a..ea2c9e9 100644
--- a/skdecide/hub/domain/maze/maze.py
+++ b/skdecide/hub/domain/maze/maze.py
@@ -133,7 +133,7 @@ class Maze(D):
         if self._ax is None:
             # fig = plt.gcf()
             fig, ax  = plt.subplots(1)
-            fig.canvas.set_window_title('Maze')
+            fig.canvas.manager.set_window_title('Maze')
             # ax = plt.axes()
             ax.set_aspect('equal')  # set the x and y axes to the same scale
             plt.xticks([])  # remove the tick marks by setting to an empty list
-- 
2.43.0


From 8d394794ab7a4c0a884ccbeb9273af1314d20c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 094/146] fix: the knapsack greedy solver skips items heavier
 than the whole capacity

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..e3af871 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,7 +26,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
             taken[sorted_per_density[i].index] = 1
             value += sorted_per_density[i].value
-- 
2.43.0


From fa45c3d3a061a536383d904cbe8fb4f95b030f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 095/146] fix: knapsack solvers mark the taken items by their
 position in the item list

---
 .../knapsack/solvers/cp_solvers.py                  | 13 ++++++-------
 .../knapsack/solvers/dyn_prog_knapsack.py           |  4 ++--
 .../knapsack/solvers/greedy_solvers.py              |  2 +-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..e776cf8 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -126,7 +126,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index e3af871..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -28,7 +28,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     sorted_per_density = method_queue(knapsack_model)
     for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From e56dd0f8b04aaf96d735b0e85a6e37524d35ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 096/146] fix: solve_np of the knapsack dynamic programme
 leaves out items which do not fit

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index e776cf8..ff7f1a1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -113,8 +113,8 @@ class KnapsackDynProg(SolverDO):
             weight = self.knapsack_model.list_items[index_item].weight
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
-            ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            capacities = np.arange(self.capacity+1)
+            vec_2 = np.where(capacities >= weight, vec_1[np.maximum(capacities-weight, 0)]+value, 0)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
-- 
2.43.0


From 550b088f907475da77376cbc9692b034a057fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 097/146] fix: the knapsack dynamic programme started by
 promising items stops after the items that fit

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index ff7f1a1..51efc41 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -44,7 +44,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-        for nb_item in range(1, max_items):
+        for nb_item in range(1, min(max_items, len(index_promising)+1)):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
                     break
@@ -105,7 +105,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-        for nb_item in range(1, max_items):
+        for nb_item in range(1, min(max_items, len(index_promising)+1)):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
                     break
-- 
2.43.0


From f8b125681380aac723ce0775a0e5f55c1149f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 098/146] fix: knapsack, coloring and facility solutions forget
 their evaluation when the problem changes

---
 .../discrete_optimization/coloring/coloring_model.py         | 5 +----
 .../discrete_optimization/facility/facility_model.py         | 3 +--
 .../discrete_optimization/knapsack/knapsack_model.py         | 2 --
 3 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..86e34d2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -51,10 +51,7 @@ class ColoringSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      colors=list(self.colors),
-                      # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      colors=list(self.colors))
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..190258a 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -38,8 +38,7 @@ class FacilitySolution(Solution):
     
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      facility_for_customers=list(self.facility_for_customers))
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index cbe9806..8a20183 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -38,8 +38,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
-- 
2.43.0


From 77f6b5441c5406d9b7ad7cccfd6111151f92d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 099/146] fix: KnapsackModel.satisfy recomputes the weight when
 values are to be recomputed

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 8a20183..04a371a 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -119,7 +119,7 @@ class KnapsackModel(Problem):
                    knapsack_solution.weight - self.max_capacity)
 
     def satisfy(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None:
+        if knapsack_solution.value is None or self.force_recompute_values:
             self.evaluate(knapsack_solution)
         return knapsack_solution.weight <= self.max_capacity
 
-- 
2.43.0


From b003031412b170fa70b49b4957f00c3e891b5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 100/146] fix: FacilityProblem.evaluate adds up the capacity
 violations of all facilities

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 190258a..12e8959 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -60,7 +60,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From ac333cee1fbd101748bdc4b0139a9280b86b7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 101/146] fix: the facility greedy solver passes over
 facilities too small for the next customer

---
 .../discrete_optimization/facility/solvers/greedy_solvers.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
index 754caa2..3cb9a10 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
@@ -26,8 +26,8 @@ class GreedySolverFacility(SolverDO):
                 solution[index] = facility_index
                 capacity_remaining[facility_index] -= customer.demand
             else:
-                facility_index += 1
-                assert capacity_remaining[facility_index] >= customer.demand
+                while capacity_remaining[facility_index] < customer.demand:
+                    facility_index += 1
                 solution[index] = facility_index
                 capacity_remaining[facility_index] -= customer.demand
         sol = FacilitySolution(problem=self.facility_problem,
-- 
2.43.0


From 9398a2eb780a912b9be97e2b4fc56b0439c1d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 102/146] fix: GreedyColoring hands the dsatur strategy to
 networkx by its name

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From c5481f38347f5e0415305c2a0f5f2b1b249d6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 103/146] fix: GreedyColoring colours directed graphs by both
 ends of their edges

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 6494537..706bc38 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -35,7 +35,7 @@ class GreedyColoring(SolverDO):
     def __init__(self, color_problem: ColoringProblem,
                  params_objective_function: ParamsObjectiveFunction=None):
         self.color_problem = color_problem
-        self.nx_graph = self.color_problem.graph.to_networkx()
+        self.nx_graph = self.color_problem.graph.to_networkx().to_undirected()
         self.aggreg_sol, self.aggreg_dict, self.params_objective_function = \
             build_aggreg_function_and_params_objective(problem=self.color_problem,
                                                        params_objective_function=params_objective_function)
-- 
2.43.0


From 816874961aaa888843376d175466b3ff869704ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 104/146] fix: compute_cliques answers when it has listed all
 cliques

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From 1c14669d8ad2102df5f6ab659c08b2576e7ba3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 105/146] fix: make the TSP points a class Python can create,
 so the TSP modules can be imported

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..6f082bc 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,9 +202,8 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
-    x: float
-    y: float
+class Point2D(NamedTuple("Point2D", [("x", float), ("y", float)]), Point):
+    ...
 
 
 class TSPModel2D(TSPModel):
-- 
2.43.0


From 7b19551ae5fb132b73d74f37ed4744f2fecf57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 106/146] fix: check that a TSP tour visits every node once
 between the ends of the problem

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 6f082bc..67734fc 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,8 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        return var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index \
+            and sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From 118e69754b08937dbb65b3490654d3c447cf2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 107/146] fix: report the legs of a TSP tour in their order in
 the compiled evaluation

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 67734fc..dc27330 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -261,17 +261,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
                                     (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From 5be971fa41fae504b006fb995885c8257864f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 108/146] fix: recompute the length of a TSP tour moved to
 another problem

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index dc27330..e29d58c 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -78,8 +78,6 @@ class SolutionTSP(Solution):
                       start_index=self.start_index,
                       end_index=self.end_index,
                       permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
                       permutation_from0=deepcopy(self.permutation_from0))
 
 class Point:
-- 
2.43.0


From 9be7896e4104bc08a8155794a2ed9a9d1bb908f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 109/146] fix: leave the working directory alone when the TSP
 tools are imported

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..46f14a2 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -7,8 +7,6 @@ from typing import List
 import numpy as np
 import matplotlib.pyplot as plt
 from skdecide.builders.discrete_optimization.tsp.tsp_model import Point2D, length
-this_path = os.path.dirname(os.path.abspath(__file__))
-os.chdir(this_path)
 
 
 def length_1(point1, point2):
-- 
2.43.0


From 57ace415efb3fad8e9955861eab4cfc28fad99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 110/146] fix: compute the TSP distance matrix from the points
 when no distance is given

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 46f14a2..c2a3ad4 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -51,7 +51,7 @@ def baseline_in_order(nodeCount: int, points: List[Point2D]):
 
 def build_matrice_distance(nodeCount: int, points: List[Point2D], method=None):
     if method is None:
-        method = length
+        method = lambda i, j: length(points[i], points[j])
     matrix = np.zeros((nodeCount, nodeCount))
     for i in range(nodeCount):
         for j in range(i+1, nodeCount):
-- 
2.43.0


From ee09485deeb7bcaa4fae3a7924293b522a51d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 111/146] fix: let the closest greedy tour visit nodes at the
 same place

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index c2a3ad4..d0a14db 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -85,7 +85,7 @@ def closest_greedy(nodeCount: int, points: List[Point2D]):
     sol = [0]
     length_circuit = 0.
     index_in_sol = set([0])
-    s = sd[:, 1:]
+    s = sd
     # print(matrix.shape)
     # print(s.shape)
     # print(s)
-- 
2.43.0


From badaabf3e9b7ec78f01ddc7c37cf6e14a36ef690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 112/146] fix: accept 2-opt mutations without a number of tests

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..045515a 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,12 +72,13 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = nb_test
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
         if self.nb_test is None:
             self.nb_test = max(1, self.node_count//10)
+        self.nb_test = min(self.nb_test, self.node_count-1)
     
     def get_points(self, it, jt, variable: SolutionTSP):
         point_before_i = None
-- 
2.43.0


From ae2a8cdbe64875bfe10529d61644115d041f2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 113/146] fix: keep all the legs and report the objective in
 the intersection 2-opt mutation

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 045515a..916669f 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -211,7 +211,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -233,6 +233,8 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        if jt < self.length_permutation-1:
+            lengths += variable.lengths[jt+2:]
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From 37bd77d29727eb0c705edd73a728e162a4d25cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 114/146] fix: recompute the lengths and loads of VRP tours
 moved to another problem

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..644fe0c 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -49,8 +49,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From bb4ce0e5f6bb4ee0c98dd555c2d48f180e24e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 115/146] fix: check that VRP tours visit every customer once

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 644fe0c..1f8304d 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -95,7 +95,9 @@ class VrpProblem(Problem):
 
     def satisfy(self, variable: VrpSolution) -> bool:
         d = self.evaluate(variable)
-        return d["capacity_violation"] == 0
+        depots = set(self.start_indexes).union(self.end_indexes)
+        visits = sorted(c for path in variable.list_paths for c in path)
+        return d["capacity_violation"] == 0 and visits == [c for c in range(self.customer_count) if c not in depots]
 
     def get_attribute_register(self) -> EncodingRegister:
         dict_encoding = {"list_paths": {"name": "list_paths", "type": [TypeAttribute.LIST_INTEGER]}}
-- 
2.43.0


From ba4e12fd044536f697592eb3af10408a54f2be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 116/146] fix: keep the distances when the VRP search space is
 pruned

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..7bb3d0b 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=matrix_distance.dtype)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
-- 
2.43.0


From 239fb9f84ed8044d8936872ecd4a9529bb0716db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 117/146] fix: build the VRP graph with the networkx function
 that exists

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 7bb3d0b..897e6e3 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From b626b107b50e036c035ab646c13b8d62becf1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 118/146] fix: use the integer type that numpy still has in the
 VRP OR-Tools solver

---
 .../builders/discrete_optimization/vrp/solver/solver_ortools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
-- 
2.43.0


From 189b21bef20e278daeb54ef3828194cabebba85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 119/146] fix: scale the distances before rounding them in the
 TSP OR-Tools solver

---
 .../builders/discrete_optimization/tsp/solver/solver_ortools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..41a6855 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-- 
2.43.0


From 7561605b54d295f7dcd628e7c2c633b3344d0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 120/146] fix: keep the two encodings of a TSP tour in step
 when one is changed

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py   | 1 +
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 916669f..3cdbc52 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -275,6 +275,7 @@ class SwapTSPMove(LocalMove):
         i1, i2 = self.swap
         v1, v2 = current[i1], current[i2]
         current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)  # lets the solution know that it changed
         i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
         previous = solution.lengths[i1], solution.lengths[i1+1], solution.lengths[i2], solution.lengths[i2+1]
         solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index e29d58c..5b1516f 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -52,6 +52,15 @@ class SolutionTSP(Solution):
         if self.length is None:
             self.problem.evaluate(self)
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        # permutation and permutation_from0 are two encodings of the same tour : keep them in step.
+        if value is not None and self.__dict__.get("problem") is not None:
+            if key == "permutation":
+                super().__setattr__("permutation_from0", self.problem.convert_original_perm_to_perm_from0(value))
+            elif key == "permutation_from0":
+                super().__setattr__("permutation", self.problem.convert_perm_from0_to_original_perm(value))
+
     def copy(self):
         return SolutionTSP(problem=self.problem,
                            start_index=self.start_index,
-- 
2.43.0


From 01b6cff4338f1225974636a1eb33a0bc4c359944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 121/146] fix: let the 2-opt mutations reverse a segment of an
 array permutation

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 3cdbc52..4aec390 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -147,7 +147,8 @@ class Mutation2Opt(Mutation):
                     min_change = change
         fitness = variable.length+min_change
         i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
-        permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
+        perm = list(variable.permutation)
+        permut = perm[:(it)]+perm[it:jt+1][::-1]+perm[jt+1:]
         lengths = []
         if it > 0:
             lengths += variable.lengths[:it]
@@ -226,7 +227,8 @@ class Mutation2OptIntersection(Mutation2Opt):
                 min_change = change
         fitness = variable.length+min_change
         i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
-        permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
+        perm = list(variable.permutation)
+        permut = perm[:(it)]+perm[it:jt+1][::-1]+perm[jt+1:]
         lengths = []
         if it > 0:
             lengths += variable.lengths[:it]
-- 
2.43.0


From 78eef08fc4e0a0a4cb9697317ff71234eddaba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 122/146] fix: draw the tested 2-opt moves among the existing
 ones (the length was infinite when none was tested)

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 4aec390..33b1ab8 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -118,7 +118,7 @@ class Mutation2Opt(Mutation):
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
         min_change = float('inf')
         range_its = range(self.length_permutation) if self.test_all \
-            else random.sample(range(self.length_permutation), min(self.nb_test, self.length_permutation))
+            else random.sample(range(self.length_permutation-1), min(self.nb_test, self.length_permutation-1))
         for i in range_its:
             #print( min(self.nb_test, self.nodeCount-i-1))
             #print(i+1, self.nodeCount-1)
-- 
2.43.0


From 1d9130ee4386f311f3742b76d39acda0b0bf6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 123/146] fix: forget the length of a TSP tour whose
 permutation changes (moves took it for the new one's)

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py   | 8 ++++++++
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 33b1ab8..83f772b 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -113,6 +113,8 @@ class Mutation2Opt(Mutation):
         return i_before, i, j, j_after
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
+        if variable.lengths is None:
+            self.tsp_model.evaluate(variable)
         it = random.randint(0, self.length_permutation-2)
         jt = random.randint(it+1, self.length_permutation-1)
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
@@ -205,6 +207,8 @@ class Mutation2OptIntersection(Mutation2Opt):
             self.i_j_pairs = None
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
+        if variable.lengths is None:
+            self.tsp_model.evaluate(variable)
         reset_end = False
         if True:
             reset_end = True
@@ -273,11 +277,15 @@ class SwapTSPMove(LocalMove):
         self.swap = swap
 
     def apply_local_move(self, solution: SolutionTSP) -> SolutionTSP:
+        if solution.lengths is None:
+            self.tsp_model.evaluate(solution)
+        lengths, total = solution.lengths, solution.length
         current = getattr(solution, self.attribute)
         i1, i2 = self.swap
         v1, v2 = current[i1], current[i2]
         current[i1], current[i2] = v2, v1
         setattr(solution, self.attribute, current)  # lets the solution know that it changed
+        solution.lengths, solution.length = lengths, total
         i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
         previous = solution.lengths[i1], solution.lengths[i1+1], solution.lengths[i2], solution.lengths[i2+1]
         solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 5b1516f..858e8de 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -54,8 +54,11 @@ class SolutionTSP(Solution):
 
     def __setattr__(self, key, value):
         super().__setattr__(key, value)
-        # permutation and permutation_from0 are two encodings of the same tour : keep them in step.
-        if value is not None and self.__dict__.get("problem") is not None:
+        # permutation and permutation_from0 are two encodings of the same tour : keep them in step,
+        # and forget the length of the previous tour.
+        if key in ("permutation", "permutation_from0") and value is not None and self.__dict__.get("problem") is not None:
+            super().__setattr__("lengths", None)
+            super().__setattr__("length", None)
             if key == "permutation":
                 super().__setattr__("permutation_from0", self.problem.convert_original_perm_to_perm_from0(value))
             elif key == "permutation_from0":
@@ -66,7 +69,7 @@ class SolutionTSP(Solution):
                            start_index=self.start_index,
                            end_index=self.end_index,
                            permutation=list(self.permutation),
-                           lengths=list(self.lengths),
+                           lengths=list(self.lengths) if self.lengths is not None else None,
                            length=self.length,
                            permutation_from0=deepcopy(self.permutation_from0))
 
-- 
2.43.0


From e8725b974c947a105585f259b5d35023328e4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 124/146] fix: build the legs after a 2-opt move from those of
 the compiled evaluation too

---
 .../tsp/mutation/mutation_tsp.py                     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 83f772b..273d7e8 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -153,12 +153,12 @@ class Mutation2Opt(Mutation):
         permut = perm[:(it)]+perm[it:jt+1][::-1]+perm[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
         if jt < self.length_permutation-1:
-            lengths += variable.lengths[jt+2:]
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
@@ -235,12 +235,12 @@ class Mutation2OptIntersection(Mutation2Opt):
         permut = perm[:(it)]+perm[it:jt+1][::-1]+perm[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
         if jt < self.length_permutation-1:
-            lengths += variable.lengths[jt+2:]
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From a9098b1b1f0a5bc02d8cfcf1d4dfd9f6924c0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 125/146] fix: start the other tasks planned at the current
 date when one of them cannot start

---
 .../hub/solver/sgs_policies/sgs_policies.py   | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/skdecide/hub/solver/sgs_policies/sgs_policies.py b/skdecide/hub/solver/sgs_policies/sgs_policies.py
index f7b3928..b13f59f 100644
--- a/skdecide/hub/solver/sgs_policies/sgs_policies.py
+++ b/skdecide/hub/solver/sgs_policies/sgs_policies.py
@@ -94,25 +94,21 @@ def next_action_follow_static_gantt(policy_rcpsp: PolicyRCPSP,
         tasks = [task for task in policy_rcpsp.store_start_date[t]
                  if task not in ongoing_task and task not in complete_task
                  and task in possible_task_to_launch]
-        if len(tasks) > 0:
-            the_action = SchedulingAction(task=tasks[0],
-                                          action=SchedulingActionEnum.START,
-                                          mode=policy_rcpsp.modes_dictionnary[tasks[0]],
-                                          time_progress=False,
-                                          resource_unit_names=None)
+        for task in tasks:
+            start_action = SchedulingAction(task=task,
+                                            action=SchedulingActionEnum.START,
+                                            mode=policy_rcpsp.modes_dictionnary[task],
+                                            time_progress=False,
+                                            resource_unit_names=None)
             if policy_rcpsp.resource_allocation is not None:
-                if tasks[0] in policy_rcpsp.resource_allocation:
-                    the_action.resource_unit_names = policy_rcpsp.resource_allocation[tasks[0]]
-    if True:
-        action_available = action_in_applicable_actions(policy_rcpsp.domain,
-                                                        state,
-                                                        the_action)
-        if not action_available[0]:
-            the_action = SchedulingAction(task=None,
-                                          action=SchedulingActionEnum.TIME_PR,
-                                          mode=None,
-                                          time_progress=True,
-                                          resource_unit_names=None)
+                if task in policy_rcpsp.resource_allocation:
+                    start_action.resource_unit_names = policy_rcpsp.resource_allocation[task]
+            action_available = action_in_applicable_actions(policy_rcpsp.domain,
+                                                            state,
+                                                            start_action)
+            if action_available[0]:
+                the_action = start_action
+                break
     return the_action
 
 
-- 
2.43.0


From 5f8aedbc4edcbc7eae15b1f5e6d17f8b302bbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 126/146] fix: list the items taken by the knapsack programmes
 in the order of the items

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..2db7ba7 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 76a8727ac940a7fa4729170b36ef99bac253fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 127/146] fix: fix the items of the knapsack neighbourhoods by
 their position

---
 .../knapsack/solvers/knapsack_lns_solver.py        |  7 ++++---
 .../knapsack/solvers/lp_solvers.py                 | 14 +++++++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..0348b8f 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -54,14 +54,15 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         dict_f_start = {}
         start = []
         for c in range(self.problem.nb_items):
-            dict_f_start[c] = current_solution.list_taken[c]
+            index = self.problem.list_items[c].index
+            dict_f_start[index] = current_solution.list_taken[c]
             if c in subpart_item:
-                dict_f_fixed[c] = dict_f_start[c]
+                dict_f_fixed[index] = dict_f_start[index]
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
             start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
+            if key in dict_f_fixed:
                 lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 2db7ba7..52061ac 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -126,7 +126,7 @@ class LPKnapsackGurobi(SolverDO):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"]),
                                               int(fraction_decision_fixed*len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize()
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -341,7 +341,7 @@ class LPKnapsack(MilpSolver):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"]),
                                                int(fraction_decision_fixed * len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize(max_seconds=parameter_gurobi.TimeLimit,
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
-- 
2.43.0


From 02413ed43b8972dd9f8913ba935b421a29c692ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 128/146] fix: count the edges given to the colouring
 constraint model

---
 .../coloring/solvers/coloring_cp_solvers.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
index c235529..aa10c95 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
@@ -61,7 +61,7 @@ class ColoringCP(CPSolver):
         instance = Instance(solver, self.model)
         # Assign 4 to n
         instance["n_nodes"] = self.number_of_nodes
-        instance["n_edges"] = int(self.number_of_edges/2)
+        instance["n_edges"] = len(self.coloring_problem.graph.edges)
         instance["nb_colors"] = nb_colors
         print("nb colors ", nb_colors)
         keys = ["n_nodes", "n_edges", "nb_colors"]
-- 
2.43.0


From 6ded241d317fc3ca50a7fcb52dda8212f392b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 129/146] fix: name the nodes of the colouring programmes as
 the graph does

---
 .../coloring/solvers/coloring_lp_solvers.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..b533b5b 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -60,7 +60,7 @@ class ColoringLP(MilpSolver):
                                                              obj=0,
                                                              name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.addConstr(quicksum([colors_var[n, c] for c in range_color]) == 1)
         color_model.update()
         cliques = []
@@ -91,7 +91,7 @@ class ColoringLP(MilpSolver):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.addConstr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.addConstr(quicksum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         color_model.update()
         color_model.modelSense = GRB.MINIMIZE
@@ -179,7 +179,7 @@ class ColoringLP_MIP(ColoringLP):
                                                               obj=0,
                                                               name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.add_constr(xsum([colors_var[n, c] for c in range_color]) == 1)
         cliques = []
         g = self.graph.to_networkx()
@@ -209,7 +209,7 @@ class ColoringLP_MIP(ColoringLP):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.add_constr(xsum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         self.model = color_model
         self.variable_decision = {"colors_var": colors_var}
-- 
2.43.0


From b8d8b7055841b55a660f69f3827e8f11e52120d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 130/146] fix: build the facility programmes without the
 removed numpy alias

---
 .../facility/solvers/facility_lp_solver.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
-- 
2.43.0


From 9b7c8485e78c7219ebcc18a6cd030b346a77d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 131/146] fix: start the facility neighbourhood searches from
 the greedy solution

---
 .../facility/solvers/facility_cp_solvers.py                 | 2 +-
 .../facility/solvers/facility_lp_solver.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index a349ff1..e0ceb0f 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -85,7 +85,7 @@ class FacilityCP(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
         else:
             if verbose:
                 print("Get dummy solution")
diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..8affdd2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -212,7 +212,7 @@ class LP_Facility_Solver(MilpSolver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -382,7 +382,7 @@ class LP_Facility_Solver_CBC(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -559,7 +559,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
-- 
2.43.0


From 86fc6e4feb82a9bfe51ba7f6ae0451206ccd6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 132/146] fix: open the facility of customers without demand in
 the constraint models

---
 .../discrete_optimization/facility/minizinc/facility_int.mzn    | 2 +-
 .../facility/minizinc/facility_int_lns.mzn                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
index 84dd880..4d7e849 100644
--- a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
+++ b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
@@ -15,7 +15,7 @@ constraint forall(f in FACILITIES)
                                    else 0 
                                    endif)==capacity_used_by_facility[f]);
 constraint forall(f in FACILITIES)(capacity_used_by_facility[f]<=capacity[f]);
-constraint forall(f in FACILITIES)(used_facility[f]==1 <-> capacity_used_by_facility[f]>0);
+constraint forall(f in FACILITIES)(used_facility[f]==1 <-> exists(c in CUSTOMERS)(facility_for_customer[c]==f));
 
 var int: objective;
 var int: setup_cost;
diff --git a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
index c1ff434..af2a800 100644
--- a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
+++ b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
@@ -15,7 +15,7 @@ constraint forall(f in FACILITIES)
                                    else 0
                                    endif)==capacity_used_by_facility[f]);
 constraint forall(f in FACILITIES)(capacity_used_by_facility[f]<=capacity[f]);
-constraint forall(f in FACILITIES)(used_facility[f]==1 <-> capacity_used_by_facility[f]>0);
+constraint forall(f in FACILITIES)(used_facility[f]==1 <-> exists(c in CUSTOMERS)(facility_for_customer[c]==f));
 
 var int: objective;
 var int: setup_cost;
-- 
2.43.0


From ab54ee7b91503c41a686654d35fc92a26eb69d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 133/146] fix: start the programme neighbourhood search without
 a first solution

---
 .../builders/discrete_optimization/generic_tools/lns_mip.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..6e552a2 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -87,9 +87,9 @@ class LNS_MILP(SolverDO):
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
             best_solution = None
-            constraint_iterable = {"empty": []}
+            constraint_iterable = {}
             store_lns = None
         for iteration in range(nb_iteration_lns):
             result_store = self.milp_solver.solve(parameters_milp=parameters_milp,
-- 
2.43.0


From ef92d7678567be4f70278edceddbc11e65b057b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 134/146] fix: list the cliques of directed colouring graphs
 too

---
 .../discrete_optimization/coloring/coloring_toolbox.py        | 2 +-
 .../coloring/solvers/coloring_lp_solvers.py                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 50fcfe2..7c5013d 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -5,7 +5,7 @@ def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
     not_all = False
-    for c in nx.algorithms.clique.find_cliques(g):
+    for c in nx.algorithms.clique.find_cliques(g.to_undirected()):
         print(c)
         cliques += [c]
         nb += 1
diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index b533b5b..92874a6 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -66,7 +66,7 @@ class ColoringLP(MilpSolver):
         cliques = []
         g = self.graph.to_networkx()
         if use_cliques:
-            for c in nx.algorithms.clique.find_cliques(g):
+            for c in nx.algorithms.clique.find_cliques(g.to_undirected()):
                 cliques += [c]
             cliques = sorted(cliques, key=lambda x: len(x), reverse=True)
         else:
@@ -184,7 +184,7 @@ class ColoringLP_MIP(ColoringLP):
         cliques = []
         g = self.graph.to_networkx()
         if use_cliques:
-            for c in nx.algorithms.clique.find_cliques(g):
+            for c in nx.algorithms.clique.find_cliques(g.to_undirected()):
                 cliques += [c]
             cliques = sorted(cliques, key=lambda x: len(x), reverse=True)
         else:
-- 
2.43.0


From 89072482f53d1979df275043da593316bd989c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 135/146] fix: count the worse iterations of the programme
 neighbourhood search

---
 .../builders/discrete_optimization/generic_tools/lns_mip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 6e552a2..eee980d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -108,13 +108,17 @@ class LNS_MILP(SolverDO):
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
-            if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
+            elif sense == ModeOptim.MAXIMIZATION:
+                current_nb_iteration_no_improvement += 1
+            elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                 if fit < best_objective:
                     current_nb_iteration_no_improvement = 0
                 else:
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
+            elif sense == ModeOptim.MINIMIZATION:
+                current_nb_iteration_no_improvement += 1
             if skip_first_iteration and iteration == 0:
                 store_lns = result_store
             for s, f in result_store.list_solution_fits:
-- 
2.43.0


From def8ad82451dc4e233665bd22a5557c4b72a52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 136/146] fix: release the customers held by the facility
 neighbourhood search of OR-Tools

---
 .../facility/solvers/facility_lp_solver.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8affdd2..35f83d3 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -366,7 +366,7 @@ class LP_Facility_Solver_CBC(SolverDO):
 
     def remove_lns_constraint(self):
         for k in self.constraints_dict["lns"]:
-            self.model.remove(self.constraints_dict["lns"][k])
+            self.constraints_dict["lns"][k].SetBounds(-self.model.infinity(), self.model.infinity())
 
     def solve_lns(self,
                   fraction_to_fix_first_iter: float=0.,
-- 
2.43.0


From 784008f11dda2ad90f40be5260b30679ae31094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 137/146] fix: give partial RCPSP solutions the fields that the
 solvers read

---
 .../discrete_optimization/rcpsp/rcpsp_model.py         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 9ba0a5e..37c21d4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -463,7 +463,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -471,6 +475,10 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together  # pairs of tasks starting at the same time
+        self.start_at_end = start_at_end  # (t1, t2) : t2 starts when t1 ends
+        self.start_after_nunit = start_after_nunit  # (t1, t2, delta) : t2 starts at least delta after the start of t1
+        self.start_at_end_plus_offset = start_at_end_plus_offset  # (t1, t2, delta) : same, from the end of t1
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From 83f5e9eaf10bf5d216d5bee12dcf2ad141f63dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 138/146] fix: impose the modes of a partial solution on the
 tasks they are given for

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index ffc5bde..53f84be 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -334,7 +334,7 @@ class CP_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -587,7 +587,7 @@ class CP_MRCPSP_MZN_NOBOOL(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -732,7 +732,7 @@ class CP_MRCPSP_MZN_MODES:
         if p_s is not None:
             constraint_strings = []
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From b154a1e17f6092b340104db7c14d4913f2a650d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 139/146] fix: number the modes of the mode setting model
 consecutively

---
 .../rcpsp/solver/cp_solvers.py                  | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index 53f84be..666957e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -686,19 +686,16 @@ class CP_MRCPSP_MZN_MODES:
         instance["n_opt"] = n_opt
 
         modes = []
-        counter = 0
         self.modeindex_map = {}
+        general_counter = 1
 
         for act in sorted_tasks:
-            tmp = list(self.rcpsp_model.mode_details[act].keys())
-            # tmp = [counter + x for x in tmp]
-            for i in range(len(tmp)):
-                original_mode_index = tmp[i]
-                mod_index = counter+tmp[i]
-                tmp[i] = mod_index
-                self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
-            modes.append(set(tmp))
-            counter = tmp[-1]
+            set_mode_task = set()
+            for original_mode_index in self.rcpsp_model.mode_details[act].keys():
+                set_mode_task.add(general_counter)
+                self.modeindex_map[general_counter] = {'task': act, 'original_mode_index': original_mode_index}
+                general_counter += 1
+            modes.append(set_mode_task)
 
         # print('modes: ', modes)
         instance['modes'] = modes
-- 
2.43.0


From 20fd64750a2187ba7d2abbb2ba6b29adaf4f759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 140/146] fix: let the RCPSP calendar model use the whole
 calendar

---
 .../rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
index 13ffdcb..edeb7ce 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
@@ -61,9 +61,8 @@ int: max_mrreq = max(k in Res, m in Mod)(mrreq[k,m]);
 %---------------------------------------------------------------------------%
 % Variables
 
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
-
 int: max_time;
+int: UB = max_time; % tasks may have to wait until the capacities of the calendar allow them
 set of int: TIME_ARR = 1..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
 
-- 
2.43.0


From 794e0e4e9bbe098aa0100691ca3fb5f7269e185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 141/146] fix: do not read capacities beyond the calendar

---
 .../discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
index 4ed6366..f8635d9 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
@@ -32,7 +32,7 @@ predicate cumulative_time_calendar(array[int] of var int: s,
         int: early = min([ lb(s[i]) | i in Tasks ]),
         int: late  = max([ ub(s[i]) + ub(d[i]) | i in Tasks ])
     } in (
-        forall( t in early..late ) (
+        forall( t in early..late where t + 1 in index_set(b) ) (
             b[t+1] >= sum( i in Tasks ) (
                 bool2int(s[i] <= t /\ t < s[i] + d[i]) * r[i]
             )
-- 
2.43.0


From 0c851af8652a0dbfbc0fb67c2d5918ebb31159dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 142/146] fix: report the modes of the tasks the RCPSP executor
 scheduled

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..d10fb98 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -439,7 +439,7 @@ class Executor(PileSolverRCPSP):
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-                            rcpsp_modes=[modes_dict[i+1]
+                            rcpsp_modes=[modes_dict[i+2]
                                          for i in range(self.n_jobs)],
                             rcpsp_schedule_feasible=True)
         result_storage = ResultStorage(list_solution_fits=[(sol,
-- 
2.43.0


From e8b6ea4a7dc789288ae2a5d2f70d808e0c995057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 143/146] fix: name the best, not the worst, RCPSP solution of
 the pool best

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..1fcd8c7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -190,7 +190,7 @@ class LP_RCPSP(MilpSolver):
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
@@ -390,7 +390,7 @@ class LP_MRCPSP(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
@@ -634,7 +634,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
+                             best_solution=max(list_solution_fits,
                                                key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
-- 
2.43.0


From c44d21ba820e056131250b264226e96d66378d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 144/146] fix: let the multi-mode programmes end when all tasks
 run one after the other

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 1fcd8c7..ec777ac 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -269,7 +269,7 @@ class LP_MRCPSP(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)+1))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = range(int(makespan+1))
@@ -473,7 +473,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(sum(p))))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(sum(p)+1)))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = list(range(int(makespan+1)))
-- 
2.43.0


From eb48daacf566b46fcf43eee8a3586e13373a7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 145/146] fix: let the critical path take no shortcut past a
 critical task

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..16e7902 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -115,7 +115,8 @@ class CPM(SolverDO):
         while cur_node is not self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From bb7af56ae045af6b521bfdeda79f18838a81e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 146/146] fix: look at the whole duration of a task before the
 time loop starts it

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index 16e7902..dc524c7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -327,7 +327,7 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
-                                    break
+                                        break
                             if not valid:
                                 break
                         if valid:
-- 
2.43.0

