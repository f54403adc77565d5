From aaf691df3694e4a98c4a5eec6578c0f0e6c5ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 01/52] fix: query no longer removes unconnected nodes from the
 queried model

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..6ac4325 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        unconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if unconnected_nodes and cbn is self:
+            cbn = self.copy()  # never remove nodes from the model being queried
+        for node in unconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From 75eb27663001478de3f6c2830e547d13b1b58171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 02/52] fix: contexts and subgames may involve variables with a
 plain TabularCPD

---
 pycid/core/macid.py      | 2 +-
 pycid/core/macid_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..3765ba2 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -107,7 +107,7 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..eb4d563 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -158,7 +158,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From c0b4322404442205ce1c1ef1fa95677c08549762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 03/52] fix: active_trail_nodes and is_dconnected work without
 observed variables

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index eb4d563..f1baf09 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -419,7 +419,7 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
-        return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
+        return super().active_trail_nodes(variables, list(observed or []), **kwargs)  # type: ignore
 
     def copy_without_cpds(self) -> MACIDBase:
         """copy the MACIDBase object without its CPDs"""
-- 
2.43.0


From d4fc00a58ef9f2115b10150eaf25e53cfa764811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 04/52] fix: an optimal policy can be imputed to a decision
 with no downstream utility

---
 pycid/core/macid_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index f1baf09..fdda67e 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -394,7 +394,10 @@ class MACIDBase(CausalBayesianNetwork):
             eu = {}
             for d in domain:
                 parent_values[decision] = d
-                eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                if descendant_utility_nodes:
+                    eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                else:  # all actions are equally good
+                    eu[d] = 0
             return max(eu, key=eu.get)  # type: ignore
 
         self.add_cpds(StochasticFunctionCPD(decision, opt_policy, self, domain=domain, label="opt"))
-- 
2.43.0


From 8fb97fcb11181d9654cace70863538a8a408edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 05/52] fix: impute_optimal_decision tolerates decision
 contexts that cannot occur

---
 pycid/core/macid_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index fdda67e..54e319c 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -389,9 +389,19 @@ class MACIDBase(CausalBayesianNetwork):
         descendant_utility_nodes = list(set(utility_nodes).intersection(nx.descendants(self, decision)))
         copy = self.copy()  # using a copy "freezes" the policy so it doesn't adapt to future interventions
 
+        fully_mixed = self.copy()
+        fully_mixed.impute_fully_mixed_policy_profile()
+        parents = self.get_parents(decision)
+
+        def is_impossible(context: Dict[str, Outcome]) -> bool:
+            """Check if no policy can reach the decision context"""
+            return bool(parents) and fully_mixed.query(parents, {}).get_value(**context) == 0
+
         @lru_cache(maxsize=1000)
         def opt_policy(**parent_values: Outcome) -> Outcome:
             eu = {}
+            if is_impossible(parent_values):
+                return domain[0]
             for d in domain:
                 parent_values[decision] = d
                 if descendant_utility_nodes:
-- 
2.43.0


From e6c47eb3530def2967b4a925b17ce5f5efb3710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 06/52] fix: interventions keep the order of the intervened
 variable's domain

---
 pycid/core/causal_bayesian_network.py | 12 ++++++++----
 pycid/core/cpd.py                     | 13 +++++++++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 6ac4325..fed18cf 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -73,7 +73,9 @@ class CausalBayesianNetwork(BayesianNetwork):
                 cpd.store_state_names(None, None, dict(self.domain))
 
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
-            if isinstance(relationship, TabularCPD):
+            if isinstance(relationship, ConstantCPD):
+                return relationship.copy(self.cbn)  # adapts to the current parents
+            elif isinstance(relationship, TabularCPD):
                 return relationship
             elif isinstance(relationship, Callable):  # type: ignore
                 return StochasticFunctionCPD(variable, relationship, self.cbn)  # type: ignore
@@ -192,9 +194,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
                 self.remove_edge(p, variable)
-            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
-            new_dist[intervention[variable]] = 1
-            self.model[variable] = new_dist
+            outcome = intervention[variable]
+            domain = list(self.model.domain[variable])  # keep the order that the children's CPDs rely on
+            if outcome not in domain:
+                domain.append(outcome)
+            self.model[variable] = ConstantCPD(variable, {outcome: 1}, self, domain=domain)
 
     def expected_value(
         self,
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..8baa8d0 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -229,6 +229,15 @@ class ConstantCPD(StochasticFunctionCPD):
     ):
         super().__init__(variable, lambda **pv: dictionary, cbn, domain=domain, label=label or str(dictionary))
 
+    def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> ConstantCPD:
+        return ConstantCPD(
+            str(self.variable),
+            self.func(),
+            cbn if cbn is not None else self.cbn,
+            domain=list(self.force_domain) if self.force_domain else None,
+            label=self.label,
+        )
+
 
 class DecisionDomain(ConstantCPD):
     """DecisionDomain is used to specify the domain for a decision
@@ -249,8 +258,8 @@ class DecisionDomain(ConstantCPD):
         """
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
-    def copy(self) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+    def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> DecisionDomain:
+        return DecisionDomain(str(self.variable), cbn if cbn is not None else self.cbn, domain=list(self.domain))
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From a16cfc45b2a70762c227e43ffa37efa7d5b2753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 07/52] fix: changing node roles no longer modifies the
 constructor's arguments

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 54e319c..3b5cbd2 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # copy the lists, as make_decision, make_utility and make_chance modify them
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From ec55ac93c4ca75f7416b219daaab5722774e3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 08/52] fix: copies keep agents that lack decisions or
 utilities

---
 pycid/core/cid.py        |  6 +-----
 pycid/core/macid.py      |  6 +-----
 pycid/core/macid_base.py | 17 ++++++++++++-----
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..6c40127 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -74,11 +74,7 @@ class CID(MACIDBase):
         new = CID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
-                new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
-                new.make_utility(utility, agent)
+        self._copy_agents(new)
         return new
 
     def _get_color(self, node: str) -> str:
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 3765ba2..7a9033d 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -214,9 +214,5 @@ class MACID(MACIDBase):
         new = MACID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
-                new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
-                new.make_utility(utility, agent)
+        self._copy_agents(new)
         return new
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 3b5cbd2..4b5d254 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -275,7 +275,7 @@ class MACIDBase(CausalBayesianNetwork):
             agents = [agent]
 
         for a in agents:
-            rg = RelevanceGraph(self, self.agent_decisions[a])
+            rg = RelevanceGraph(self, self.agent_decisions.get(a, []))
             if not rg.is_acyclic():
                 return False
         return True
@@ -440,12 +440,19 @@ class MACIDBase(CausalBayesianNetwork):
         new = MACIDBase()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        self._copy_agents(new)
+        return new
+
+    def _copy_agents(self, new: MACIDBase) -> None:
+        """Give new the same agents as self, including agents that only have decisions or only have utilities"""
+        for agent, decisions in self.agent_decisions.items():
+            new.agent_decisions.setdefault(agent, [])
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            new.agent_utilities.setdefault(agent, [])
+            for utility in utilities:
                 new.make_utility(utility, agent)
-        return new
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
         """
-- 
2.43.0


From 8d20906f8183728166a6c18d1d6f4cff2f2051f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 09/52] fix: mechanism graphs reject exactly the node names
 that clash with mechanism nodes

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 4b5d254..e3db312 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -493,8 +493,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node + "mec" in cid.nodes:
+                raise ValueError(f"can't create a mechanism graph when {node}mec is already a node")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From af8f1f3e69769393773173f43956a92920a413d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 10/52] fix: callables without source code can be used as
 relationships

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 8baa8d0..2b551d9 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -138,7 +138,7 @@ class StochasticFunctionCPD(TabularCPD):
         sl = ""
         try:
             sl = getsourcelines(function)[0][0]
-        except OSError:
+        except (OSError, TypeError):
             lambda_pos = -1  # Could not find source
         else:
             var_pos = sl.find(self.variable)
-- 
2.43.0


From ea435a8ada97f63631f1b2cac2c02b28247b01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 11/52] fix: RandomCPD is determined by its seed, also for seed
 0 and across processes

---
 pycid/random/random_cpd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..119bbc0 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import zlib
 from typing import Iterator, Mapping, Optional, Sequence
 
 import numpy as np
@@ -39,12 +40,14 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        # crc32 rather than hash, as the hash of a string differs between python processes
+        context = repr(sorted(parent_values.items(), key=lambda item: item[0]))
+        with temp_seed((self.seed + zlib.crc32(context.encode())) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
-- 
2.43.0


From 47d2461294b240985a11310b17f5321bcd13099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 12/52] fix: random_dag respects max_in_degree and terminates
 for every density

---
 pycid/random/random_dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..4d31fc0 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -45,7 +45,9 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
 
     # Then add edges until desired density is reached
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    # the maximal in_degree may rule out the desired density
+    attainable_number_of_edges = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    while dag.number_of_edges() < min(int(edge_density * maximum_number_of_edges), attainable_number_of_edges):
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From b6bd6f34b987247bb0ea30f4f07aa37115f97ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 13/52] fix: decisions of an agent with the same parents have
 separate information sets

---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..bcdc536 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -76,7 +76,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -182,7 +182,7 @@ def behavior_to_cpd(
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From e1c0ca5b230591b8ae4a9dd3d109381fefcbcbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 14/52] fix: games with hidden chance nodes or impossible
 observations can be exported and solved

---
 pycid/export/gambit.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index bcdc536..54f3c7a 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -57,6 +57,8 @@ def macid_to_efg(
     # nodes referenced in the game tree. Root has node_idx (0,), rest are (0, n, m, ...)
     # state is a dict of node_idx:state of partial instantiations of nodes
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]] = defaultdict(dict)
+    # nodes that chance never reaches
+    impossible_node_idxs: Set[Tuple[int, ...]] = set()
     # get cardinality of each node
     num_children = [1] + [len(macid.model.domain[node]) for node in sorted_game_tree_nodes]
     range_num_children = [list(range(x)) for x in num_children]
@@ -67,8 +69,6 @@ def macid_to_efg(
         for node_idx in itertools.product(*range_num_children[:i]):
             # get current node
             cur_node = _get_cur_node(game, node_idx)
-            parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
@@ -76,6 +76,8 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
+                parents = macid.get_parents(node)
+                parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
                 parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
@@ -96,18 +98,26 @@ def macid_to_efg(
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
                 # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
-                move = cur_node.append_move(game.players.chance, factor.cardinality)
-                # add state info
+                # condition on all earlier nodes, as some parents of the node may not be part of the tree
                 actions = macid.model.domain[node]
-                for action_idx, prob in enumerate(factor.values):
+                if node_idx in impossible_node_idxs:
+                    probabilities = [1 / len(actions)] * len(actions)  # never reached, so can be anything
+                else:
+                    probabilities = macid.query([node], context=node_idx_to_state[node_idx]).values
+                move = cur_node.append_move(game.players.chance, len(actions))
+                # add state info
+                for action_idx, prob in enumerate(probabilities):
                     move.actions[action_idx].label = str(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: actions[action_idx]})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
+                    if prob == 0:
+                        impossible_node_idxs.add(node_idx + (action_idx,))
+            if node_idx in impossible_node_idxs:
+                impossible_node_idxs.update(node_idx + (action_idx,) for action_idx in range(len(actions)))
 
-    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg)
+    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg, impossible_node_idxs)
 
     return game, parents_to_infoset
 
@@ -200,7 +210,8 @@ def behavior_to_cpd(
             return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
-        return action_probs
+        # unreachable infosets don't get any probabilities: there any behavior is fine
+        return action_probs if any(action_probs.values()) else {}
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
         """Adds __name__ and __doc__ to partial functions"""
@@ -240,6 +251,7 @@ def _add_payoffs(
     range_num_children: List[List],
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]],
     agents_in_sg: Iterable[Hashable],
+    impossible_node_idxs: Set[Tuple[int, ...]],
 ) -> pygambit.Game:
     """add payoffs to the game as leave nodes"""
     for node_idx in itertools.product(*range_num_children):
@@ -248,7 +260,8 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            impossible = node_idx in impossible_node_idxs
+            payoff = 0 if impossible else macid.expected_utility(context=context, agent=agent)
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From e963b2234286e01ca13ad362b647cbc12183fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 15/52] fix: subgames keep the order of the domains of
 marginalised nodes

---
 pycid/core/macid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 7a9033d..70d3b47 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple
 import networkx as nx
 from pgmpy.factors.discrete import TabularCPD
 
-from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
+from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
 from pycid.core.relevance_graph import CondensedRelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
@@ -107,7 +107,8 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
+            domain = list(macid_copy.model.domain[node])  # the subgame must not reorder the domain
+            sg_macid.model[node] = ConstantCPD(node, dict(zip(domain, unpack_probs)), sg_macid, domain=domain)
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From ff5c1178bbf1a5b92b31c6a8966b8b8c4cf6f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 16/52] fix: games can be exported and solved again after
 imputing a policy

---
 pycid/export/gambit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 54f3c7a..519c8be 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -8,7 +8,7 @@ from warnings import warn
 
 import pygambit
 
-from pycid.core.cpd import StochasticFunctionCPD
+from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import MACIDBase
 
 Outcome = Any
@@ -41,6 +41,12 @@ def macid_to_efg(
     if agents_in_sg is None:
         agents_in_sg = macid.agents
 
+    # the game leaves its decisions open, also if a policy has already been imputed to them
+    if any(not isinstance(macid.get_cpds(dec), DecisionDomain) for dec in decisions_in_sg):
+        macid = macid.copy()
+        for dec in decisions_in_sg:
+            macid.model[dec] = macid.model.domain[dec]
+
     # choose only relevant nodes
     game_tree_nodes = set(
         list(decisions_in_sg) + [parent for dec in decisions_in_sg for parent in macid.get_parents(dec)]
-- 
2.43.0


From ddbd69a6a30b546bb0d13416665789de56266c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 17/52] fix: quantitative_voc no longer changes the cid

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..c53ce49 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()  # leave the user's cid as it is
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From 47e01d8fcea271929a96169694ff031e31aac41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 18/52] fix: quantitative_voc of a utility node keeps counting
 that utility

---
 pycid/analyze/value_of_control.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index c53ce49..09765cc 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -64,6 +64,11 @@ def quantitative_voc(cid: CID, node: str) -> float:
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
+    if node in cid.utilities:  # the agent still values the outcome of a utility node it controls
+        value_node = f"value of {node}"
+        cid.add_edge(node, value_node)
+        cid.make_utility(value_node, cid.utility_agent[node])
+        cid.add_cpds(**{value_node: lambda **pv: pv[node]})
     cid.make_decision(node)
     # optimal policy in the modified CID where the agent can now decide the CPD for node.
     cid.impute_optimal_policy()
-- 
2.43.0


From c9ae8c05740c612a30a56f8ba87604ce9d8a2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 19/52] fix: removing a node also removes its decision or
 utility role

---
 pycid/core/macid_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index e3db312..d647472 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -139,6 +139,12 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """Remove a node, and any role it has"""
+        if node in self.nodes:
+            self.make_chance(node)
+        super().remove_node(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From 3c990246cf42241e4867df00639a4d5b558365af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 20/52] fix: expected_value returns the values in the order of
 the variables

---
 pycid/core/causal_bayesian_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fed18cf..39102f8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -217,15 +217,18 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-        ev = np.array([0.0 for _ in factor.variables])
+        # the factor may order the variables differently
+        var_idxs = [factor.variables.index(variable) for variable in variables]
+        ev = np.array([0.0 for _ in variables])
         for idx, prob in np.ndenumerate(factor.values):  # type: ignore
             # idx contains the information about the value each variable takes
             # we use state_names to convert index into the actual value of the variable
             ev += prob * np.array(  # type: ignore
-                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in enumerate(factor.variables)]
+                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in zip(var_idxs, variables)]
             )
             if np.isnan(ev).any():
                 raise RuntimeError(
-- 
2.43.0


From f97b5bff94a171de24d5f5a6926c95069e07d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 21/52] fix: query knows the outcome names of every variable

Belief propagation's cliques lost the state names of variables for which they
hold no factor, so queries with context or expected values could silently
confuse outcomes with their positions in the domain.
---
 pycid/core/causal_bayesian_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 39102f8..697fbf2 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -176,6 +176,9 @@ class CausalBayesianNetwork(BayesianNetwork):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
         bp = BeliefPropagation(cbn)
+        # cliques without a factor for some of their variables lack those variables' state names
+        for clique_factor in bp.junction_tree.get_factors():
+            clique_factor.store_state_names(None, None, dict(cbn.model.domain))
 
         with np.errstate(invalid="ignore"):  # Suppress numpy warnings for 0/0
             factor = bp.query(query, context, show_progress=False)
-- 
2.43.0


From f18ba195dbd5621c99c2892e496f77bae54031d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 22/52] fix: the requisite graph has no nonrequisite links left

One pass over the decisions is not enough with several agents, where a link
can become nonrequisite once links of other decisions have been removed; the
result then depended on the order of the decisions.
---
 pycid/analyze/requisite_graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 2e70d90..b447a41 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -43,8 +43,13 @@ def requisite_graph(cid: MACIDBase) -> MACIDBase:
     requisite_graph = cid.copy()
     decisions = cid.get_valid_order()
 
-    for decision in reversed(decisions):
-        non_requisite_nodes = set(cid.get_parents(decision)) - set(requisite_list(requisite_graph, decision))
-        for nr in non_requisite_nodes:
-            requisite_graph.remove_edge(nr, decision)
+    reduced = True
+    while reduced:  # a removed link can make the links of other decisions nonrequisite
+        reduced = False
+        for decision in reversed(decisions):
+            requisite_nodes = requisite_list(requisite_graph, decision)
+            for parent in requisite_graph.get_parents(decision):
+                if parent not in requisite_nodes:
+                    requisite_graph.remove_edge(parent, decision)
+                    reduced = True
     return requisite_graph
-- 
2.43.0


From fff3f77baff8bc848c9e8651678a97d7ef445f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 23/52] fix: fork nodes on an effective path need not be
 effective decisions

---
 pycid/analyze/reasoning_patterns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..763b215 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,8 +34,9 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective, ie all its decision nodes are, except possibly the first and fork nodes."""
+    forks = {path[i] for i in range(1, len(path) - 1) if get_motif(mb, path, i) == "fork"}
+    dec_nodes_in_path = set(mb.decisions).intersection(path[1:]) - forks  # exclude first node of the path
     # all([]) evaluates to true => this covers case where path has no decision nodes
     return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
 
-- 
2.43.0


From 03fdc47e58c2871de9d38d496df9e551f0f0a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 24/52] fix: signaling considers every effective back-door path

Only the first path found was considered, which depends on the iteration order
of sets, and a path without a key node raised a ValueError.
---
 pycid/analyze/reasoning_patterns.py | 37 +++++++++++++----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 763b215..76ee70c 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -53,19 +53,17 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
+) -> Iterator[List[str]]:
     """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
+    Iterate over the effective backdoor paths not blocked if we condition on nodes in set w.
     """
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -168,21 +166,20 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
-
-                if _get_key_node(macid, path):
-                    key_node = _get_key_node(macid, path)
-                else:
-                    return False
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
+                    try:
+                        key_node = _get_key_node(macid, path)
+                    except ValueError:  # a directed path from u_b to the decision has no key node
+                        continue
 
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From a98a15932dd7a3985b352b378a0c1947d134dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 25/52] fix: revealing or denying requires an effective
 front-door path

---
 pycid/analyze/reasoning_patterns.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 76ee70c..93d83fd 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -217,8 +217,16 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
-                    return True
+                for path in find_all_undir_paths(macid, decision, u_b):
+                    is_frontdoor_path = path[0] in macid.get_parents(path[1])
+                    is_indirect_path = "collider" in get_motifs(macid, path)
+                    if (
+                        is_frontdoor_path
+                        and is_indirect_path
+                        and is_active_path(macid, path, cond_nodes)
+                        and _path_is_effective(macid, path, effective_set)
+                    ):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 4c57e9854e60d1e77fb859adf1a7815838bbaee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 26/52] fix: functions whose arguments are not the parents are
 rejected

---
 pycid/core/cpd.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 2b551d9..5537210 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -158,14 +158,16 @@ class StochasticFunctionCPD(TabularCPD):
 
     def check_function_arguments_match_parent_names(self) -> None:
         """Raises a ValueError if the parents in the CID don't match the argument to the specified function"""
-        sig = inspect.signature(self.stochastic_function).parameters
+        try:
+            sig = inspect.signature(self.func).parameters
+        except (TypeError, ValueError):  # some builtins don't have a signature
+            return
         arg_kinds = [arg_kind.kind.name for arg_kind in sig.values()]
-        args = set(sig)
-        if "VAR_KEYWORD" not in arg_kinds and args != set(self.cbn.get_parents(self.variable)):
-            raise ValueError(
-                f"function for {self.variable} mismatch parents on"
-                f" {args.symmetric_difference(set(self.cbn.get_parents(self.variable)))}, "
-            )
+        args = {arg for arg in sig if sig[arg].kind.name != "VAR_POSITIONAL"}
+        optional_args = {arg for arg in args if sig[arg].default is not inspect.Parameter.empty}
+        mismatch = args.symmetric_difference(set(self.cbn.get_parents(self.variable))) - optional_args
+        if "VAR_KEYWORD" not in arg_kinds and mismatch:
+            raise ValueError(f"function for {self.variable} mismatch parents on {mismatch}, ")
 
     def parent_values(self) -> Iterator[Dict[str, Outcome]]:
         """Return a list of lists for the values each parent can take (based on the parent state names)"""
-- 
2.43.0


From 026140ef1505cc9177c41b5dae629d135bf5778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 27/52] fix: distributions whose sum exceeds one by a rounding
 error are accepted

---
 pycid/core/cpd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 5537210..3719ae3 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -96,7 +96,8 @@ class StochasticFunctionCPD(TabularCPD):
             """Complete a probability dictionary with probabilities for missing outcomes"""
             prob_dictionary = {key: value for key, value in prob_dictionary.items() if value is not None}
             missing_outcomes = set(self.domain) - set(prob_dictionary.keys())
-            missing_prob_mass = 1 - sum(prob_dictionary.values())  # type: ignore
+            # the sum can exceed 1 by a rounding error
+            missing_prob_mass = max(0, 1 - sum(prob_dictionary.values()))  # type: ignore
             for outcome in missing_outcomes:
                 prob_dictionary[outcome] = missing_prob_mass / len(missing_outcomes)
             return prob_dictionary
-- 
2.43.0


From 78066ca42b909f0bf34d7a58574c8d7d28332e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 28/52] fix: constants added before their parents are
 instantiated when an edge is removed

---
 pycid/core/causal_bayesian_network.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 697fbf2..756eb41 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import collections
-from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set, Tuple, Union
+from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Sequence, Set, Tuple, Union
 
 import matplotlib.pyplot as plt
 import networkx as nx
@@ -99,14 +99,17 @@ class CausalBayesianNetwork(BayesianNetwork):
     def remove_edge(self, u: str, v: str) -> None:
         """removes an edge u to v that exists from the CBN"""
         super().remove_edge(u, v)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
-            self.model[v] = self.model[v]
+        self._adapt_to_parents(v)
 
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
-            self.model[v] = self.model[v]
+        self._adapt_to_parents(v)
+
+    def _adapt_to_parents(self, node: str) -> None:
+        """constants and decision options don't depend on the parents, so they apply to the new parents too"""
+        if isinstance(self.model.get(node), (ConstantCPD, Mapping, Sequence)):
+            self.model[node] = self.model[node]
 
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
-- 
2.43.0


From 655c91b0b1fdef29467b5401f5774606a5010804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 29/52] fix: a child can be added after its parent's
 distribution has been removed

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 3719ae3..2010649 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -104,7 +104,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
-        evidence_card = [cbn.get_cardinality(p) for p in evidence]
+        evidence_card = [len(cbn.model.domain[p]) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
-- 
2.43.0


From 8bcc678859c9c35b07e097a9b87c4a1cb0135aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 30/52] fix: remove_node also removes relationships that have
 not been instantiated

---
 pycid/core/causal_bayesian_network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 756eb41..8f46c77 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -106,6 +106,13 @@ class CausalBayesianNetwork(BayesianNetwork):
         super().add_edge(u, v, **kwargs)
         self._adapt_to_parents(v)
 
+    def remove_node(self, node: str) -> None:
+        """removes a node and its relationship, also if this has not been instantiated yet"""
+        if node in self.model:
+            del self.model[node]
+        self.model.domain.pop(node, None)
+        super().remove_node(node)
+
     def _adapt_to_parents(self, node: str) -> None:
         """constants and decision options don't depend on the parents, so they apply to the new parents too"""
         if isinstance(self.model.get(node), (ConstantCPD, Mapping, Sequence)):
-- 
2.43.0


From eaf96a5a718ce532da4ed503e3330c5472d8b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 31/52] fix: copies of copies no longer depend on the original
 model

---
 pycid/core/causal_bayesian_network.py |  8 +++++++-
 pycid/core/cpd.py                     | 16 ++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 8f46c77..e7b1f4c 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -270,7 +270,13 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                if not isinstance(relationship, ConstantCPD):  # the new model makes its own copies of constants
+                    relationship = relationship.copy(model_copy)
+            elif hasattr(relationship, "copy"):
+                relationship = relationship.copy()
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 2010649..733b963 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import inspect
 import itertools
 from inspect import getsourcelines
@@ -187,14 +188,13 @@ class StochasticFunctionCPD(TabularCPD):
             set().union(*[self.stochastic_function(**x).keys() for x in self.parent_values()])  # type: ignore
         )
 
-    def copy(self) -> StochasticFunctionCPD:
-        return StochasticFunctionCPD(
-            str(self.variable),
-            self.func,
-            self.cbn,
-            domain=list(self.force_domain) if self.force_domain else None,
-            state_names=self.state_names,
-        )
+    def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> StochasticFunctionCPD:
+        """copy the table as it is, rather than computing it from a self.cbn that may have changed since"""
+        new = copy.copy(self)
+        new.cbn = cbn if cbn is not None else self.cbn
+        for attribute in ("variables", "cardinality", "values", "state_names", "name_to_no", "no_to_name"):
+            setattr(new, attribute, getattr(self, attribute).copy())
+        return new
 
     def __repr__(self) -> str:
         dictionary: Dict[str, Union[Dict, Outcome]] = {}
-- 
2.43.0


From 5039d0b83d6aff6b7686ae897d5545bb23538b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 32/52] fix: queries with an unspecified decision as evidence

---
 pycid/core/cpd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 733b963..0947ce4 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -233,10 +233,13 @@ class ConstantCPD(StochasticFunctionCPD):
         super().__init__(variable, lambda **pv: dictionary, cbn, domain=domain, label=label or str(dictionary))
 
     def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> ConstantCPD:
+        """copy the table as it is, or adapt it to the parents in the given cbn"""
+        if cbn is None:
+            return super().copy()  # type: ignore
         return ConstantCPD(
             str(self.variable),
             self.func(),
-            cbn if cbn is not None else self.cbn,
+            cbn,
             domain=list(self.force_domain) if self.force_domain else None,
             label=self.label,
         )
@@ -262,7 +265,9 @@ class DecisionDomain(ConstantCPD):
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
     def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), cbn if cbn is not None else self.cbn, domain=list(self.domain))
+        if cbn is None:
+            return super().copy()  # type: ignore
+        return DecisionDomain(str(self.variable), cbn, domain=list(self.domain))
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From 0fb1a06a137af7aa12dee9ad2af8ff7eafacb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 33/52] fix: samples follow the model whatever the order and
 values of the domains

---
 pycid/core/causal_bayesian_network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index e7b1f4c..1ce8a8c 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -9,7 +9,6 @@ import numpy as np
 from pgmpy.factors.discrete import TabularCPD
 from pgmpy.inference.ExactInference import BeliefPropagation
 from pgmpy.models import BayesianNetwork
-from pgmpy.sampling import BayesianModelSampling
 
 from pycid.core.cpd import ConstantCPD, Outcome, ParentsNotReadyException, StochasticFunctionCPD
 
@@ -256,8 +255,16 @@ class CausalBayesianNetwork(BayesianNetwork):
         """
         Generates a sample from the joint distribution, and returns it as a dictionary {variable: outcome}
         """
-        sampled_df = BayesianModelSampling(self).forward_sample(size=1, seed=seed, show_progress=False)
-        return {var: sampled_df[var][0] for var in sampled_df.columns}
+        # pgmpy's forward_sample confuses parent outcomes with their positions in the domain, so isn't used here
+        self.check_model()
+        rng = np.random if seed is None else np.random.RandomState(seed)
+        sampled_no: Dict[str, int] = {}
+        for node in nx.topological_sort(self):
+            cpd = self.get_cpds(node)
+            index = tuple(sampled_no[parent] for parent in cpd.variables[1:])
+            probabilities = cpd.values[(slice(None),) + index]
+            sampled_no[node] = rng.choice(len(probabilities), p=probabilities / probabilities.sum())
+        return {node: self.model.domain[node][sampled_no[node]] for node in self.nodes}
 
     def copy_without_cpds(self) -> CausalBayesianNetwork:
         """copy the CausalBayesianNetwork object"""
-- 
2.43.0


From ae2d50d68c86d58f74649d7961bc4d11cae2a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 34/52] fix: optimal policies include ties whose expected
 utilities cancel out to zero

---
 pycid/core/macid_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index d647472..bbb92b8 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -348,12 +348,16 @@ class MACIDBase(CausalBayesianNetwork):
             ):
                 macid.impute_random_decision(d)
 
+        # utilities that cancel out to zero leave a rounding error, which no relative tolerance accounts for
+        utility_scale = sum(max(map(abs, macid.model.domain[u])) for u in macid.agent_utilities[agent])
+        abs_tol = 1e-12 * utility_scale
+
         optimal_policies = []
         max_utility = float("-inf")
         for policy in macid.pure_policies(decisions):
             macid.add_cpds(*policy)
             expected_utility = macid.expected_utility({}, agent=agent)
-            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol):
+            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol, abs_tol=abs_tol):
                 optimal_policies.append(policy)
             elif expected_utility > max_utility:
                 optimal_policies = [policy]
-- 
2.43.0


From 79f173ae833896dbd1117d328ba3cf9d00bd067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 35/52] fix: subgames contain active decisions that have
 neither parents nor influence

---
 pycid/core/macid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 70d3b47..79008cb 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -89,6 +89,7 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent] = [node]
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        sg_macid.add_nodes_from(node for node in self.nodes if node in r_nodes_plus_decs)  # also those without edges
 
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From ec95331bfbbd694f0ad9c6cb4dafa806b5c330ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 36/52] fix: the active decisions of a subgame are left open

---
 pycid/core/macid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 79008cb..a5a2e1c 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -95,8 +95,10 @@ class MACID(MACIDBase):
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
         macid_copy = self.copy()
         for d in macid_copy.decisions:
-            if not macid_copy.is_s_reachable(active_subgame_decs, d) and isinstance(
-                macid_copy.get_cpds(d), DecisionDomain
+            if (
+                d not in active_subgame_decs
+                and not macid_copy.is_s_reachable(active_subgame_decs, d)
+                and isinstance(macid_copy.get_cpds(d), DecisionDomain)
             ):
                 macid_copy.impute_random_decision(d)
 
-- 
2.43.0


From 6b53edf30b1a1cc683e376c3cfebda27549f31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 37/52] fix: games in which an agent has no relevant utility
 can be solved

---
 pycid/core/macid.py      | 3 ++-
 pycid/core/macid_base.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a5a2e1c..121360e 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -80,7 +80,8 @@ class MACID(MACIDBase):
             else:
                 sg_agents_decs[agent] = [node]
         # finds the utilities_agents mapping in this subgame
-        sg_agents_utils: Dict[AgentLabel, List[str]] = {}
+        # (an agent may have decisions but no relevant utilities)
+        sg_agents_utils: Dict[AgentLabel, List[str]] = {agent: [] for agent in sg_agents_decs}
         for node in set(r_nodes).intersection(set(self.utilities)):
             agent = self.utility_agent[node]
             if agent in sg_agents_utils:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index bbb92b8..db59531 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -207,6 +207,8 @@ class MACIDBase(CausalBayesianNetwork):
 
         agent: Evaluate the utility of this agent.
         """
+        if not self.agent_utilities[agent]:
+            return 0  # an empty sum
         return sum(self.expected_value(self.agent_utilities[agent], context, intervention=intervention))
 
     def get_valid_order(self, nodes: Optional[Iterable[str]] = None) -> List[str]:
-- 
2.43.0


From 41dd7c07abdbaa239ea017b6304109479f00beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 38/52] fix: expected values of variables that are part of the
 context

---
 pycid/core/causal_bayesian_network.py | 21 ++++++++++++++++++---
 pycid/core/macid_base.py              |  5 +----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 1ce8a8c..cf7083f 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -143,6 +143,12 @@ class CausalBayesianNetwork(BayesianNetwork):
                         return False
         return True
 
+    def _check_outcomes(self, context: Dict[str, Outcome]) -> None:
+        """Raise a ValueError if the context has an outcome outside the domain of its variable"""
+        for variable, outcome in context.items():
+            if outcome not in self.model.domain[variable]:
+                raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
+
     def query(
         self, query: Iterable[str], context: Dict[str, Outcome], intervention: Optional[Dict[str, Outcome]] = None
     ) -> BeliefPropagation:
@@ -159,9 +165,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
-        for variable, outcome in context.items():
-            if outcome not in self.model.domain[variable]:
-                raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
+        self._check_outcomes(context)
 
         # Apply the intervention (if any)
         if intervention:
@@ -229,7 +233,18 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        self._check_outcomes(context)
         variables = list(variables)
+        values: Dict[str, float] = {variable: context[variable] for variable in variables if variable in context}
+        unobserved = [variable for variable in variables if variable not in context]
+        if unobserved:
+            values.update(zip(unobserved, self._expected_value(unobserved, context, intervention)))
+        return [values[variable] for variable in variables]
+
+    def _expected_value(
+        self, variables: List[str], context: Dict[str, Outcome], intervention: Optional[Dict[str, Outcome]]
+    ) -> List[float]:
+        """Compute the expected value of variables that are not part of the context"""
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index db59531..0859b74 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -164,10 +164,7 @@ class MACIDBase(CausalBayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
-        for variable, outcome in context.items():
-            if outcome not in self.model.domain[variable]:
-                raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
-
+        self._check_outcomes(context)
         intervention = intervention or {}
 
         # Check that strategically relevant decisions have a policy specified
-- 
2.43.0


From 2ffbcd8bc06d9388657e37842bfcf9efe6356bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 39/52] fix: decision rules are found in the game whatever the
 order of the parents

---
 pycid/export/gambit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 519c8be..983ce75 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -205,11 +205,12 @@ def behavior_to_cpd(
     - cpds: A list of CPDs for each decision node.
     """
 
+    # the parents may be listed in another order, e.g. in a copy of the macid
+    infosets = {(node, frozenset(parents)): infoset for (node, parents), infoset in parents_to_infoset.items()}
+
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (node, tuple(pv.items()))
-        # get the infoset for the node
-        infoset = parents_to_infoset[pv_tuple]
+        infoset = infosets.get((node, frozenset(pv.items())))
         # if the infoset does not exist, this is not a valid parent instantiation
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
-- 
2.43.0


From b32d78be29dffdee1ae01d7d4eff40e8025fd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 40/52] fix: rounding errors of numerical Nash solvers do not
 make decision rules invalid

---
 pycid/export/gambit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 983ce75..2ffe6c0 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -215,8 +215,10 @@ def behavior_to_cpd(
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
             return {}
-        # get the action probs for the infoset
-        action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # get the action probs for the infoset (numerical solvers may leave the range 0-1 by a rounding error)
+        action_probs = {
+            macid.model.domain[node][i]: min(max(float(prob), 0.0), 1.0) for i, prob in enumerate(behavior[infoset])
+        }
         # unreachable infosets don't get any probabilities: there any behavior is fine
         return action_probs if any(action_probs.values()) else {}
 
-- 
2.43.0


From 8cf2c9db1938686b20838c0cce6344452600ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 41/52] fix: unnormalised probabilities at unreached infosets
 do not make decision rules invalid

---
 pycid/export/gambit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 2ffe6c0..76d556c 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -215,12 +215,12 @@ def behavior_to_cpd(
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
             return {}
-        # get the action probs for the infoset (numerical solvers may leave the range 0-1 by a rounding error)
-        action_probs = {
-            macid.model.domain[node][i]: min(max(float(prob), 0.0), 1.0) for i, prob in enumerate(behavior[infoset])
-        }
+        # numerical solvers may leave the range 0-1 by a rounding error,
+        # and need not normalise the probabilities at infosets that play does not reach
+        probs = [max(float(prob), 0.0) for prob in behavior[infoset]]
+        total = sum(probs)
         # unreachable infosets don't get any probabilities: there any behavior is fine
-        return action_probs if any(action_probs.values()) else {}
+        return {macid.model.domain[node][i]: prob / total for i, prob in enumerate(probs)} if total > 0 else {}
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
         """Adds __name__ and __doc__ to partial functions"""
-- 
2.43.0


From e3287a94f0b9faae401f72db52b2bf1cfc4fb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 42/52] fix: the players of a game are in the order of the
 agents, whatever the hash seed

---
 pycid/core/macid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 121360e..cb8529b 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -141,7 +141,8 @@ class MACID(MACIDBase):
             decisions_in_sg = self.decisions
         else:
             decisions_in_sg = set(decisions_in_sg)  # For efficient membership checks
-        agents_in_sg = list({self.decision_agent[dec] for dec in decisions_in_sg})
+        active_agents = {self.decision_agent[dec] for dec in decisions_in_sg}
+        agents_in_sg = [agent for agent in self.agent_decisions if agent in active_agents]  # in a reproducible order
 
         # We exploit the fact that we only need to create an EFG correspondsing to the MACID subgame
         # we don't need to create an EFG for the full MACID
-- 
2.43.0


From 1a2a25d55ea32d03b29a4c51c08b3060619dd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 43/52] fix: the equilibria of the full game include those that
 differ in contexts no policy leads to

---
 pycid/core/macid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index cb8529b..75d5f5e 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -137,6 +137,7 @@ class MACID(MACIDBase):
         - If the MACID being operated on already has function CPDs for some decision nodes, it is
         assumed that these have already been optimised and so these are not changed.
         """
+        full_game = decisions_in_sg is None
         if decisions_in_sg is None:
             decisions_in_sg = self.decisions
         else:
@@ -147,7 +148,9 @@ class MACID(MACIDBase):
         # We exploit the fact that we only need to create an EFG correspondsing to the MACID subgame
         # we don't need to create an EFG for the full MACID
         # - the macid_to_efg transformation is exponential in the number of MACID nodes
-        sg_macid = self.create_subgame(decisions_in_sg)
+        # (in the subgame of all decisions, contexts can occur that no policy leads to in the full game,
+        # so that some equilibria of the full game would be missed)
+        sg_macid = self if full_game else self.create_subgame(decisions_in_sg)
         # pygambit NE solver
         efg, parents_to_infoset = macid_to_efg(sg_macid, decisions_in_sg, agents_in_sg)
         ne_behavior_strategies = pygambit_ne_solver(efg, solver_override=solver)
-- 
2.43.0


From 89edfd77e54d74d096883561239e80c9f1d7e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 44/52] fix: subgame perfect equilibria are also optimal in
 contexts excluded by irrelevant or earlier policies

---
 pycid/core/macid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 75d5f5e..fbfe6fb 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -171,12 +171,17 @@ class MACID(MACIDBase):
         spes: List[List[StochasticFunctionCPD]] = [[]]
 
         macid = self.copy()
+        # all decisions are open, also those to which a policy has already been imputed
+        for dec in macid.decisions:
+            macid.model[dec] = macid.model.domain[dec]
         # backwards induction over the sccs in the condensed relevance graph (handling tie-breaks)
         for scc in reversed(CondensedRelevanceGraph(macid).get_scc_topological_ordering()):
             extended_spes = []
             for partial_profile in spes:
-                macid.add_cpds(*partial_profile)
-                ne_in_sg = macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
+                # other decisions are left fully mixed, as a rule must also be optimal in contexts they would exclude
+                sg_macid = macid.copy()
+                sg_macid.add_cpds(*(cpd for cpd in partial_profile if macid.is_s_reachable(scc, cpd.variable)))
+                ne_in_sg = sg_macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
                 for ne in ne_in_sg:
                     extended_spes.append(partial_profile + list(ne))
             spes = extended_spes
-- 
2.43.0


From bcb98eb68cd49180602f35c881b25abff8d360ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 45/52] fix: random diagrams with sufficient recall have
 sufficient recall

---
 pycid/random/random_macidbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..21fa9cb 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,6 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
+                if not mb.sufficient_recall():
+                    # the edges added for one pair of decisions can undo the recall of another: resample a new DAG
+                    continue
                 if not _check_max_in_degree(mb, max_in_degree):
                     # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
                     continue
-- 
2.43.0


From 30dc28c547d4109a96489f2f65fcb25f5c1a3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 46/52] fix: random distributions with a tiny smoothness are
 not nan

---
 pycid/random/random_cpd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 119bbc0..727829c 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -49,6 +49,8 @@ class RandomCPD:
         context = repr(sorted(parent_values.items(), key=lambda item: item[0]))
         with temp_seed((self.seed + zlib.crc32(context.encode())) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
+            if not np.all(np.isfinite(prob_vec)):  # underflow, as all mass is on one outcome when smoothness is tiny
+                prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))].flat
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
     def __name__(self) -> str:
-- 
2.43.0


From 51e61ec0780d25928d57256b0cdf1e3b44e1b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 47/52] fix: random diagrams with a single node contain it

---
 pycid/random/random_cid.py       | 2 ++
 pycid/random/random_macid.py     | 1 +
 pycid/random/random_macidbase.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pycid/random/random_cid.py b/pycid/random/random_cid.py
index 35fd38a..ed9d664 100644
--- a/pycid/random/random_cid.py
+++ b/pycid/random/random_cid.py
@@ -63,6 +63,7 @@ def random_cid(
     )
 
     dag = DAG(mb.edges)
+    dag.add_nodes_from(mb.nodes)  # a single node has no edges
     decision_nodes = mb.decisions
     utility_nodes = mb.utilities
 
@@ -73,6 +74,7 @@ def random_cid(
     dag = nx.relabel_nodes(dag, node_name_change_map)
 
     cid = CID(dag.edges, decisions=list(dec_name_change.values()), utilities=list(util_name_change.values()))
+    cid.add_nodes_from(dag.nodes)
 
     if add_cpds:
         add_random_cpds(cid)
diff --git a/pycid/random/random_macid.py b/pycid/random/random_macid.py
index 92f8867..bd89839 100644
--- a/pycid/random/random_macid.py
+++ b/pycid/random/random_macid.py
@@ -63,6 +63,7 @@ def random_macid(
         max_resampling_attempts=max_resampling_attempts,
     )
     macid = MACID(mb.edges, agent_decisions=mb.agent_decisions, agent_utilities=mb.agent_utilities)
+    macid.add_nodes_from(mb.nodes)  # a single node has no edges
 
     if add_cpds:
         add_random_cpds(macid)
diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 21fa9cb..ed68412 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -92,6 +92,7 @@ def random_macidbase(
 
             dag = nx.relabel_nodes(dag, node_name_change_map)
             mb = MACIDBase(dag.edges, agent_decisions=agent_decisions, agent_utilities=agent_utilities)
+            mb.add_nodes_from(dag.nodes)  # a single node has no edges
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-- 
2.43.0


From bbd71872e6a1abeaf5b30627518b3266898b6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 48/52] fix: export models with names or outcomes outside ASCII

---
 pycid/export/gambit.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 76d556c..7c632b6 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -93,12 +93,12 @@ def macid_to_efg(
                 else:
                     cur_infoset = cur_node.append_move(player, len(actions))
                     # label with the node for easy reference
-                    cur_infoset.label = node
+                    cur_infoset.label = _label(node)
                     # add to infosets
                     parents_to_infoset[parents_actions_tuple] = cur_infoset
                 # add state info
                 for action_idx, action in enumerate(actions):
-                    cur_infoset.actions[action_idx].label = str(action)
+                    cur_infoset.actions[action_idx].label = _label(action)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
@@ -113,7 +113,7 @@ def macid_to_efg(
                 move = cur_node.append_move(game.players.chance, len(actions))
                 # add state info
                 for action_idx, prob in enumerate(probabilities):
-                    move.actions[action_idx].label = str(actions[action_idx])
+                    move.actions[action_idx].label = _label(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: actions[action_idx]})
@@ -244,11 +244,16 @@ def behavior_to_cpd(
     return cpds
 
 
+def _label(name: Any) -> str:
+    """pygambit only accepts labels in ASCII"""
+    return str(name).encode("ascii", "backslashreplace").decode()
+
+
 def _add_players(game: pygambit.Game, agents_in_sg: Iterable[Hashable]) -> Dict[Hashable, pygambit.Player]:
     """add players to the pygambit game"""
     agent_to_player = {}
     for agent in agents_in_sg:
-        player = game.players.add(agent)
+        player = game.players.add(_label(agent))
         agent_to_player[agent] = player
 
     return agent_to_player
-- 
2.43.0


From 83cab11510bd461726943c3c96ab0b9bf3caff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 49/52] fix: convert behaviour of decisions that observe a
 variable called node

---
 pycid/export/gambit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 7c632b6..792d628 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -208,8 +208,9 @@ def behavior_to_cpd(
     # the parents may be listed in another order, e.g. in a copy of the macid
     infosets = {(node, frozenset(parents)): infoset for (node, parents), infoset in parents_to_infoset.items()}
 
-    def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
+    def _action_prob_given_parents(*nodes: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
+        (node,) = nodes  # by position only, as a parent may be called node, too
         infoset = infosets.get((node, frozenset(pv.items())))
         # if the infoset does not exist, this is not a valid parent instantiation
         # TODO this was needed previously, but probably not needed anymore
-- 
2.43.0


From 0974a4f11a391d641e93b162bfca78ba95dbdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 50/52] fix: drawing raised a ValueError for agents with
 decisions but no entry in agent_utilities

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 0859b74..ecc0afc 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -467,7 +467,7 @@ class MACIDBase(CausalBayesianNetwork):
         """
         Assign a unique colour to each new agent's decision and utility nodes
         """
-        agents = list(self.agents)
+        agents = list({**self.agent_utilities, **self.agent_decisions})  # some may only have decisions
         colors = cm.rainbow(np.linspace(0, 1, len(agents)))  # type: ignore
         try:
             agent = self.decision_agent[node]
-- 
2.43.0


From 4065394d6f1a3cf43e25c7dc35b594fab56726cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 51/52] fix: remove_edges_from left constants and decision
 options adapted to the removed parents

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index cf7083f..207a737 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -100,6 +100,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         super().remove_edge(u, v)
         self._adapt_to_parents(v)
 
+    def remove_edges_from(self, ebunch: Iterable[Tuple[str, str]]) -> None:
+        """removes those of the given edges that exist"""
+        for edge in list(ebunch):
+            if self.has_edge(*edge[:2]):
+                self.remove_edge(*edge[:2])
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-- 
2.43.0


From 672530e459ef5575f1ff18636f5649d43e537a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 52/52] fix: removing the missing parent of a constant left the
 constant without a table

---
 pycid/core/causal_bayesian_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 207a737..7e0dbf2 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -116,7 +116,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         if node in self.model:
             del self.model[node]
         self.model.domain.pop(node, None)
+        children = list(self.successors(node)) if node in self else []
         super().remove_node(node)
+        for child in children:
+            self._adapt_to_parents(child)
 
     def _adapt_to_parents(self, node: str) -> None:
         """constants and decision options don't depend on the parents, so they apply to the new parents too"""
-- 
2.43.0

