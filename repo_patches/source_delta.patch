From ee838513ce0a43ead3206f92e8f0a83e774358d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 01/51] fix: k-point crossover swaps alternating segments at
 every cut point

---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..5c3e589 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if i + 1 < len(xo_points) else -1
-- 
2.43.0


From 7e95d3e250479e4bfbd87086c5fb35d3828e7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 02/51] fix: default mutation value getter of
 VectorNPointMutation raised TypeError

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..71a701b 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From b6e87aae33058ba3479bc8345dcc7e03ac72c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 03/51] fix: a vector mutation whose attempts all failed
 returned None instead of the individuals

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 71a701b..e0fe527 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -133,4 +133,4 @@ class VectorNPointMutation(FailableOperator):
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
         """
-        pass
+        return payload
-- 
2.43.0


From f4cdc1ed5908cd10445542d9373ab1b9ab755aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 04/51] fix: bounds check of two-cell vectors with per-cell
 bounds

---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From b9a5c9cf204b24bbb9f869fd43b44db3e3619f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 05/51] fix: default bounds of IntVector were swapped

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From 0c31650913bb849bb51ba3291d3bd0bfc266e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 06/51] fix: per-cell bounds of BitStringVector

---
 eckity/genetic_encodings/ga/bit_string_vector.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..5873a29 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,20 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        lower, upper = self._cell_bounds(index)
+        return randint(lower, upper)
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        lower, upper = self._cell_bounds(index)
+        return upper if self.cell_value(index) == lower else lower
+
+    def _cell_bounds(self, index):
+        """
+        Return the (min, max) values of the cell in the given index.
+        """
+        return self.bounds if type(self.bounds) == tuple else self.bounds[index]
 
 # end class bit string vector
-- 
2.43.0


From 5919d24a2635d8e31c72cbeae8a213f98a8ceb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 07/51] fix: executor_method="submit" stored individuals as
 fitness scores

---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 6141e708d1d4ed802b96dc0a9890466c28e86381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 08/51] fix: elite individuals are copied as they are to the
 next generation

---
 eckity/breeders/simple_breeder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..13b16d9 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from eckity.breeders.breeder import Breeder
 from eckity.genetic_operators.selections.elitism_selection import (
     ElitismSelection,
@@ -59,6 +61,8 @@ class SimpleBreeder(Breeder):
                 elitism_sel.apply_operator(
                     (subpopulation.individuals, nextgen_population)
                 )
+            # operators are applied in-place, keep the elites as they are
+            elites = deepcopy(nextgen_population)
 
             self.selected_individuals = subpopulation.get_selection_methods()[
                 0
@@ -70,6 +74,7 @@ class SimpleBreeder(Breeder):
                 self.selected_individuals,
             )
 
+            nextgen_population[: len(elites)] = elites
             subpopulation.individuals = nextgen_population
 
     def _apply_operators(self, operator_seq, individuals_to_apply_on):
-- 
2.43.0


From 515270c41fec77a5a8a71556e8765e0d578c67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 09/51] fix: final_generation_ was not set when the evolution
 reached max_generation

---
 eckity/algorithms/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..54502a3 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -290,6 +290,9 @@ class Algorithm(Operator, ABC):
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
+        else:
+            # no early termination
+            self.final_generation_ = self.max_generation
 
     def update_gen(self, gen: int) -> None:
         """
-- 
2.43.0


From d3fd49491b6f2d7e883036b95ce85a9e9cac5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 10/51] fix: an algorithm could not be copied or pickled once
 it has evolved

---
 eckity/evaluators/population_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..b422446 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	# Necessary for valid pickling, since executors cannot be pickled
+	def __getstate__(self):
+		state = self.__dict__.copy()
+		state['executor'] = None
+		return state
-- 
2.43.0


From 45ba79414069f4111ec62348646073662d90f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 11/51] fix: an individual with a lower NSGA-II front rank is
 the better one

---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From aa9e27eab493bcb5abe28394d43e83a96fed86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 12/51] fix: NSGA-II front sorting kept individuals in
 memory-address order, runs were not reproducible

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..4922984 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,8 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		selected = set(pareto_front)
+		return [ind for ind in source_inds if ind not in selected]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From b5a1ef37075272dbb36868c1668b6b5d5a8edb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:57 +0000
Subject: [PATCH 13/51] fix: NSGA2Evolution shuts down its executor when it
 finishes

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..b7a7a69 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -154,6 +154,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0


From 8a145e5895432450072c24bc1b02d14443845739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 14/51] fix: executing a tree demanded the constants of its
 terminal set as keyword arguments

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..52b00ce 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -269,7 +269,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # only variables (named terminals) are passed, constants are not
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if isinstance(item, str) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
-- 
2.43.0


From b44537a73c5482552810f8e8ca0a1341b47fdd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 15/51] fix: textual representation of a tree with constants in
 its terminal set

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 52b00ce..23d56c7 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -503,10 +503,14 @@ class Tree(Individual):
         def func_0(x: float, y: float) -> float:
             return typed_add(1.0, 2.0)
         """
+        # only variables (named terminals) are arguments, constants are not
+        variables = {
+            k: v for k, v in self.terminal_set.items() if isinstance(k, str)
+        }
         args = (
-            list(self.terminal_set.keys())
+            list(variables)
             if None in self.terminal_set.values()
-            else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
+            else [f"{k}: {v.__name__}" for k, v in variables.items()]
         )
         ret_type_str = (
             ""
-- 
2.43.0


From 2b35952cfeba1ddc76dd78cf531172882717aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 16/51] fix: a constant tree result was truncated to the type
 of the input array

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 23d56c7..710439f 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full(X.shape[0], res)
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From cca703b683734b72130e01880f1176b6377cefe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 17/51] fix: random terminals could be ERCs of a type other
 than the requested one

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 710439f..44f59c8 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type is self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
@@ -219,9 +219,6 @@ class Tree(Individual):
 
         # erc terminal will be typeless in untyped case,
         # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From dca3a4e85752c0090a12a4a02f7ce7ce5ee00ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 18/51] fix: add_tree compared a new node to the arguments of
 the wrong function

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 44f59c8..342200c 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -133,10 +133,11 @@ class Tree(Individual):
             func_types = get_func_types(node.function)
             for i in range(node.n_args):
                 pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
+                if pos[0] == self.size():
+                    # the new node is the next argument of this function
                     return func_types[i] == new_node.node_type
-                elif res is not None:
+                res = self._should_add(pos, new_node)
+                if res is not None:
                     return res
         return res
 
-- 
2.43.0


From df1c320efb5303f25d7bf72357d1025f53087776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 19/51] fix: random subtrees were always rooted at the first of
 several equal nodes

---
 .../genetic_encodings/gp/tree/tree_individual.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 342200c..26b0038 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -338,10 +338,10 @@ class Tree(Individual):
         relevant_nodes = self.filter_tree(
             lambda node: node.node_type is None  # untyped case
             or (
-                node_type is None and node != self.root
+                node_type is None and node is not self.root
             )  # typed case with first invocation
             or (
-                node.node_type == node_type and node != self.root
+                node.node_type == node_type and node is not self.root
             )  # typed case with subsequent invocations
         )
         if not relevant_nodes:
@@ -350,8 +350,15 @@ class Tree(Individual):
 
         return self._get_subtree_by_root(subtree_root)
 
+    def _node_index(self, node: TreeNode) -> int:
+        """Index of a node, a tree may contain several equal nodes"""
+        for i, tree_node in enumerate(self.tree):
+            if tree_node is node:
+                return i
+        return self.tree.index(node)
+
     def _get_subtree_by_root(self, subtree_root: TreeNode) -> List[TreeNode]:
-        start_i = self.tree.index(subtree_root)
+        start_i = self._node_index(subtree_root)
 
         if start_i == 0:
             return self.tree
@@ -373,7 +380,7 @@ class Tree(Individual):
         -------
         None
         """
-        start_i = self.tree.index(old_subtree[0])
+        start_i = self._node_index(old_subtree[0])
         end_i = start_i + len(old_subtree)
         left_part = self.tree[:start_i]
         right_part = self.tree[end_i:]
-- 
2.43.0


From 53f2878cf27e42414914025471038cbb87f1aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 20/51] fix: trees created without a fitness shared one fitness
 object

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 26b0038..98fdd34 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Fitness = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,8 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From b14e1ab2bbb332440e1ab8e70d433b5c9575b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 21/51] fix: HalfCreator ignored its bloat weight

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..27e664d 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From 93884041729c26a38262694ead6ff0c34f0df2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 22/51] fix: a clone kept the selections and operators of all
 previous generations

---
 eckity/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..b6d3242 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -62,6 +62,8 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From 70d3a008a426c642e61162714070a73525840ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 23/51] fix: an algorithm (or a fitted sklearn estimator) could
 not evolve again

---
 eckity/algorithms/algorithm.py                      | 2 ++
 eckity/algorithms/simple_evolution.py               | 4 +++-
 eckity/multi_objective_evolution/nsga2_evolution.py | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index 54502a3..c01600c 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -331,6 +331,8 @@ class Algorithm(Operator, ABC):
         Finish the evolutionary run
         """
         self.executor.shutdown()
+        # a shut down executor cannot be reused if the algorithm evolves again
+        self.executor = type(self.executor)(max_workers=self.max_workers)
 
     def create_population(self) -> None:
         """
diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..ce594da 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -164,7 +164,9 @@ class SimpleEvolution(Algorithm):
         """
         super().initialize()
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            subscribers = self.events["after_generation"].values()
+            if stat.write_statistics not in subscribers:
+                self.register("after_generation", stat.write_statistics)
 
     @overrides
     def generation_iteration(self, gen: int) -> bool:
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index b7a7a69..18eca6b 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -127,7 +127,9 @@ class NSGA2Evolution(Algorithm):
         """
         super().initialize()
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            subscribers = self.events["after_generation"].values()
+            if stat.write_statistics not in subscribers:
+                self.register("after_generation", stat.write_statistics)
 
     def execute(self, **kwargs):
         """
-- 
2.43.0


From 92351ca2374eaa84a399aebbc30d9dd0fc38dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 24/51] fix: creation probabilities were rejected due to
 floating point error in their sum

---
 eckity/subpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..7cdd722 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -1,4 +1,5 @@
 import logging
+import math
 import random
 
 import numpy as np
@@ -101,7 +102,7 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        if not math.isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0


From a1a12b5ef1a797b5613f3259d0c6967d5b91667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 25/51] fix: best_of_run_ of NSGA2Evolution was an arbitrary
 individual of the initial population

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 18eca6b..4d55f95 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -102,6 +102,8 @@ class NSGA2Evolution(Algorithm):
 
         self.NSGA2FrontSorting.select_for_population(self.population)
         self.best_of_gen = self._get_pareto_fronts()
+        # individuals of previous generations are modified by the breeder
+        self.best_of_run_ = self.best_of_gen[0][0]
 
     def _get_pareto_fronts(self):
         """
-- 
2.43.0


From 8c5687bdd5bb00b7fb6211540ac0e95e0bbd48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 26/51] fix: default breeder and termination checker of
 NSGA2Evolution do not fit multiple objectives

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 4d55f95..6bf320a 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,13 +4,12 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -20,13 +19,13 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
+        breeder=NSGA2Breeder(),
         population_evaluator=SimplePopulationEvaluator(),
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
-- 
2.43.0


From 190525a930d49132a9357bc36bf3308ccb6c1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 27/51] fix: a pickled sklearn estimator was no longer fitted

---
 eckity/sklearn_compatible/sklearn_wrapper.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 832dece..4d73696 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -73,7 +73,9 @@ class SklearnWrapper:
     #     return self.is_fitted_
 
     def get_params(self, deep=True):
-        return self.__getstate__()
+        params = self.__dict__.copy()
+        params.pop('is_fitted_', None)
+        return params
 
     def set_params(self, **parameters):
         self.algorithm.__setstate__(parameters)
@@ -84,10 +86,7 @@ class SklearnWrapper:
         pass
 
     def __getstate__(self):
-        state = self.__dict__.copy()
-        if 'is_fitted_' in state:
-            del state['is_fitted_']
-        return state
+        return self.__dict__.copy()
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 290ea97be83702491eaf4293e83dab4bab18935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 28/51] fix: statistics of fronts with more than two corners

---
 eckity/multi_objective_evolution/moe_best_worst_statistics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index 398c382..e63d88f 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -75,5 +75,4 @@ class MOEBestWorstStatistics(Statistics):
             and indiv.fitness.crowding == float("inf")
         ]
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
-        assert len(result) in [1, 2]
         return result
-- 
2.43.0


From 46ca3b471517e8e2ef8bb16cac58fd215f0657c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:36 +0000
Subject: [PATCH 29/51] fix: selections and creators could not be subscribed to
 or act as operators

---
 eckity/creators/creator.py                              | 4 ++--
 eckity/genetic_operators/selections/selection_method.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eckity/creators/creator.py b/eckity/creators/creator.py
index 5946031..864f813 100644
--- a/eckity/creators/creator.py
+++ b/eckity/creators/creator.py
@@ -8,7 +8,7 @@ from eckity.fitness.simple_fitness import SimpleFitness
 
 class Creator(Operator):
     def __init__(self, events=None, fitness_type=SimpleFitness):
-        super().__init__(events)
+        super().__init__(event_names=list(events) if events else None)
         self.created_individuals = None
         self.fitness_type = fitness_type
 
@@ -19,7 +19,7 @@ class Creator(Operator):
         pass
 
     def apply_operator(self, payload: Any) -> Any:
-        return self.create_individuals(payload)
+        return self.create_individuals(*payload)
 
     def event_name_to_data(self, event_name: str) -> Dict[str, Any]:
         return (
diff --git a/eckity/genetic_operators/selections/selection_method.py b/eckity/genetic_operators/selections/selection_method.py
index 149579f..a4b38a5 100644
--- a/eckity/genetic_operators/selections/selection_method.py
+++ b/eckity/genetic_operators/selections/selection_method.py
@@ -7,7 +7,7 @@ class SelectionMethod(Operator):
     def __init__(self, events=None, higher_is_better=False):
         if events is None:
             events = ["after_selection"]
-        super().__init__(events=events)
+        super().__init__(event_names=list(events))
         self.higher_is_better = higher_is_better
         self.selected_individuals = None
 
-- 
2.43.0


From d6d1908088f5cb92610e39bad80c7ce6abdfa6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:44 +0000
Subject: [PATCH 30/51] fix: argmax2floats failed when one argument was a
 constant

---
 eckity/base/typed_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 3ce0c5d..56e9ec5 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -121,7 +121,7 @@ def if_then_else(test: bool, dit: Any, dif: Any) -> float:
 
 
 def argmax2floats(x0: float, x1: float) -> t_argmax:
-    return np.argmax([x0, x1], axis=0)
+    return np.argmax(np.broadcast_arrays(x0, x1), axis=0)
 
 
 def and2ints(x: int, y: int) -> int:
-- 
2.43.0


From 0b76a0139eaa6b13b5177c27418a2225dd009cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:06 +0000
Subject: [PATCH 31/51] fix: trees with an argmax root could not be pickled

---
 eckity/base/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/base/types.py b/eckity/base/types.py
index 7bcd016..43b6e42 100644
--- a/eckity/base/types.py
+++ b/eckity/base/types.py
@@ -1 +1,2 @@
-t_argmax = type("argmax", (int,), {})
+# the type is also reachable by its own name, as pickle requires
+t_argmax = argmax = type("argmax", (int,), {})
-- 
2.43.0


From bda6ce980300ede511f007ddb622f20e31bf7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:39 +0000
Subject: [PATCH 32/51] fix: set_params(algorithm=...) did not replace the
 algorithm

---
 eckity/sklearn_compatible/sklearn_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 4d73696..894abad 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -78,6 +78,8 @@ class SklearnWrapper:
         return params
 
     def set_params(self, **parameters):
+        if 'algorithm' in parameters:
+            self.algorithm = parameters.pop('algorithm')
         self.algorithm.__setstate__(parameters)
         return self
 
-- 
2.43.0


From 1110e93544923a09c6514024de480904924a3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 33/51] fix: registering to existing events overwrote a
 subscriber

---
 eckity/before_after_publisher.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..9fca552 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -12,7 +12,16 @@ class BeforeAfterPublisher:
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
-        self.customers_id = 0
+        # ids of existing subscribers must not be assigned again
+        self.customers_id = 1 + max(
+            (
+                customer_id
+                for subscribers in self.events.values()
+                for customer_id in subscribers
+                if isinstance(customer_id, int)
+            ),
+            default=-1,
+        )
 
     def _get_subscribers(self, event_name):
         return self.events[event_name]
-- 
2.43.0


From 44d5ff43b748837a02090f30f17835da620fbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 34/51] fix: custom operator events and partial event
 dictionaries broke publishing

---
 eckity/before_after_publisher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 9fca552..6748b92 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -5,13 +5,18 @@ AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
+        ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
         if events is None:
             # Initialize events dictionary with event names as keys and subscribers as values
-            ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
             self.events = {event: {} for event in ext_events_names}
+        elif not isinstance(events, dict):
+            # names of custom events, published in addition to the default ones
+            self.events = {event: {} for event in [*events, *ext_events_names]}
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
+            for event in ext_events_names:
+                self.events.setdefault(event, {})
         # ids of existing subscribers must not be assigned again
         self.customers_id = 1 + max(
             (
-- 
2.43.0


From b4669fbf2b524c6f7acccc4247b8a2d2a759202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 35/51] fix: registering without a callback broke publishing

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 6748b92..40e3f47 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -2,6 +2,10 @@ BEFORE_OPERATOR_EVENT_NAME = 'before_operator'
 AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 
+def _do_nothing(sender, data):
+    pass
+
+
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
@@ -34,7 +38,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = _do_nothing
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From e6856c36d8966eefc8003cc3c6df563b6fda7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:52 +0000
Subject: [PATCH 36/51] fix: a subscriber that unregisters itself broke
 publishing

---
 eckity/before_after_publisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 40e3f47..9ae2aa3 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -49,7 +49,8 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        # callbacks may register and unregister subscribers
+        for callback in list(self._get_subscribers(event_name).values()):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From 515ee23740412bf74bfa97555f310e5f434b9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:16 +0000
Subject: [PATCH 37/51] fix: algorithms with vector mutations could not be
 pickled

---
 .../mutations/vector_random_mutation.py       | 61 +++++++++++--------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..7b6cbad 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -43,9 +43,6 @@ class FloatVectorUniformOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -72,9 +69,6 @@ class FloatVectorUniformNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -115,17 +109,20 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
             events=None,
             attempts=5,
     ):
+        self.mu = mu
+        self.sigma = sigma
         super().__init__(
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self._gauss_value,
             events=events,
             attempts=attempts,
         )
 
+    def _gauss_value(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
+
     def on_fail(self, payload):
         """
         Handle gauss mutation failure by performing uniform mutation.
@@ -173,17 +170,20 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
             events=None,
             attempts=5,
     ):
+        self.mu = mu
+        self.sigma = sigma
         super().__init__(
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self._gauss_value,
             events=events,
             attempts=attempts,
         )
 
+    def _gauss_value(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
+
     def on_fail(self, payload):
         """
         Handle gauss mutation failure by performing uniform mutation.
@@ -215,9 +215,16 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         self.probability_for_each = probability_for_each
         super().__init__(probability=probability,
                          arity=arity,
-                         mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() <= self.probability_for_each else individual.cell_value(index),
-                         events=events, cell_selector=lambda vec: list(range(vec.size())))
+                         mut_val_getter=self._mutated_value,
+                         events=events, cell_selector=self._all_cells)
+
+    def _mutated_value(self, individual, index):
+        return individual.get_random_number_in_bounds(
+            index) if random() <= self.probability_for_each else individual.cell_value(index)
+
+    @staticmethod
+    def _all_cells(vec):
+        return list(range(vec.size()))
 
 
 class IntVectorNPointMutation(VectorNPointMutation):
@@ -241,9 +248,6 @@ class IntVectorNPointMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                index
-            ),
             events=events,
             n=n,
         )
@@ -268,13 +272,15 @@ class BitStringVectorFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.bit_flip(
-                index
-            ),
+            mut_val_getter=self._flipped_value,
             n=1,
             events=events,
         )
 
+    @staticmethod
+    def _flipped_value(individual, index):
+        return individual.bit_flip(index)
+
 
 class BitStringVectorNFlipMutation(VectorNPointMutation):
     """
@@ -308,11 +314,14 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: (
-                individual.bit_flip(index)
-                if random() <= self.probability_for_each
-                else individual.cell_value(index)
-            ),
+            mut_val_getter=self._mutated_value,
             events=events,
             n=n
         )
+
+    def _mutated_value(self, individual, index):
+        return (
+            individual.bit_flip(index)
+            if random() <= self.probability_for_each
+            else individual.cell_value(index)
+        )
-- 
2.43.0


From ef62200e05d32b1aa15c55b243914c31c1f5a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 38/51] fix: NSGA2 experiments could not be pickled

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 4922984..7fff83b 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -83,7 +83,7 @@ class NSGA2FrontSorting():
 					front[i].fitness.crowding += curr_crowding
 
 	def _init_domination_dict(self, source_inds: List[Individual]):
-		self.domination_dict = defaultdict(lambda: DominationCounter())
+		self.domination_dict = defaultdict(DominationCounter)
 		for i, ind1 in enumerate(source_inds):
 			for ind2 in source_inds[i + 1:]:
 				self._habdle_domination(ind1, ind2)
-- 
2.43.0


From 5519936a45c0ea5a3b418bbdaebfc1590c2af995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 39/51] fix: Tree.execute refuses an array together with
 keyword arguments

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 98fdd34..a0ad473 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -249,6 +249,12 @@ class Tree(Individual):
         if not self.tree:
             raise ValueError("Tree is empty, cannot execute.")
 
+        if args and kwargs:
+            raise ValueError(
+                "tree.execute takes either a numpy array or "
+                "keyword arguments, received both."
+            )
+
         reshape = False
         if args:  # numpy array -- convert to kwargs
             try:
-- 
2.43.0


From a5d1d03e49aa3293ebba1d33930bab60f3996b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:05 +0000
Subject: [PATCH 40/51] fix: ERC mutation keeps the type of int and bool
 constants

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index a0ad473..3e3cfa8 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -336,6 +336,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..e6386b8 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,9 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            value = terminal.value + random.gauss(mu, sigma)
+            # integer constants of typed trees remain integers
+            terminal.value = round(value) if terminal.node_type is int else value
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From 0903a8d2a3ec3dd3f0ba5f55f788d69c22491586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 41/51] fix: a failed mutation attempt is undone for all its
 operands

With arity above 1, operands before the failing one kept the values of the
failed attempt and were mutated again by the next attempt.
---
 .../mutations/vector_n_point_mutation.py               | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index e0fe527..22dc513 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,10 +100,10 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
-        for individual in individuals:
-            # clone the individual to revert in case of failure
-            old_individual = individual.clone()
+        # clone the individuals to revert in case of failure
+        old_individuals = [individual.clone() for individual in individuals]
 
+        for individual, old_individual in zip(individuals, old_individuals):
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
             # obtain the mutated values
@@ -118,7 +118,9 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
+                # undo the attempt for all individuals
+                for ind, old_ind in zip(individuals, old_individuals):
+                    ind.set_vector(old_ind.vector)
                 break
 
         self.applied_individuals = individuals
-- 
2.43.0


From 1976b9dfb645fab4578bfd79f882ee161dba816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 42/51] fix: SubtreeMutation honours its arity argument

---
 eckity/genetic_operators/mutations/subtree_mutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/subtree_mutation.py b/eckity/genetic_operators/mutations/subtree_mutation.py
index 2811ad6..b284038 100644
--- a/eckity/genetic_operators/mutations/subtree_mutation.py
+++ b/eckity/genetic_operators/mutations/subtree_mutation.py
@@ -17,7 +17,10 @@ class SubtreeMutation(FailableOperator):
         attempts=1,
     ):
         super().__init__(
-            probability=probability, arity=1, events=events, attempts=attempts
+            probability=probability,
+            arity=arity,
+            events=events,
+            attempts=attempts,
         )
         self.init_depth = init_depth
         self.tree_creator = None
-- 
2.43.0


From bfa3c4d064985c17777977e54bc3580dc3d5d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 43/51] fix: predicting with SKClassifier keeps the evaluator's
 training data

predict() replaced the (X, y) of the evaluator by (X, None), so that predicting
from an event handler during a repeated fit made the evolution evaluate on the
wrong data, and evaluating after a prediction failed.
---
 eckity/sklearn_compatible/sk_classifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eckity/sklearn_compatible/sk_classifier.py b/eckity/sklearn_compatible/sk_classifier.py
index b65f3ed..2fdc006 100644
--- a/eckity/sklearn_compatible/sk_classifier.py
+++ b/eckity/sklearn_compatible/sk_classifier.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from sklearn.base import ClassifierMixin
 from sklearn.utils.validation import check_is_fitted
 
@@ -27,11 +29,12 @@ class SKClassifier(SklearnWrapper, ClassifierMixin):
         # Check is fit had been called
         check_is_fitted(self)
 
-        clf_eval: ClassificationEvaluator = (
+        # work on a copy, so the evaluator keeps its training data
+        clf_eval: ClassificationEvaluator = copy(
             self.algorithm.get_individual_evaluator()
         )
 
-        # ignore y since we only need execute result and evolution is finished
+        # ignore y since we only need execute result
         clf_eval.set_context((X, None))
 
         return clf_eval.classify_individual(self.algorithm.best_of_run_)
-- 
2.43.0


From a5a80f4c3db0995dd3602b63fa8c6840a09abdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 44/51] fix: start from the initial generation number when an
 algorithm evolves again

---
 eckity/algorithms/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index c01600c..4301666 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -149,6 +149,7 @@ class Algorithm(Operator, ABC):
         self.best_of_run_ = None
         self.worst_of_gen = None
         self.generation_num = generation_num
+        self._initial_generation_num = generation_num
 
         self.max_workers = max_workers
 
@@ -215,6 +216,8 @@ class Algorithm(Operator, ABC):
         """
         self.set_random_seed(self.random_seed)
         logger.info("random seed = %d", self.random_seed)
+        # an algorithm that evolves again starts from the initial generation
+        self.generation_num = self._initial_generation_num
         self.population_evaluator.set_executor(self.executor)
 
         for field in self.__dict__.values():
-- 
2.43.0


From ab401081b763be87bbcebaf2f1051ef0bba4efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 45/51] fix: algorithms shared their default breeder, evaluator
 and front sorting

---
 eckity/algorithms/simple_evolution.py          |  2 +-
 .../nsga2_evolution.py                         | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index ce594da..bdd1c97 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 6bf320a..9601caa 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -7,7 +7,7 @@ from eckity.algorithms.algorithm import Algorithm
 from eckity.evaluators import SimplePopulationEvaluator
 from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
-    NSGA2FrontSorting,
+    NSGA2FrontSorting as DefaultFrontSorting,
 )
 from eckity.random import RNG
 
@@ -19,9 +19,9 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=NSGA2Breeder(),
-        population_evaluator=SimplePopulationEvaluator(),
-        NSGA2FrontSorting=NSGA2FrontSorting(),
+        breeder=None,
+        population_evaluator=None,
+        NSGA2FrontSorting=None,
         max_generation=500,
         events=None,
         event_names=None,
@@ -51,6 +51,16 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        # the default components hold state, every algorithm has its own
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
+        if NSGA2FrontSorting is None:
+            NSGA2FrontSorting = DefaultFrontSorting()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From b9222f7f290f3e14ecc78ab7a979e66c178aa27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 46/51] fix: add_tree accepted a root of another type than the
 tree's

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 3e3cfa8..f64a92c 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -111,9 +111,14 @@ class Tree(Individual):
 
     def add_tree(self, node: TreeNode) -> None:
         """Add a node to the tree following the defined type constrains"""
-        if (
-            self.size() == 0 and node.node_type == self.root_type
-        ) or self._should_add([0], node):
+        if self.size() == 0:
+            # a missing type (of the tree or of the node) is not checked
+            types = (self.root_type, node.node_type)
+            fits = None in types or types[0] == types[1]
+        else:
+            fits = self._should_add([0], node)
+
+        if fits:
             self.tree.append(node)
         else:
             raise ValueError(f"Could not add node {node} to tree {self.tree}")
-- 
2.43.0


From d092d9d36dbcfb288487850dda38442c4ba2e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 47/51] fix: NSGA-II experiments with statistics on stdout
 could not be copied or pickled

---
 .../moe_best_worst_statistics.py                    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index e63d88f..740b308 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -1,3 +1,4 @@
+import sys
 from sys import stdout
 
 from eckity.statistics.statistics import Statistics
@@ -76,3 +77,15 @@ class MOEBestWorstStatistics(Statistics):
         ]
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
         return result
+
+    # Necessary for valid pickling, since stdout cannot be pickled
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        if self.output_stream in (stdout, sys.stdout):
+            state["output_stream"] = None
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if self.output_stream is None:
+            self.output_stream = sys.stdout
-- 
2.43.0


From 57c7bdebb33e7f1d6fe4ef4b439b8ad79ae18d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 48/51] fix: estimators refused to predict array-like data that
 they were fitted on

fit() converts lists and data frames to arrays, predict() passed them on as
they are, which the program trees refuse.
---
 eckity/sklearn_compatible/sk_classifier.py   | 3 ++-
 eckity/sklearn_compatible/sklearn_wrapper.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eckity/sklearn_compatible/sk_classifier.py b/eckity/sklearn_compatible/sk_classifier.py
index 2fdc006..3aa872f 100644
--- a/eckity/sklearn_compatible/sk_classifier.py
+++ b/eckity/sklearn_compatible/sk_classifier.py
@@ -1,5 +1,6 @@
 from copy import copy
 
+import numpy as np
 from sklearn.base import ClassifierMixin
 from sklearn.utils.validation import check_is_fitted
 
@@ -35,7 +36,7 @@ class SKClassifier(SklearnWrapper, ClassifierMixin):
         )
 
         # ignore y since we only need execute result
-        clf_eval.set_context((X, None))
+        clf_eval.set_context((np.asarray(X), None))
 
         return clf_eval.classify_individual(self.algorithm.best_of_run_)
 
diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 894abad..37c68d0 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -1,3 +1,4 @@
+import numpy as np
 from sklearn.utils.validation import check_is_fitted, check_X_y
 
 
@@ -67,7 +68,7 @@ class SklearnWrapper:
         # Check is fit had been called
         check_is_fitted(self)
 
-        return self.algorithm.best_of_run_.execute(X)
+        return self.algorithm.best_of_run_.execute(np.asarray(X))
 
     # def __sklearn_is_fitted__(self):
     #     return self.is_fitted_
-- 
2.43.0


From fc39e61a6d5cc29a256397832e68539e0bc51280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 49/51] fix: individuals loaded in another process shared their
 ids with new ones

The id counter starts at one in every process, so the ids of individuals that
were saved by another process were handed out again.
---
 eckity/individual.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index b6d3242..51bf18f 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -56,6 +56,11 @@ class Individual:
         self.id = Individual.id
         Individual.id += 1
 
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        # ids stay unique if the individual was saved by another process
+        Individual.id = max(Individual.id, self.id + 1)
+
     def set_fitness_not_evaluated(self):
         self.fitness.set_not_evaluated()
 
-- 
2.43.0


From 3a35966b618879f716817d62276997cead18e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 50/51] fix: an NSGA-II algorithm could not evolve again

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 9601caa..ede6083 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -130,6 +130,15 @@ class NSGA2Evolution(Algorithm):
             )
         return pareto_fronts
 
+    @overrides
+    def create_population(self):
+        super().create_population()
+        # existing individuals (for example, when the algorithm evolves again)
+        # are evaluated anew, a fitness that is evaluated cannot be set
+        for sub_pop in self.population.sub_populations:
+            for ind in sub_pop.individuals:
+                ind.set_fitness_not_evaluated()
+
     def initialize(self):
         """
         Initialize the evolutionary algorithm
-- 
2.43.0


From e4d7fc3d9041080b9dcdb317c4a16c85c9fd04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 51/51] fix: ramped half-and-half creation changed the depths
 of the given creators

---
 eckity/creators/gp_creators/half.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index 27e664d..7014c33 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -116,6 +116,10 @@ class HalfCreator(GPTreeCreator):
 
         individuals = []
 
+        # the given creators are only borrowed, and keep their own depths
+        grow_init_depth = self.grow_creator.init_depth
+        full_init_depth = self.full_creator.init_depth
+
         for depth in range(min_depth, max_depth + 1):
             # first create `group_size` individuals using grow method
             self.grow_creator.init_depth = (min_depth, depth)
@@ -139,5 +143,8 @@ class HalfCreator(GPTreeCreator):
             )
             individuals.extend(missing_inds)
 
+        self.grow_creator.init_depth = grow_init_depth
+        self.full_creator.init_depth = full_init_depth
+
         self.created_individuals = individuals
         return individuals
-- 
2.43.0

