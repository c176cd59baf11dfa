From dbf987630deeabb31c28fb442a54de48507a4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 01/27] fix: keep the caller's conditions list intact

The fitness removed 'optimize' from the list it was given, so a second
optimize() of the same algorithm object (or any reuse of the list) lost
the objective and failed.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 4f7bcc01df8f1ac0e35c6fb732a685fb9584e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 02/27] fix: pass falsy input data to the objective function

input_data such as 0, [] or {} was treated as absent, and a numpy array
raised an ambiguous-truth-value error.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
-- 
2.43.0


From 2fb301d74a1e39d2c37b728e3a28b4bdcaedba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 03/27] fix: accept an objective function that returns one
 value in a sequence

check_input returned None for it, and scoring failed on None.
---
 baumeva/ga/fitness/base_fitness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index acffe2c..4352822 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -110,6 +110,7 @@ class BaseFitness(ABC):
                                     f' optimization must be equal 1')
             except TypeError:
                 return values
+            return values[0]
 
     def calc_obj_func(self, genotype: List[Union[int, float]]) -> Union[int, float, list]:
         """
-- 
2.43.0


From a06b3072db1d834eef540fd09f171c6284585753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 04/27] fix: pass input data to the objective function when
 ranking

VEGA and FFGA failed for every objective function that takes input data.
---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..cdc0540 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(genotype=x['phenotype'])
+        y_score = self.calc_obj_func(genotype=y['phenotype'])
 
         if x_score == y_score:
             return None
-- 
2.43.0


From 4299849860f70fc83ec1c3109b9dfd5d292dc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 05/27] fix: keep the order of objective values in conditional
 multi-objective runs

The values were stored in reverse order, so target values were compared
with the wrong objectives.
---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index cdc0540..3167f44 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 74fac4ae32bade8cbf2049d2161a688c19b01ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 06/27] fix: VEGA counts objectives at a point of the search
 space

It called the objective function at zero, outside the gene ranges in
general, and without the input data.
---
 baumeva/vega.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..6103cac 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,13 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is None:
+            first_point = [gen[0] for gen in self.gens]
+            values = self.obj_function(first_point) if self.input_data is None\
+                else self.obj_function(self.input_data, first_point)
+            num_objectives = len(values)
+        else:
+            num_objectives = self.conditions.count('optimize')
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From beea93d5ea123199f98a83b4ccbdb6dd2c341295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 07/27] fix: VEGA honours tournament_size

---
 baumeva/vega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 6103cac..51be5f6 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -88,7 +88,8 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives,
+                                            tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From b5e4a6acd172df88f49c7c2ce59a677752b82bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 08/27] fix: VEGA balanced and ranked selection keep the
 parents of every objective

Each objective's pass started from an empty list of parents, so only the
parents chosen for the last objective were left.
---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4c1970c 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,3 +1,4 @@
+from .base_selection import BaseSelection
 from .balanced_selection import BalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 384a826e160f03190b612e6cee89e82569073ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 09/27] fix: roulette selection maps every random value to the
 right individual

A random value at or above the rounded sum of the probabilities gave an
index past the end, and among equal cumulative values the individual with
no share of its own was chosen.
---
 baumeva/ga/selections/balanced_selection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..3d453da 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,3 +1,4 @@
+from bisect import bisect_right
 from random import random
 from copy import deepcopy
 from .base_selection import BaseSelection
@@ -52,8 +53,8 @@ class BalancedSelection(BaseSelection):
         :return: The index of the selected individual.
         """
         rand_value = random()
-        idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        idx = bisect_right(self.selection_scores, rand_value) - 1
+        return min(idx, len(self.selection_scores) - 2)
 
     def balanced_selection(self, ga_data: GaData):
         """
-- 
2.43.0


From 6de6c6ccc48d9f4fece92c2bf29fee0828a131b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 10/27] fix: ranked selections rank by score without touching
 Pareto ranks

The ranks were positions in the population, which is ordered by Pareto rank
in multi-objective runs; they overwrote the Pareto ranks the new generation
relies on; and a lowest score of exactly -1 was taken for a tie with the
initial previous score.
---
 baumeva/ga/selections/ranked_selection.py     | 19 +++++++++--------
 .../ga/selections/vega_ranked_selection.py    | 21 ++++++++++---------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..abd2389 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -8,7 +8,7 @@ class RankedSelection(BalancedSelection):
     Inherits from BalancedSelection.
     """
 
-    score_type = 'rank'
+    score_type = 'selection_rank'
 
     def __init__(self):
         """
@@ -25,21 +25,22 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        ranked = sorted(ga_data.population, key=lambda d: d['score'])
+        prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        for idx in range(len(ranked)):
             rank = idx + 1
-            ga_data.population[idx]['rank'] = rank
-            if ga_data.population[idx]['score'] == prev_score:
+            ranked[idx]['selection_rank'] = rank
+            if ranked[idx]['score'] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(ranked):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'] = (sum(range(rank - count, rank)) + count) / count
+                        ranked[_idx]['selection_rank'] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'] = (sum(range(idx - count, idx)) + count) / count
+                    ranked[_idx]['selection_rank'] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score']
+            prev_score = ranked[idx]['score']
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: GaData) -> None:
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..a39ef11 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -8,7 +8,7 @@ class VEGARankedSelection(VEGABalancedSelection):
     Inherits from VEGABalancedSelection.
     """
 
-    score_type = 'rank'
+    score_type = 'selection_rank'
 
     def __init__(self, num_objectives: int):
         """
@@ -25,21 +25,22 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        ranked = sorted(ga_data.population, key=lambda d: d['score'][self.idx])
+        prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        for idx in range(len(ranked)):
             rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
+            ranked[idx]['selection_rank'][self.idx] = rank
+            if ranked[idx]['score'][self.idx] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(ranked):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
+                        ranked[_idx]['selection_rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
+                    ranked[_idx]['selection_rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
+            prev_score = ranked[idx]['score'][self.idx]
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: MultiGaData) -> None:
@@ -50,6 +51,6 @@ class VEGARankedSelection(VEGABalancedSelection):
         :return: None
         """
         for ind in ga_data.population:
-            ind['rank'] = [0]*self.num_objectives
+            ind['selection_rank'] = [0]*self.num_objectives
 
         super().execute(ga_data)
-- 
2.43.0


From 85277c50564541691ca577162c6f47f2c1d010db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 11/27] fix: categorical mutation supports the named levels

Its default level 'normal', and with it CategoricalGA's default, raised
AttributeError.
---
 baumeva/ga/mutations/categorical_mutation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..71835b2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -91,5 +91,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From c8e6a0a5d59cd95dce4946624a6bdc499ec88122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 12/27] fix: mutate with the requested probability

One coin value too many counted as a mutation: level 0.0 still mutated.
---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 71835b2..464caf2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 9f8f88c1bff5a6458b2f4a108bff5b00cdf7ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 13/27] fix: named mutation levels follow the current genotype
 length

The level was fixed for the first population an operator object was applied
to and kept when the object was used for another one.
---
 baumeva/ga/mutations/bin_string_mutation.py  | 7 ++++---
 baumeva/ga/mutations/categorical_mutation.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..ec30f14 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -14,6 +14,7 @@ class BinStringMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.mutation_name = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -42,10 +43,10 @@ class BinStringMutation(BaseMutation):
         :param len_bin_str: length of binary string;
         :return: None.
         """
-        if type(self.mutation_lvl) is str:
-            if self.mutation_lvl == 'weak':
+        if type(self.mutation_name) is str:
+            if self.mutation_name == 'weak':
                 self.mutation_lvl = 0.3 / len_bin_str
-            elif self.mutation_lvl == 'normal':
+            elif self.mutation_name == 'normal':
                 self.mutation_lvl = 1 / len_bin_str
             else:
                 self.mutation_lvl = 3 / len_bin_str
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 464caf2..10b1f85 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -13,6 +13,7 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.mutation_name = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -42,10 +43,10 @@ class CategoricalMutation(BaseMutation):
         :param len_bin_str: length of binary string;
         :return: None.
         """
-        if type(self.mutation_lvl) is str:
-            if self.mutation_lvl == 'weak':
+        if type(self.mutation_name) is str:
+            if self.mutation_name == 'weak':
                 self.mutation_lvl = 0.3 / len_bin_str
-            elif self.mutation_lvl == 'normal':
+            elif self.mutation_name == 'normal':
                 self.mutation_lvl = 1 / len_bin_str
             else:
                 self.mutation_lvl = 3 / len_bin_str
-- 
2.43.0


From b4118d2d4260b30ad5ae87b3ee9539a461febc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 14/27] fix: crossovers and shift mutation work on the shortest
 genotypes

One-bit (one-point), one- and two-gene (two-point) and two-gene (order,
shift) genotypes raised ValueError.
---
 baumeva/ga/crossovers/one_point_crossover.py | 2 +-
 baumeva/ga/crossovers/order_crossover.py     | 2 +-
 baumeva/ga/crossovers/two_point_crossover.py | 2 +-
 baumeva/ga/mutations/shift_mutation.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/crossovers/one_point_crossover.py b/baumeva/ga/crossovers/one_point_crossover.py
index bc0460b..fbb51c4 100644
--- a/baumeva/ga/crossovers/one_point_crossover.py
+++ b/baumeva/ga/crossovers/one_point_crossover.py
@@ -18,7 +18,7 @@ class OnePointCrossover(BaseCrossover):
         self.len_individ = None
 
     def crossover(self, parent_1: list, parent_2: list, child_1: dict, child_2: dict) -> tuple:
-        idx_point = randint(1, self.len_individ - 1)
+        idx_point = randint(1, max(1, self.len_individ - 1))
         child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:]
         child_2['genotype'] = parent_2[:idx_point] + parent_1[idx_point:]
         return child_1, child_2
diff --git a/baumeva/ga/crossovers/order_crossover.py b/baumeva/ga/crossovers/order_crossover.py
index f9e794b..de343d5 100644
--- a/baumeva/ga/crossovers/order_crossover.py
+++ b/baumeva/ga/crossovers/order_crossover.py
@@ -23,7 +23,7 @@ class OrderCrossover(BaseCrossover):
 
         :return: A list containing the indices of the crossover segment.
         """
-        idx_segment = sample(range(1, self.len_individ), 2)
+        idx_segment = sample(range(1, max(3, self.len_individ)), 2)
         idx_segment.sort()
         return idx_segment
 
diff --git a/baumeva/ga/crossovers/two_point_crossover.py b/baumeva/ga/crossovers/two_point_crossover.py
index 7bf40ef..57d8249 100644
--- a/baumeva/ga/crossovers/two_point_crossover.py
+++ b/baumeva/ga/crossovers/two_point_crossover.py
@@ -18,7 +18,7 @@ class TwoPointCrossover(BaseCrossover):
         self.len_individ = None
 
     def crossover(self, parent_1: list, parent_2: list, child_1: dict, child_2: dict) -> tuple:
-        idx_segment = sample(range(1, self.len_individ), 2)
+        idx_segment = sample(range(1, max(3, self.len_individ)), 2)
         idx_segment.sort()
         child_1['genotype'] = parent_1[:idx_segment[0]] + parent_2[idx_segment[0]:idx_segment[1]] + parent_1[
                                                                                                     idx_segment[1]:]
diff --git a/baumeva/ga/mutations/shift_mutation.py b/baumeva/ga/mutations/shift_mutation.py
index aeb0975..8206ac5 100644
--- a/baumeva/ga/mutations/shift_mutation.py
+++ b/baumeva/ga/mutations/shift_mutation.py
@@ -16,7 +16,7 @@ class ShiftMutation(BaseCombinatoryMutation):
         :return: The mutated child individual.
         """
 
-        chain_length = randint(1, len(child['genotype']) - 2)
+        chain_length = randint(1, max(1, len(child['genotype']) - 2))
         s_idx = randint(0, len(child['genotype']) - chain_length)
         e_idx = s_idx + chain_length
 
-- 
2.43.0


From d35cbd2b4d5d6036507b4252a3d48c71b1da6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 15/27] fix: uniform crossover gives each child its own
 genotype list

---
 baumeva/ga/crossovers/uniform_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/crossovers/uniform_crossover.py b/baumeva/ga/crossovers/uniform_crossover.py
index 4d61d34..46b63bc 100644
--- a/baumeva/ga/crossovers/uniform_crossover.py
+++ b/baumeva/ga/crossovers/uniform_crossover.py
@@ -27,7 +27,7 @@ class UniformCrossover(BaseCrossover):
             else:
                 new_gens.append(parent_2[i])
         child_1['genotype'] = new_gens
-        child_2['genotype'] = new_gens
+        child_2['genotype'] = new_gens.copy()
 
         return child_1, child_2
 
-- 
2.43.0


From b152fc6a6cb7f9fc5b7ac9415064fa4e0d6fd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 16/27] fix: binary genes are at least as fine as the requested
 step

The number of steps was rounded down, so e.g. (0, 7.5, 1) got a step of
1.07, and a step larger than the range failed with ZeroDivisionError.
---
 baumeva/ga/populations/binary_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..62c4671 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -1,3 +1,4 @@
+from math import ceil
 from typing import List, Tuple
 from random import randint
 from .base_population import BasePopulation
@@ -55,7 +56,7 @@ class BinaryPopulation(BasePopulation):
         """
         for gen in self.gens:
             gen_range = abs(gen[1] - gen[0])
-            num_points = int(gen_range / gen[2])
+            num_points = ceil(round(gen_range / gen[2], 9))
             num_bits, real_num_points = self.get_real_number_of_points(num_points)
             self.real_step.append(gen_range / (2 ** num_bits - 1))
             self.num_bits.append(num_bits)
-- 
2.43.0


From 0aa8ccb956c73c65132d71c795df0e58b92ee029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 17/27] fix: replace duplicate elites without aliasing
 individuals

The bounds check was always true, so instead of the next best parents a
random sample was added, which could put one and the same object into the
new generation several times; once all tournaments contain it, selection
never finds two different parents and the run hangs.
---
 baumeva/ga/new_generation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..62e868d 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from random import sample
 from .ga_data import GaData
 
@@ -51,8 +52,8 @@ class NewGeneration:
                         break
 
                 z_counter += 1
-                if -num_elites - 1 - z_counter < 0:
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                if num_elites + 1 + z_counter > len(ga_data.population):
+                    elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From dba4999ef9bfd75a8108ad6cc852fd71903e29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 18/27] fix: random transfer of parents works for small
 populations

It sampled more parents than there are when no children were made, and
always ten in FFGA, whatever the population size.
---
 baumeva/ga/new_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 62e868d..1115b50 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -73,6 +73,7 @@ class NewGeneration:
         if self.transfer_parents == 'best':
             elites = self.add_best(ga_data, num_elites)
         else:
+            num_elites = min(num_elites, len(ga_data.population) - 1)
             elites = sample(ga_data.population[:-1], num_elites)
             loop_counter = 0
             while ga_data.population.is_duplicate(elites):
-- 
2.43.0


From 5985dcb6cf862e30a27a316fef42c520ef59866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 19/27] fix: FFGA scores follow the current Pareto ranks

Survivors kept the score of the generation in which they were created
although their rank had changed.
---
 baumeva/ga/fitness/ffga_fitness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..b104fbc 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,5 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From dde3d2aebe75ebda185bf9475c9b3a01af929422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 20/27] fix: recorded Pareto sets are not changed by later
 generations

The history held the live individuals, whose ranks, scores and indices
are overwritten later.
---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From a942139214bfabc174babd6d86ab23a771502111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 21/27] fix: an unchanged Pareto set is not an improvement

The comparison included the individuals' positions and order in the
population, so an unchanged set counted as improved.
---
 baumeva/ga/multi_ga_data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index d66ce28..c80018f 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -53,7 +53,7 @@ class MultiGaData(GaData):
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
 
-        if self.best_solution['pareto_set'] != pareto_set:
+        if self.get_points(self.best_solution['pareto_set']) != self.get_points(pareto_set):
             self.best_solution['pareto_set'] = deepcopy(pareto_set)
             self.best_solution['idx_generation'] = self.idx_generation
             self.num_generation_no_improve = 0
@@ -62,6 +62,15 @@ class MultiGaData(GaData):
 
         self.idx_generation += 1
 
+    @staticmethod
+    def get_points(pareto_set: list) -> list:
+        """
+        Get what identifies the individuals of a Pareto set, whatever their position in the population.
+        :param pareto_set: list of individuals;
+        :return: sorted list of genotypes.
+        """
+        return sorted(individ['genotype'] for individ in pareto_set)
+
     @staticmethod
     def print_list(head, lst, label) -> None:
         print(f'\t{head}:')
-- 
2.43.0


From a2037f5bd56c4bb8f6159afc53b47ef175c9b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 22/27] fix: the adaptive penalty works in multi-objective runs

It asks whether the best solution is feasible, which the multi-objective
best solution did not tell: KeyError in the second generation.
---
 baumeva/ga/multi_ga_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index c80018f..784b8da 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -59,6 +59,7 @@ class MultiGaData(GaData):
             self.num_generation_no_improve = 0
         else:
             self.num_generation_no_improve += 1
+        self.best_solution['feasible'] = all(individ['feasible'] for individ in pareto_set)
 
         self.idx_generation += 1
 
-- 
2.43.0


From 0619ed9e40a07f71f4fe8c1368e4d5ff44f26a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:36 +0000
Subject: [PATCH 23/27] fix: do not restart the random stream in every
 generation

Every empty copy of a population, two per generation, seeded the generator
again, so with a fixed seed all generations replayed the same random
numbers.
---
 baumeva/ga/populations/base_population.py        | 10 ++++++++--
 baumeva/ga/populations/binary_gray_population.py |  2 +-
 baumeva/ga/populations/binary_population.py      |  2 +-
 baumeva/ga/populations/cat_population.py         |  2 +-
 baumeva/ga/populations/order_cat_population.py   |  2 +-
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/populations/base_population.py b/baumeva/ga/populations/base_population.py
index 4e7c408..78307b9 100644
--- a/baumeva/ga/populations/base_population.py
+++ b/baumeva/ga/populations/base_population.py
@@ -15,10 +15,16 @@ class BasePopulation(ABC, list):
     input_population: List[list] = None
     rnd_seed: Optional[int] = None
 
-    def __init__(self) -> None:
+    def __init__(self, is_seed: bool = True) -> None:
+        """
+        Initialize the population.
+
+        :param is_seed: whether to seed the random generator, False for the empty copies made during a run.
+        """
         super().__init__()
         self.rnd_seed = generator.rnd_seed
-        seed(self.rnd_seed)
+        if is_seed:
+            seed(self.rnd_seed)
 
     @abstractmethod
     def set_params(self, num_individ: int, gens: tuple, input_population: List[list] = None) -> None:
diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..423d6fe 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -55,4 +55,4 @@ class BinaryGrayPopulation(BinaryPopulation):
 
         :return: An empty instance of BinaryGrayPopulation.
         """
-        return BinaryGrayPopulation()
+        return BinaryGrayPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 62c4671..a6a6643 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -164,7 +164,7 @@ class BinaryPopulation(BasePopulation):
 
         :return: An empty instance of BinaryPopulation.
         """
-        new_population = BinaryPopulation()
+        new_population = BinaryPopulation(is_seed=False)
         new_population.is_phenotype = True
 
         return new_population
diff --git a/baumeva/ga/populations/cat_population.py b/baumeva/ga/populations/cat_population.py
index 2278b62..c017af1 100644
--- a/baumeva/ga/populations/cat_population.py
+++ b/baumeva/ga/populations/cat_population.py
@@ -68,4 +68,4 @@ class CatPopulation(BasePopulation):
 
         :return: An empty instance of CatPopulation.
         """
-        return CatPopulation()
+        return CatPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/order_cat_population.py b/baumeva/ga/populations/order_cat_population.py
index 49bbd6e..fd0808f 100644
--- a/baumeva/ga/populations/order_cat_population.py
+++ b/baumeva/ga/populations/order_cat_population.py
@@ -27,4 +27,4 @@ class OrderCatPopulation(CatPopulation):
 
         :return: An empty instance of OrderCatPopulation.
         """
-        return OrderCatPopulation()
+        return OrderCatPopulation(is_seed=False)
-- 
2.43.0


From 1132216fabd1b662ed970b73e83f95eeffc5c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:36 +0000
Subject: [PATCH 24/27] fix: a failing objective function leaves genotypes in
 place

Genotypes and phenotypes stayed swapped when the objective function raised,
and evaluating again called it with the bit strings.
---
 baumeva/ga/fitness/base_fitness.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index 4352822..39b148d 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -148,17 +148,13 @@ class BaseFitness(ABC):
         """
         individ['obj_score'] = values.pop(self.__idx_opt_value)
 
-    def execute(self, ga_data: GaData) -> None:
+    def evaluate(self, ga_data: GaData) -> None:
         """
-        Calculate and assign fitness scores to individuals in the population.
+        Calculate and assign fitness scores to individuals without a score.
 
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        if ga_data.population.is_phenotype:
-            ga_data.population.get_phenotype()
-            ga_data.population.swap()
-
         for individ in ga_data.population:
             if individ['score'] is None:
                 values = self.calc_obj_func(genotype=individ['genotype'])
@@ -181,5 +177,20 @@ class BaseFitness(ABC):
                     penalty_value = 0
                 individ['score'] = self.get_fitness_score(individ, penalty_value)
 
-        if ga_data.population.is_phenotype:
+    def execute(self, ga_data: GaData) -> None:
+        """
+        Calculate and assign fitness scores to individuals in the population.
+
+        :param ga_data: GaData instance containing population and related data.
+        :return: None
+        """
+        if not ga_data.population.is_phenotype:
+            self.evaluate(ga_data)
+            return
+
+        ga_data.population.get_phenotype()
+        ga_data.population.swap()
+        try:
+            self.evaluate(ga_data)
+        finally:
             ga_data.population.swap()
-- 
2.43.0


From d08f61d020f651e8788b096ccc9a016e73c29494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:54 +0000
Subject: [PATCH 25/27] fix: the static penalty charges violated conditions

Equality conditions were charged only when satisfied, every table with more
than one interval raised an exception, and inequality conditions used the
coefficients of the equality conditions.
---
 baumeva/ga/penalties/static_penalty.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..f408504 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,23 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
+                if values[i] == 0:
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] <= abs(values[i]) < val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
-                    res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                    if val[0] <= values[i] < val[1]:
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 9d7a36cd1043ef89e897b83961e50e816a1e797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 26/27] fix: a NaN mutation level is rejected

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index 449a663..544d135 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -35,7 +35,7 @@ class BaseCombinatoryMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index ec30f14..5ab0604 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -30,7 +30,7 @@ class BinStringMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 10b1f85..8c3d3be 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -29,7 +29,7 @@ class CategoricalMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
-- 
2.43.0


From 502e52b62cc3cf94af40c408461429ef9717cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 27/27] fix: a falsy object is not accepted as a penalty

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index 39b148d..3f7ce28 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -64,7 +64,7 @@ class BaseFitness(ABC):
         Method for definition type of task: conditional or not.
         :return: None.
         """
-        if self.penalty:
+        if self.penalty is not None:
             if isinstance(self.penalty, BasePenalty) is False:
                 raise Exception(f'Unexpected penalty_method: {self.penalty}')
             if len(self.conditions) <= 1:
-- 
2.43.0

