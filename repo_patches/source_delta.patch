From d410154e959ad196c82bd1731039444f864feeda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 01/16] fix: count tolerated scenarios without floating-point
 loss

epsilon*nb_scenarios can fall just below the integer it stands for (0.29*100,
0.58*50): the partitioner then used one subset and one tolerated violation too
few, and returned a sub-optimal solution as optimal or stopped on an assertion.
---
 src/BigMFinder.py                  |  3 +--
 src/instance/ChanceInstance.py     | 10 ++++++++++
 src/instance/ChanceKnapInstance.py |  2 +-
 src/refiner/Refiner.py             |  6 ++----
 src/solver/AdaptivePartitioner.py  |  8 +++-----
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..04bf146 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -94,8 +94,7 @@ class BigMFinder(object):
     def _quantile_big_m(self, violations):
         """Find the quantile of violations."""
         violations.sort()
-        epsilon = self.chance_instance.get_epsilon()
-        q = int(math.floor(epsilon*self.nb_scenarios)+1)
+        q = self.chance_instance.get_nb_tolerated_scenarios() + 1
         return violations[q]
 
     #   - - - Public methods - - -
diff --git a/src/instance/ChanceInstance.py b/src/instance/ChanceInstance.py
index 9710708..2f6a679 100644
--- a/src/instance/ChanceInstance.py
+++ b/src/instance/ChanceInstance.py
@@ -1,4 +1,5 @@
 import csv
+import math
 import os
 
 
@@ -120,3 +121,12 @@ class ChanceInstance():
         Returns the chance constraint epsilon parameter
         """
         return self._check_available(self.epsilon)
+
+    def get_nb_tolerated_scenarios(self):
+        """
+        Returns the number of scenarios that can be violated: the integer
+        part of epsilon*nb_scenarios. The tolerance avoids losing one scenario
+        to a floating-point error, e.g., 0.29*100 = 28.999999999999996.
+        """
+        TOLERANCE = 1e-6
+        return math.floor(self.epsilon*self.nb_scenarios + TOLERANCE)
diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..ec299cf 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -117,7 +117,7 @@ class ChanceKnapInstance(ChanceInstance):
             scenario_infeasibility)
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
-        nb_scen_tolerance = self.epsilon*self.nb_scenarios
+        nb_scen_tolerance = self.get_nb_tolerated_scenarios()
         sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..ef77e4a 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -1,4 +1,3 @@
-import math
 from copy import deepcopy
 
 from src.TimeManager import TimeManager
@@ -83,9 +82,8 @@ class Refiner():
         Returns:
             int: number of splits to perform
         """
-        epsilon = self.chance_instance.get_epsilon()
-        nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        nb_subset_tolerance = (
+            self.chance_instance.get_nb_tolerated_scenarios())
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..ac91c93 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -1,4 +1,3 @@
-import math
 import csv
 import numpy as np
 
@@ -81,10 +80,9 @@ class AdaptivePartitioner(Solver):
         are available.
         """
         # Read instance data and determine minimum number of partitions
-        nb_scenarios = self.chance_instance.get_nb_scenarios()
-        epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        nb_tolerated = self.chance_instance.get_nb_tolerated_scenarios()
+        self.minimum_partition_size = nb_tolerated + 1
+        self.nb_subsets = nb_tolerated + 1
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 819ffcc91db3d4fc7521d935ddb900c87e253d28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/16] fix: keep the quantile of the Song big M within the
 scenarios

With all scenarios but one tolerated (epsilon 0.8 and 5 scenarios) the index
was one past the last violation and the solver stopped with an IndexError.
---
 src/BigMFinder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 04bf146..4d4a482 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -95,6 +95,8 @@ class BigMFinder(object):
         """Find the quantile of violations."""
         violations.sort()
         q = self.chance_instance.get_nb_tolerated_scenarios() + 1
+        # All scenarios but one can be violated: use the largest violation
+        q = min(q, len(violations) - 1)
         return violations[q]
 
     #   - - - Public methods - - -
-- 
2.43.0


From e0f9642e8957753d3ac3da8fe742d40f6826463b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 03/16] fix: define the gap when the lower bound is zero

The gap of an instance whose optimal value is zero divided by zero.
---
 src/solver/Solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..5e060e0 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,9 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif self.vLB == 0:
+            # Relative gap is undefined when the lower bound is zero
+            gap = 0.0 if self.vUB == 0 else np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From bed0ddb1ea81b39cec66093139d1fa3c4bd42d12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 04/16] fix: run the partitioning methods from main.py

solve() has no argument use_balancing: methods 3 and 4 stopped on a TypeError.
---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From 145c3d3de6ce9c95944dc5aa1c99278e78b0de65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 05/16] fix: give a code to the random and cost partitioning
 strategies

Writing the results of an adaptive partitioner stopped on a KeyError.
---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From d7ab995af5f3a825cb071cef52a023d8653e4be2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 06/16] fix: record the big M method in the results of
 MilpSolver

The names did not match those accepted by solve(): the code was always 0 for
the belotti and song methods.
---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..540fe2a 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From b1bf909bcee0340823c022f265cb8592d21c8e36 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 07/16] fix: write the results of MilpSolver without big M

big_m_time was only set when big M parameters were computed.
---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 540fe2a..87621bb 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -49,6 +49,7 @@ class MilpSolver(Solver):
               save_bounds=False, path=None):
         """Solves extended CCLP model with given params."""
         # Compute big M's according to big_m_method
+        self.big_m_time = 0.0
         if use_big_m:
             self._compute_big_m(big_m_method=big_m_method)
 
-- 
2.43.0


From e97d5384872553c6273360ee3fda8aa8cbcd12ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 08/16] fix: read result files under the name main.py gives
 them

int(0.29*100) is 28 whereas main.py rounds to 29.
---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 4cc9e4ac616367e7aa12c9a68497be3e896b1202 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 09/16] fix: forget the subsets deleted by an earlier merge

Without a merge in the current iteration, the warm start skipped the subsets
deleted by the last merge and suggested the wrong subsets.
---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index ac91c93..1fa864d 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -223,6 +223,7 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From 6b6e5c0d4b2ef70b11fe1ac1b56dbf4e49678a91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 10/16] fix: merge only when the upper bound decreased since
 the last merge

---
 src/solver/AdaptivePartitioner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 1fa864d..c888228 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,7 @@ class AdaptivePartitioner(Solver):
         self.xUB = None
         self.zUB = None
         self.did_merge = False
+        self.last_merge_vUB = np.inf
         self.MERGE_TOL = 1.00
         self.split_method = split_method
         self.projection_method = projection_method
@@ -225,7 +226,12 @@ class AdaptivePartitioner(Solver):
         self.did_merge = False
         self.merger.deleted_subsets = []
         if use_merger:
-            if max(new_subset_costs) <= self.vUB:
+            # Merging again without having decreased vUB since the last merge
+            # could go back to a previous partition and cycle
+            did_progress = (self.vUB < self.last_merge_vUB
+                            - 1e-6*max(1, abs(self.vUB)))
+            if did_progress and max(new_subset_costs) <= self.vUB:
+                self.last_merge_vUB = self.vUB
                 feasible_subsets = self.refiner.feasible_subsets
                 nb_feasible = len(feasible_subsets)
                 if nb_feasible == self.refiner.mu:
-- 
2.43.0


From ed5dcbb93c934f33442fd35f1e60b2a8546ef028 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/16] fix: return the bounds found so far when the time limit
 is reached

---
 src/UpperBounder.py               | 3 ++-
 src/solver/AdaptivePartitioner.py | 2 +-
 src/solver/Solver.py              | 5 ++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..750bb5e 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -123,5 +123,6 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
-        self._check_results(x, v_obj, adaptivePartitioner)
+        if x is not None:
+            self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index c888228..8a60bdb 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -136,7 +136,7 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
-        if self._available_time() <= 0:
+        if xUB is None or self._available_time() <= 0:
             return self.xUB, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 5e060e0..d1b5541 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -111,13 +111,16 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if cclp_model.grb_model.SolCount == 0:
+            # Time limit reached before finding any solution
+            return None, None, -np.inf, cclp_model.get_obj_bnd()
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-- 
2.43.0


From a216a1d937de6d4d669d3b575c66247a7364bbc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 12/16] fix: write the results of a run interrupted before its
 first iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 8a60bdb..6ff7a7f 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -30,6 +30,7 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.iteration = 0
         self.did_merge = False
         self.last_merge_vUB = np.inf
         self.MERGE_TOL = 1.00
-- 
2.43.0


From 1495519efe3dfffc6ace5ccfce7b80d3ed942780 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 13/16] fix: solve again without warm start when its solution
 is not integral

---
 src/solver/Solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index d1b5541..7cf4507 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -118,6 +118,16 @@ class Solver():
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if (z_start and cclp_model.grb_model.SolCount > 0
+                and cclp_model.grb_model.IntVio > 1e-8):
+            # The solution completed from the warm start is not integral: it
+            # may violate the subsets it selects. Solve without warm start.
+            time_left = max(real_time_limit - cclp_model.grb_model.Runtime, 0)
+            cclp_model.grb_model.setParam(GRB.Param.TimeLimit, time_left)
+            cclp_model.grb_model.NumStart = 0
+            cclp_model.grb_model.reset()
+            cclp_model.solve(save_bounds=save_bounds, path=path,
+                             elapsed_time=elapsed_time)
         if cclp_model.grb_model.SolCount == 0:
             # Time limit reached before finding any solution
             return None, None, -np.inf, cclp_model.get_obj_bnd()
-- 
2.43.0


From de17dfaeed62d4b45e5529ca8ee411e1a47f0e2e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 14/16] fix: do not take a close relaxed solution for the
 previous one

---
 src/UpperBounder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 750bb5e..f4b658e 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -24,7 +24,8 @@ class UpperBounder():
                or (adaptivePartitioner.did_merge
                    and adaptivePartitioner.MERGE_TOL > 1.00)):
                 try:
-                    assert not np.allclose(x, adaptivePartitioner.xUB)
+                    assert not np.allclose(x, adaptivePartitioner.xUB,
+                                           rtol=0, atol=1e-9)
                 except AssertionError:
                     print('Error: found same solution in two successive'
                           ' iterations of the upper bound problem.')
-- 
2.43.0


From f006315b3662fd0dba67490a82c39821921aaada Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 15/16] fix: solve again without lazy constraints when rounding
 violates them

---
 src/solver/Solver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 7cf4507..c7f64b1 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -118,13 +118,17 @@ class Solver():
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
-        if (z_start and cclp_model.grb_model.SolCount > 0
-                and cclp_model.grb_model.IntVio > 1e-8):
-            # The solution completed from the warm start is not integral: it
-            # may violate the subsets it selects. Solve without warm start.
+        if ((z_start or use_lazy) and cclp_model.grb_model.SolCount > 0
+                and (cclp_model.grb_model.IntVio > 1e-8
+                     or cclp_model.grb_model.ConstrVio > 1e-6)):
+            # The solution completed from the warm start is not integral, or
+            # rounding it violated the lazy constraints of the subsets it
+            # selects. Solve without warm start and lazy constraints.
             time_left = max(real_time_limit - cclp_model.grb_model.Runtime, 0)
             cclp_model.grb_model.setParam(GRB.Param.TimeLimit, time_left)
             cclp_model.grb_model.NumStart = 0
+            for constr in cclp_model.grb_model.getConstrs():
+                constr.Lazy = 0
             cclp_model.grb_model.reset()
             cclp_model.solve(save_bounds=save_bounds, path=path,
                              elapsed_time=elapsed_time)
-- 
2.43.0


From 6487eba142f5d23ec6e9f9c1a4829891b8d7cd09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:52:37 +0000
Subject: [PATCH 16/16] fix: return the feasible solution that ends the
 adaptive loop and its value

The relaxed solution that ends the loop was recorded only when its bound and
value did not exceed the previous upper bound. The optimizer may return bounds
that exceed it by the MIP gap: an earlier, infeasible solution was returned
then, and the bound was reported as the value of the solution.
---
 src/solver/AdaptivePartitioner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 6ff7a7f..faebe14 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -148,6 +148,10 @@ class AdaptivePartitioner(Solver):
             if (v_obj <= self.vUB + 1e-8):
                 self.xUB = xUB
             self.vUB = v_bnd
+        if is_feasible and v_obj > self.vLB:
+            # The bound v_bnd may exceed the value of xUB by the MIP gap
+            self.vLB = v_obj
+            self.xLB = xUB
         self.lowerbounder.save_feasible_scenarios(
             self.chance_instance.get_feasible_scenarios())
         # Save the iteration info
@@ -334,9 +338,6 @@ class AdaptivePartitioner(Solver):
             real_time_left = self._available_time()
 
         if is_feasible or (real_gap <= self.gap):
-            if is_feasible:
-                self.vLB = self.vUB
-                self.xLB = self.xUB
             print('\n - End - ')
             print('Found optimal solution of CCLP: ', self.xUB)
             print('with objective: ', self.vUB)
-- 
2.43.0

