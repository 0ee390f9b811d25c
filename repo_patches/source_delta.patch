From 64c6d5f2bb0a3867fc44b42da2ba0913af9eee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 01/20] fix: main.py: adaptive methods pass an argument that
 solve() does not have

AdaptivePartitioner.solve() has no use_balancing parameter, so methods 3 and 4
ended with a TypeError before solving anything.
---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From 5486f99be47871381f8f39d50b571a28d8455899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 02/20] fix: Informer: no code for the random and cost methods
 in the result row

adaptive_details() raised a KeyError for every split method and every initial
partition type, so no adaptive run could write its result row.
---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From c5545547a77c63a9f836642c9bdd55da1440a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 03/20] fix: Solver: negative TimeLimit when building the model
 outlasts the budget

Gurobi rejects a negative TimeLimit, so the run ended with a GurobiError
instead of stopping at its time limit.
---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..53cca66 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -108,7 +108,7 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0.0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
-- 
2.43.0


From 89a42e6392db0444a3962829370a48b57101e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 04/20] fix: no solution found within the time limit crashes
 the solve

When Gurobi stops at TimeLimit without an incumbent, reading X raises an
AttributeError: the MILP method and the adaptive method then ended with a
traceback instead of returning the bounds they have.
---
 src/UpperBounder.py               | 6 ++++--
 src/optim/OptiModel.py            | 5 +++++
 src/solver/AdaptivePartitioner.py | 7 ++++---
 src/solver/Solver.py              | 3 +++
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..0d13cbc 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -98,7 +98,8 @@ class UpperBounder():
                               constrainst
 
         Returns:
-            np.array(float/binary): optimal solution
+            np.array(float/binary): optimal solution, None if the time
+                limit was reached before finding any
             np.array(binary): optimal solution of indicators
             float: optimal objective
             float: upper bound on objective (if model not
@@ -123,5 +124,6 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
-        self._check_results(x, v_obj, adaptivePartitioner)
+        if x is not None:
+            self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/optim/OptiModel.py b/src/optim/OptiModel.py
index 6e13918..8d9a194 100644
--- a/src/optim/OptiModel.py
+++ b/src/optim/OptiModel.py
@@ -204,6 +204,11 @@ class OptiModel():
         if save_bounds:
             self._save_bounds_to_file(path)
 
+    def stopped_without_solution(self):
+        """True if the time limit was reached before finding a solution."""
+        return (self.grb_model.Status == GRB.TIME_LIMIT
+                and self.grb_model.SolCount == 0)
+
     def get_obj_val(self):
         return self.grb_model.ObjVal
 
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..f849f9e 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -137,8 +137,9 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
-        if self._available_time() <= 0:
-            return self.xUB, False
+        if xUB is None or self._available_time() <= 0:
+            # No time left to process the solution, if there is one
+            return None, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
 
@@ -301,7 +302,7 @@ class AdaptivePartitioner(Solver):
                                                  use_lazy=use_lazy)
             if is_feasible:
                 break
-            if self._available_time() <= 0:
+            if xUB is None or self._available_time() <= 0:
                 print('Interrupting adaptive partitioner: '
                       ' time limit reached.')
                 break
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 53cca66..e672817 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -115,6 +115,9 @@ class Solver():
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if cclp_model.stopped_without_solution():
+            # Time limit reached before any solution was found
+            return None, None, -np.inf, cclp_model.get_obj_bnd()
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-- 
2.43.0


From 762f0cac0e57da1c06071a7a79ba7f1afe49a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 05/20] fix: adaptive method can return a stale, infeasible
 solution

When the last upper-bound problem gave a feasible solution, vLB and xLB were
taken from vUB and self.xUB.  But self.xUB is not updated when the solver's
bound is not below vUB (e.g. optimal within MIPGap only), and vUB is not the
value of the solution when the solver was cut off: the reported solution could
violate the chance constraint, and the reported lower bound be too large.
---
 src/solver/AdaptivePartitioner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index f849f9e..3172d26 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -142,6 +142,10 @@ class AdaptivePartitioner(Solver):
             return None, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
+        if is_feasible and v_obj > self.vLB:
+            # Solution of the partitioned problem solves the original one
+            self.xLB = xUB
+            self.vLB = min(v_obj, self.vUB)
 
         # - Store results -
         self.zUB = z
@@ -329,11 +333,8 @@ class AdaptivePartitioner(Solver):
             real_time_left = self._available_time()
 
         if is_feasible or (real_gap <= self.gap):
-            if is_feasible:
-                self.vLB = self.vUB
-                self.xLB = self.xUB
             print('\n - End - ')
-            print('Found optimal solution of CCLP: ', self.xUB)
+            print('Found optimal solution of CCLP: ', self.xLB)
             print('with objective: ', self.vUB)
 
     def write_all_computation_details(self, output_file_location,
-- 
2.43.0


From 778e63f01abea98796c7ea7485f7da750c83d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 06/20] fix: division by zero in the gap when the lower bound
 is zero

When no item fits, or the only known solution is empty, vLB is 0 and computing
the gap ended the run with a ZeroDivisionError (or a nan).
---
 src/solver/Solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index e672817..f7adb7d 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,9 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif abs(self.vLB) <= 1e-9:
+            # The gap relative to vLB is only defined if it is closed
+            gap = 0.0 if self.vUB <= 1e-8 else np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From 011f75b595ec1da91a29a55e6e669a63b721c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 07/20] fix: time limit and reported times follow steps of the
 wall clock

time.time() jumps when the system clock is set: the time left could exceed the
whole budget, the run could stop at once or never, and negative computation
times were reported.  Use time.monotonic().
---
 src/Informer.py        | 4 ++--
 src/TimeManager.py     | 6 +++---
 src/optim/OptiModel.py | 4 ++--
 src/solver/Solver.py   | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Informer.py b/src/Informer.py
index f9a8eeb..df90e63 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -12,7 +12,7 @@ class Informer():
 
     #   - - - Public methods - - -
     def print_iter_info(self, iteration, vUB, vLB, gap):
-        current_time = time.time()
+        current_time = time.monotonic()
         print("\n        ########      -  Iteration "
               + str(iteration) + " -      ########")
 
@@ -48,7 +48,7 @@ class Informer():
         """Saves the iteration information."""
         # Preparing decimal places string
         str_decimal_place = "{:."+str(decimal_places)+"f}"
-        current_time = time.time()
+        current_time = time.monotonic()
         start_time = TimeManager.get_start_time()
         self.iteration_info.append(
             [iteration,
diff --git a/src/TimeManager.py b/src/TimeManager.py
index 4d1bfca..14a2a51 100644
--- a/src/TimeManager.py
+++ b/src/TimeManager.py
@@ -9,12 +9,12 @@ class TimeManager(object):
 
     @classmethod
     def set_limit_and_start_time(cls, time_limit):
-        cls.start_time = time.time()
+        cls.start_time = time.monotonic()
         cls.time_limit = time_limit
 
     @classmethod
     def set_final_time(cls):
-        cls.final_time = time.time()
+        cls.final_time = time.monotonic()
 
     @classmethod
     def get_start_time(cls):
@@ -28,7 +28,7 @@ class TimeManager(object):
             time_left (float): time left before termination
 
         """
-        current_time = time.time()
+        current_time = time.monotonic()
         elapsed_time = current_time - cls.start_time
         time_left = max(cls.time_limit - elapsed_time, 0)
         return time_left
diff --git a/src/optim/OptiModel.py b/src/optim/OptiModel.py
index 8d9a194..3b1cf64 100644
--- a/src/optim/OptiModel.py
+++ b/src/optim/OptiModel.py
@@ -171,7 +171,7 @@ class OptiModel():
                 self._obj = cur_obj
                 self._bd = cur_bd
                 self._data.append(
-                    [time.time() - self.start_time + self.elapsed_time,
+                    [time.monotonic() - self.start_time + self.elapsed_time,
                      -cur_obj, -cur_bd])
 
     def _save_bounds_to_file(self, path):
@@ -186,7 +186,7 @@ class OptiModel():
             self._obj = None
             self._bd = None
             self._data = []
-            self.start_time = time.time()
+            self.start_time = time.monotonic()
             self.elapsed_time = elapsed_time
 
             self.grb_model.optimize(
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index f7adb7d..ba5cc54 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -90,7 +90,7 @@ class Solver():
         problems depending on whether the first input is a chance_instance
         or a chance_instance_part.
         """
-        start_build = time.time()
+        start_build = time.monotonic()
         cclp_model = CCLPModel(chance_instance_part, bigMFinder)
         cclp_model.build(use_big_M=use_big_M, use_lazy=use_lazy,
                          verbose=verbose, z_start=z_start)
@@ -110,7 +110,7 @@ class Solver():
         cclp_model.grb_model.setParam(GRB.Param.MIPGap, gap)
 
         # Manage time left for solver
-        end_build = time.time()
+        end_build = time.monotonic()
         real_time_limit = max(time_limit - (end_build - start_build), 0.0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
-- 
2.43.0


From f93420347145aea523091cbfc8e2e3654e9999d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 08/20] fix: rounding error in the number of scenarios that may
 be violated

floor(epsilon*N) is one too small when the product is just below an integer
(0.29*100, 0.58*50, 1/49*49): the adaptive method then solved a more
restrictive problem than the MILP, with a wrong optimum or an AssertionError.
---
 src/BigMFinder.py                  | 2 +-
 src/instance/ChanceKnapInstance.py | 2 +-
 src/refiner/Refiner.py             | 2 +-
 src/solver/AdaptivePartitioner.py  | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..be6e180 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -95,7 +95,7 @@ class BigMFinder(object):
         """Find the quantile of violations."""
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
-        q = int(math.floor(epsilon*self.nb_scenarios)+1)
+        q = int(math.floor(epsilon*self.nb_scenarios + 1e-9)+1)
         return violations[q]
 
     #   - - - Public methods - - -
diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..cda1486 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,7 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + 1e-9
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..975d75e 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,7 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + 1e-9))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 3172d26..4e15047 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,9 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + 1e-9) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 6b0cc0941494a0e9cf77325d9f40e84f7d77ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 09/20] fix: IndexError in Song's big M when all but one
 scenario may be violated

The quantile index floor(epsilon*N)+1 is out of range when at most one
scenario has to be satisfied.
---
 src/BigMFinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index be6e180..12a04d5 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,7 +96,7 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios + 1e-9)+1)
-        return violations[q]
+        return violations[min(q, len(violations)-1)]
 
     #   - - - Public methods - - -
     def run_belotti_et_al_big_M(self, vUB,
-- 
2.43.0


From f950d8a9c10cf11d6c840f0d8eb028ad089a7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 10/20] fix: MILP result row does not tell the big-M methods
 apart

The codes were attached to names no longer in use, so both Belotti's and
Song's method were recorded as 0, and without big M the row could not be
written for lack of big_m_time.
---
 src/solver/MilpSolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..42298e8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
@@ -41,8 +42,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From aa8073692b8ca703df53bb37d5fc70c8632fc429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 11/20] fix: export looks for other file names than main.py
 writes

int(e*100) truncates (0.29 gives 28) where main.py rounds, so the results of
such epsilons were reported as missing.
---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 86254029cd3575225e30a9831009df97a52300c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 12/20] fix: a crash or disk error while writing leaves a
 truncated output file

Result rows, logs, tables and instances were written in place: a kill or a
full disk destroyed the previous version and left a torn file under the final
name, on which the export script then fails.  Write to a temporary file and
rename it.
---
 .../knapsack/instance-generator.py            |  5 +++-
 src/atomic_file.py                            | 23 +++++++++++++++++++
 src/export/format_results.py                  |  4 +++-
 src/optim/OptiModel.py                        |  4 +++-
 src/solver/AdaptivePartitioner.py             |  5 ++--
 src/solver/MilpSolver.py                      |  3 ++-
 6 files changed, 38 insertions(+), 6 deletions(-)
 create mode 100644 src/atomic_file.py

diff --git a/data/cc-instances/knapsack/instance-generator.py b/data/cc-instances/knapsack/instance-generator.py
index cb6994d..63ad8b3 100644
--- a/data/cc-instances/knapsack/instance-generator.py
+++ b/data/cc-instances/knapsack/instance-generator.py
@@ -1,4 +1,5 @@
 import csv
+import os
 import sys
 import numpy as np
 
@@ -63,10 +64,12 @@ for instance in range(1, qtyInstances+1):
         str(qtyConstraints) + "-" + str(qtyScenarios) + "-" + \
         str(instance)+".csv"
     print(instanceFile)
-    with open(instanceFile, 'w', newline='\n') as csvfile:
+    # The file gets its name once it is complete
+    with open(instanceFile + '.tmp', 'w', newline='\n') as csvfile:
         writer = csv.writer(csvfile, delimiter=',')
         writer.writerow(np.insert(instanceInfo, 2, qtyScenarios))
         writer.writerow(objParam)
         for s in range(qtyScenarios):
             writer.writerows(randomMatrixA[s, :, :].tolist())
         writer.writerow(vectorB)
+    os.replace(instanceFile + '.tmp', instanceFile)
diff --git a/src/atomic_file.py b/src/atomic_file.py
new file mode 100644
index 0000000..7cc5826
--- /dev/null
+++ b/src/atomic_file.py
@@ -0,0 +1,23 @@
+import os
+from contextlib import contextmanager
+
+
+@contextmanager
+def atomic_write(path):
+    """
+    Open a file that appears under its name only once it is complete.
+
+    If writing fails or the process is killed, the file that was there
+    before (if any) is left untouched.
+    """
+    temporary_path = path + ".tmp"
+    try:
+        with open(temporary_path, 'w', newline='\n') as file:
+            yield file
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temporary_path, path)
+    except BaseException:
+        if os.path.exists(temporary_path):
+            os.remove(temporary_path)
+        raise
diff --git a/src/export/format_results.py b/src/export/format_results.py
index 3eeeacf..bb7eb92 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -1,6 +1,8 @@
 import numpy as np
 import csv
 
+from src.atomic_file import atomic_write
+
 
 def read_table(file_location):
     with open(file_location, 'r') as file:
@@ -10,7 +12,7 @@ def read_table(file_location):
 
 
 def write_table(file_location, table):
-    with open(file_location, 'w', newline='\n') as csvfile:
+    with atomic_write(file_location) as csvfile:
         writer = csv.writer(csvfile, delimiter=',')
         writer.writerows(table)
 
diff --git a/src/optim/OptiModel.py b/src/optim/OptiModel.py
index 3b1cf64..1230643 100644
--- a/src/optim/OptiModel.py
+++ b/src/optim/OptiModel.py
@@ -4,6 +4,8 @@ from gurobipy import GRB
 import time
 import csv
 
+from src.atomic_file import atomic_write
+
 
 class OptiModel():
     """Metaclass for optimization models."""
@@ -175,7 +177,7 @@ class OptiModel():
                      -cur_obj, -cur_bd])
 
     def _save_bounds_to_file(self, path):
-        with open(path, 'w') as f:
+        with atomic_write(path) as f:
             writer = csv.writer(f)
             writer.writerows(self._data)
 
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e15047..4fdf656 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -2,6 +2,7 @@ import math
 import csv
 import numpy as np
 
+from src.atomic_file import atomic_write
 from src.instance.PartitionChanceKnapInstance import \
     PartitionChanceKnapInstance
 from src.Initializer import Initializer
@@ -358,13 +359,13 @@ class AdaptivePartitioner(Solver):
                                sup_computation_dets)
         written_line = (instance_details + computation_parameters +
                         adaptive_details + computation_details)
-        with open(output_file_location, 'w', newline='\n') as csvfile:
+        with atomic_write(output_file_location) as csvfile:
             writer = csv.writer(csvfile, delimiter=',')
             writer.writerow(written_line)
 
     def write_iteration_details(self, output_file_location):
         # Preparing decimal places string
-        with open(output_file_location, 'w', newline='\n') as csvfile:
+        with atomic_write(output_file_location) as csvfile:
             writer = csv.writer(csvfile, delimiter=',')
             for line in self.informer.iteration_info:
                 writer.writerow(line)
diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 42298e8..0fce180 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -1,5 +1,6 @@
 import csv
 
+from src.atomic_file import atomic_write
 from src.BigMFinder import BigMFinder
 from src.solver.Solver import Solver
 from src.UpperBounder import UpperBounder
@@ -78,6 +79,6 @@ class MilpSolver(Solver):
         instance_details, computation_details = self._get_computation_details()
         written_line = (instance_details + computation_parameters
                         + [self.big_m_time] + computation_details)
-        with open(output_file_location, 'w', newline='\n') as csvfile:
+        with atomic_write(output_file_location) as csvfile:
             writer = csv.writer(csvfile, delimiter=',')
             writer.writerow(written_line)
-- 
2.43.0


From eeaef3adcffb20cb66c94effa111e0b5540ac1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 13/20] fix: time limit of the adaptive methods can end main.py
 without a result row

The alarm was set before the method was built and never cancelled: when it
struck while the initial partition was computed, in the first steps of solve()
(no iteration counter yet), or after the solve while the row was being
written, the script ended with a KeyboardInterrupt or AttributeError and the
experiment had no result.  The alarm now only covers the interruptible solve.
---
 main.py                           | 12 ++++++++++--
 src/solver/AdaptivePartitioner.py |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 25f3089..dcae4b8 100644
--- a/main.py
+++ b/main.py
@@ -1,3 +1,4 @@
+import math
 import random
 import sys
 import os
@@ -73,6 +74,11 @@ except AttributeError:
     print('--                 ! Warning !                 --\n')
 
 
+def set_alarm():
+    """Raise the alarm when the remaining time is used up."""
+    signal.alarm(max(math.ceil(TimeManager.get_remaining_time()), 1))
+
+
 if METHOD == 1:
     method = MilpSolver(chance_instance, time_limit=TIME_LIMIT, gap=GAP)
     method.solve(use_big_m=True, big_m_method="song",
@@ -82,7 +88,6 @@ elif METHOD == 2:
     method.solve(use_big_m=True, big_m_method="belotti",
                  save_bounds=True, path=iteration_output_file_name)
 elif METHOD == 3:
-    signal.alarm(TIME_LIMIT)
     method = AdaptivePartitioner(
         chance_instance, initial_partition_type="random",
         split_method='random',
@@ -90,12 +95,13 @@ elif METHOD == 3:
         time_limit=TIME_LIMIT, gap=GAP)
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
+        set_alarm()
         method.solve(partitionBigMFinder, use_merger=False,
                      use_big_M=True, big_m_method="belotti")
+        signal.alarm(0)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
-    signal.alarm(TIME_LIMIT)
     method = AdaptivePartitioner(
         chance_instance, initial_partition_type="cost",
         split_method='cost',
@@ -104,9 +110,11 @@ elif METHOD == 4:
         time_limit=TIME_LIMIT, gap=GAP)
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
+        set_alarm()
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
                      use_lazy=True)
+        signal.alarm(0)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4fdf656..25ae4aa 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -32,6 +32,8 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.iteration = 0
+        self.use_big_M = False
         self.did_merge = False
         self.MERGE_TOL = 1.00
         self.split_method = split_method
-- 
2.43.0


From 020ae233f970f9257df2133ff16cf8b1ec130350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/20] fix: adaptive method with merging can cycle forever

A merge undoes splits, so without progress of the upper bound the method can
return to a partition it has already visited, and never ends: seen as two
partitions that alternate with the same vUB.  Merge again only once vUB has
improved since the last merge.
---
 src/solver/AdaptivePartitioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 25ae4aa..ed27e92 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -35,6 +35,7 @@ class AdaptivePartitioner(Solver):
         self.iteration = 0
         self.use_big_M = False
         self.did_merge = False
+        self.vUB_last_merge = np.inf
         self.MERGE_TOL = 1.00
         self.split_method = split_method
         self.projection_method = projection_method
@@ -235,7 +236,11 @@ class AdaptivePartitioner(Solver):
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
         if use_merger:
-            if max(new_subset_costs) <= self.vUB:
+            # Only undo splits if vUB has improved since the last merge:
+            # otherwise, the same partitions may be visited forever
+            improved = self.vUB < self.vUB_last_merge - 1e-6
+            if improved and max(new_subset_costs) <= self.vUB:
+                self.vUB_last_merge = self.vUB
                 feasible_subsets = self.refiner.feasible_subsets
                 nb_feasible = len(feasible_subsets)
                 if nb_feasible == self.refiner.mu:
-- 
2.43.0


From b5488c3ef50e9b5f6b3bda2bd07389f4bb3d462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 15/20] fix: bound log of a MILP run lags by the time to build
 the model

---
 src/solver/Solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index ba5cc54..246e2eb 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -113,6 +113,8 @@ class Solver():
         end_build = time.monotonic()
         real_time_limit = max(time_limit - (end_build - start_build), 0.0)
         print('Time left: ', real_time_limit)
+        if elapsed_time is not None:
+            elapsed_time += end_build - start_build
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
         # - Solve and read results -
-- 
2.43.0


From 2803c517a7f02842b0acdf3aae69899fd131c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 16/20] fix: an interrupt can separate the incumbent from its
 lower bound

---
 src/solver/AdaptivePartitioner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index ed27e92..558144b 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -149,8 +149,9 @@ class AdaptivePartitioner(Solver):
         is_feasible = self.chance_instance.check_feasibility(xUB)
         if is_feasible and v_obj > self.vLB:
             # Solution of the partitioned problem solves the original one
+            vLB = min(v_obj, self.vUB)
             self.xLB = xUB
-            self.vLB = min(v_obj, self.vUB)
+            self.vLB = vLB
 
         # - Store results -
         self.zUB = z
-- 
2.43.0


From bf34d4e4b051237cdd512290632b3b5d2a4290c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 17/20] fix: a truncated instance file is solved as if complete

When rows are missing the last remaining row was taken for the right-hand
side (e.g. ccmknap-10-10 without its last row), and surplus rows shift the
scenarios. The rows are now checked against the header.
---
 src/instance/ChanceKnapInstance.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index cda1486..76b3902 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -22,6 +22,20 @@ class ChanceKnapInstance(ChanceInstance):
         self.instance_info = np.array(self.complete_file[0])
         self.nb_vars = int(self.instance_info[0])
         self.nb_scenarios = int(self.instance_info[2])
+        self._check_complete()
+
+    def _check_complete(self):
+        """
+        The number of rows and their lengths must match the header:
+        a truncated file is refused.
+        """
+        nb_constraints = int(self.instance_info[1])
+        expected_lengths = ([self.nb_vars]
+                            + [self.nb_vars]*self.nb_scenarios*nb_constraints
+                            + [nb_constraints])
+        if [len(row) for row in self.complete_file[1:]] != expected_lengths:
+            raise ValueError("Incomplete or malformed instance file: "
+                             + self.file_location)
 
     def _parse_model_data(self):
         """
-- 
2.43.0


From 5b910803f99e5fed7e4afbba468b65ab72cc7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 18/20] fix: a power failure may leave a truncated instance
 under its name

---
 data/cc-instances/knapsack/instance-generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/cc-instances/knapsack/instance-generator.py b/data/cc-instances/knapsack/instance-generator.py
index 63ad8b3..7d46a43 100644
--- a/data/cc-instances/knapsack/instance-generator.py
+++ b/data/cc-instances/knapsack/instance-generator.py
@@ -72,4 +72,6 @@ for instance in range(1, qtyInstances+1):
         for s in range(qtyScenarios):
             writer.writerows(randomMatrixA[s, :, :].tolist())
         writer.writerow(vectorB)
+        csvfile.flush()
+        os.fsync(csvfile.fileno())
     os.replace(instanceFile + '.tmp', instanceFile)
-- 
2.43.0


From 6271d374c962dc79213ba2a7c1899e7f07213e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 19/20] fix: experiments started side by side fail to create
 the results folder

---
 main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.py b/main.py
index dcae4b8..4e55675 100644
--- a/main.py
+++ b/main.py
@@ -37,8 +37,7 @@ os.environ["NUMEXPR_NUM_THREADS"] = str(NUM_THREADS)
 os.environ['OPENBLAS_NUM_THREADS'] = str(NUM_THREADS)
 
 # Create folders for results
-if not os.path.exists(OUTPUT_FILE_LOCATION):
-    os.makedirs(OUTPUT_FILE_LOCATION)
+os.makedirs(OUTPUT_FILE_LOCATION, exist_ok=True)
 
 # Load instance data
 chance_instance = ChanceKnapInstance(FILE_LOCATION,
-- 
2.43.0


From 22c193f2d0aff217ff2a4d9b9c6599b0e1965da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 20/20] fix: subset costs within the default MIP gap are used
 as upper bounds

The solver may call a solution optimal that is up to 1e-4 short of the
optimum.  Its value was used as an upper bound, to prune subsets and, by way
of the bound, to compute big-M values: the optimum could be cut off.
---
 src/Evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Evaluator.py b/src/Evaluator.py
index 07631fd..55d9673 100644
--- a/src/Evaluator.py
+++ b/src/Evaluator.py
@@ -1,4 +1,5 @@
 from src.optim.DeterModel import DeterModel
+from gurobipy import GRB
 from math import floor
 
 
@@ -32,6 +33,8 @@ class Evaluator():
         """
         deterministicModel = DeterModel(self.chance_instance)
         deterministicModel.build(subset)
+        # The cost is used as an upper bound: it has to be exact
+        deterministicModel.grb_model.setParam(GRB.Param.MIPGap, 1e-8)
         deterministicModel.solve()
         subset_cost = deterministicModel.get_obj_val()
         subset_sol = deterministicModel.get_var_x_val()
-- 
2.43.0

