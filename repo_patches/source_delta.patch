From 6580716b7a26be9118be48d4b032af35e2724737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:19 +0000
Subject: [PATCH 01/35] fix: solving a problem again starts from the given
 input

solve() modified the caller's graph and parameters in place (fixed costs
added again at every call, arcs and locked nodes removed, num_stops and
num_vehicles overwritten) and kept counters, initial routes and locked routes
of the previous call.
---
 vrpy/vrp.py | 69 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..14ac0b8 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -236,26 +236,46 @@ class VehicleRoutingProblem:
         self._max_iter = max_iter
         self._run_exact = run_exact
         self._heuristic_only = heuristic_only
-        if self._pricing_strategy == "Hyper":
-            self.hyper_heuristic = _HyperHeuristic()
+        self.hyper_heuristic = (
+            _HyperHeuristic() if self._pricing_strategy == "Hyper" else None
+        )
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
-        # If only one type of vehicle, some formatting is done
-        if not self.mixed_fleet:
-            self._format()
-        # Pre-processing
-        self._pre_solve()
+        # nothing is carried over from a previous call
+        self._preassignments = preassignments or []
+        self._initial_routes = initial_routes or []
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_routes_as_graphs = []
         if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+            check_clarke_wright_compatibility(
+                self.time_windows,
+                self.pickup_delivery,
+                self.distribution_collection,
+                self.mixed_fleet,
+                self.periodic,
+            )
+        # The input graph and parameters are modified while solving: work on a
+        # copy so that the problem can be solved again
+        inputs = self.G, self.num_stops, self.num_vehicles
+        self.G = self.G.to_directed()
+        try:
+            # If only one type of vehicle, some formatting is done
+            if not self.mixed_fleet:
+                self._format()
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G, self.num_stops, self.num_vehicles = inputs
 
     @property
     def best_routes_type(self):
@@ -383,8 +403,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +432,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
@@ -848,13 +868,6 @@ class VehicleRoutingProblem:
 
     def _solve_with_clarke_wright(self):
         # return Clarke Wright solution
-        check_clarke_wright_compatibility(
-            self.time_windows,
-            self.pickup_delivery,
-            self.distribution_collection,
-            self.mixed_fleet,
-            self.periodic,
-        )
         alg = _ClarkeWright(
             self.G,
             self.load_capacity,
-- 
2.43.0


From 1715571e285fb1167b9513050eeb2f3a8ea1d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:19 +0000
Subject: [PATCH 02/35] fix: diving heuristic shared its tabu list between all
 problems

The mutable default argument made a dive skip columns fixed while solving
another problem in the same process.
---
 vrpy/restricted_master_heuristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..e83db81 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -93,6 +93,6 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None, tabu_list=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        self.tabu_list = tabu_list if tabu_list is not None else []
-- 
2.43.0


From d94241b484806e225487f386dab33677cc6b6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 03/35] fix: time limit was ignored once used up

When no time was left (0.0), the limit was taken for "no limit" and the
labelling algorithm ran unbounded; its second run got the full limit again,
and the final integer program was solved a second time after it had returned.
---
 vrpy/master_solve_pulp.py |  1 -
 vrpy/subproblem_cspy.py   | 10 +++++++++-
 vrpy/subproblem_lp.py     |  2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..cfdd580 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -137,7 +137,6 @@ class _MasterSolvePulp(_MasterProblemBase):
             self.dropped_nodes = [
                 v for v in self.drop if pulp.value(self.drop[v]) > 0.5
             ]
-        self.prob.resolve()
         total_cost = self.prob.objective.value()
         if not relax and self.drop_penalty and len(self.dropped_nodes) > 0:
             logger.info("dropped nodes : %s" % self.dropped_nodes)
diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..39f9172 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,6 @@
 import logging
 from math import floor
+from time import monotonic
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -205,6 +206,9 @@ class _SubProblemCSPY(_SubProblemBase):
         """
         if not self.run_subsolve:
             return self.routes, False
+        if time_limit is not None and time_limit <= 0:
+            return self.routes, False
+        start_time = monotonic()
 
         self.formulate()
         logger.debug("resources = {}".format(self.resources))
@@ -243,13 +247,17 @@ class _SubProblemCSPY(_SubProblemBase):
             logger.debug(
                 f"Solving subproblem using elementary={elementary}, threshold={thr}, direction={direction}"
             )
+            # Both runs share the time limit
+            remaining_time = None
+            if time_limit is not None:
+                remaining_time = time_limit - 0.5 - (monotonic() - start_time)
             alg = BiDirectional(
                 self.sub_G,
                 self.max_res,
                 self.min_res,
                 threshold=thr,
                 direction=direction,
-                time_limit=time_limit - 0.5 if time_limit else None,
+                time_limit=remaining_time,
                 elementary=elementary,
                 REF_callback=my_callback,
                 # pickup_delivery_pairs=self.pickup_delivery_pairs,
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..aa98a27 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
-- 
2.43.0


From 76b0b01cfd88274910a44a76dacc838e341c38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 04/35] fix: elapsed time was measured with the wall clock

A clock adjustment while solving (NTP, DST, manual change) extended the time
limit or cut it short, and could make comp_time negative.
---
 vrpy/hyper_heuristic.py | 2 +-
 vrpy/vrp.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..e907a84 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -1,5 +1,5 @@
 from math import exp, log, sqrt
-from time import time
+from time import monotonic as time
 import logging
 import bisect
 
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 14ac0b8..dd64089 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1,6 +1,6 @@
 import sys
 import logging
-from time import time
+from time import monotonic as time
 from typing import List, Union
 
 from networkx import DiGraph, shortest_path  # draw_networkx
-- 
2.43.0


From 0da76b26d595ba16199ecb9474a954e037972480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 05/35] fix: pricing used the values of an unsolved subproblem

A subproblem stopped before any integer solution was found reports the
continuous relaxation, from which a route that does not exist was built.
---
 vrpy/subproblem_lp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index aa98a27..79ebba1 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -42,7 +42,7 @@ class _SubProblemLP(_SubProblemBase):
         if (
             pulp.value(self.prob.objective) is not None
             and pulp.value(self.prob.objective) < -(10**-3)
-            and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
+            and pulp.LpStatus[self.prob.status] == "Optimal"
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = True
             self._add_new_route()
-- 
2.43.0


From 94725074848ece7d8f979b991654640e19d14a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 06/35] fix: routes with a value of 1e-9 were selected

The solver returns integer variables up to its integrality tolerance.
---
 vrpy/master_solve_pulp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index cfdd580..2988154 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -125,7 +125,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         best_routes = []
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
-            if val is not None and val > 0:
+            # Integer variables are integer up to the solver's tolerance
+            if val is not None and val > (0 if relax else 0.5):
                 best_routes.append(r)
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
-- 
2.43.0


From 169c716f39333efe67b257bd8f63e3b2d41bd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 07/35] fix: with dive=True the plan was not integer

Every route with a positive value in the last relaxation was returned, so that
customers were visited several times and more vehicles were used than
available. The columns found while diving now enter the integer program.
---
 vrpy/master_solve_pulp.py |  5 +++++
 vrpy/vrp.py               | 15 ++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 2988154..1903cb7 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -68,6 +68,11 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.prob.resolve()
         return self.get_duals(), self.prob.objective.value()
 
+    def undo_dive(self):
+        """Removes the constraints added by the diving heuristic."""
+        for name in [c for c in self.prob.constraints if c.startswith("fix_")]:
+            del self.prob.constraints[name]
+
     def update(self, new_route):
         """Add new column."""
         if self.minimize_global_span:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index dd64089..5a8373f 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -527,15 +527,12 @@ class VehicleRoutingProblem:
 
     def _solve(self, dive, solver):
         self._column_generation()
-        if dive:
-            self._dive = True
-            self._more_routes = True
-            self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+        if len(self.G.nodes()) > 2:
+            if dive:
+                self._dive = True
+                self._more_routes = True
+                self._column_generation()
+                self.masterproblem.undo_dive()
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From fdc1ac1f8471b339fe8ee2371e9b6a7f019b02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 08/35] fix: the diving heuristic ignored the time limit and
 the solver

The relaxations it solves ran with pulp's default solver and no limit.
---
 vrpy/master_solve_pulp.py            | 43 +++++++++++++++++-----------
 vrpy/restricted_master_heuristics.py |  5 ++--
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 1903cb7..ff37386 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -1,4 +1,5 @@
 import logging
+from time import monotonic
 from typing import Optional
 
 from networkx import shortest_path
@@ -63,9 +64,18 @@ class _MasterSolvePulp(_MasterProblemBase):
         return duals, self.prob.objective.value()
 
     def solve_and_dive(self, time_limit):
-        self._solve(relax=True, time_limit=time_limit)
-        self.diving_heuristic.run_dive(self.prob)
-        self.prob.resolve()
+        start_time = monotonic()
+
+        def solve(prob):
+            # All the solves share the time limit
+            remaining_time = None
+            if time_limit is not None:
+                remaining_time = max(0, time_limit - (monotonic() - start_time))
+            prob.solve(self._get_solver(remaining_time))
+
+        solve(self.prob)
+        self.diving_heuristic.run_dive(self.prob, solve)
+        solve(self.prob)
         return self.get_duals(), self.prob.objective.value()
 
     def undo_dive(self):
@@ -207,22 +217,21 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
         # Solve with appropriate solver
+        self.prob.solve(self._get_solver(time_limit))
+
+    def _get_solver(self, time_limit: Optional[int]):
         if self.solver == "cbc":
-            self.prob.solve(
-                pulp.PULP_CBC_CMD(
-                    msg=False,
-                    timeLimit=time_limit,
-                    options=["startalg", "barrier", "crossover", "0"],
-                )
+            return pulp.PULP_CBC_CMD(
+                msg=False,
+                timeLimit=time_limit,
+                options=["startalg", "barrier", "crossover", "0"],
             )
         elif self.solver == "cplex":
-            self.prob.solve(
-                pulp.CPLEX_CMD(
-                    msg=False,
-                    timeLimit=time_limit,
-                    # options=["set lpmethod 4", "set barrier crossover -1"], # set barrier crossover -1 is deprecated
-                    options=["set lpmethod 4", "set solutiontype 2"],
-                )
+            return pulp.CPLEX_CMD(
+                msg=False,
+                timeLimit=time_limit,
+                # options=["set lpmethod 4", "set barrier crossover -1"], # set barrier crossover -1 is deprecated
+                options=["set lpmethod 4", "set solutiontype 2"],
             )
         elif self.solver == "gurobi":
             gurobi_options = [
@@ -237,7 +246,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                         time_limit,
                     )
                 )
-            self.prob.solve(pulp.GUROBI(msg=False, options=gurobi_options))
+            return pulp.GUROBI(msg=False, options=gurobi_options)
 
     # Private methods for formulating and updating the problem #
 
diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index e83db81..5d2d3a7 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -29,7 +29,8 @@ class _DivingHeuristic:
         self.current_node = _LPNode()
         self.tabu_list = []
 
-    def run_dive(self, prob):
+    def run_dive(self, prob, solve):
+        """Dives from prob; solve is the function that solves a problem."""
         tabu_list = []
         relax = prob.deepcopy()
         # Init current_node
@@ -72,7 +73,7 @@ class _DivingHeuristic:
 
                 relax += constrs[name_le]  # add <= constraint
                 relax += constrs[name_ge]  # add >= constraint
-                relax.resolve()
+                solve(relax)
                 tabu_list.append(var_to_fix.name)
                 self.depth += 1
                 # if not optimal status code from :
-- 
2.43.0


From dda15da59674d42e77f95793bcc3db6d0ad5cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 09/35] fix: mixed fleet: routes of different vehicle types
 were mixed up

Initial routes were charged the cost of the first vehicle type whatever type
they were assigned, and a route already known for one vehicle type was never
generated for another, cheaper, one.
---
 vrpy/subproblem_cspy.py |  4 +++-
 vrpy/vrp.py             | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 39f9172..cd773df 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -278,7 +278,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and self.vehicle_type == r.graph["vehicle_type"]
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 5a8373f..8d17e9b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -965,12 +965,6 @@ class VehicleRoutingProblem:
         for route_id, r in enumerate(self._initial_routes, start=1):
             total_cost = 0
             G = DiGraph(name=route_id)
-            edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
                     if (
@@ -985,6 +979,12 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            edges = list(zip(r[:-1], r[1:]))
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
-- 
2.43.0


From 6a7b0940cc552eab54be068fcaf900bf43a00ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 10/35] fix: "Hyper" stopped as soon as one heuristic found no
 route

As documented for the pricing strategies, the sub problem is solved exactly
when the heuristic does not find any route with negative reduced cost.
---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8d17e9b..8986836 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -654,7 +654,7 @@ class VehicleRoutingProblem:
                 more_columns = self._attempt_solve_best_edges2(
                     vehicle=vehicle, duals=duals, route=route
                 )
-            elif pricing_strategy == "Exact":
+            if pricing_strategy == "Exact" or not more_columns:
                 more_columns = self._attempt_solve_exact(
                     vehicle=vehicle, duals=duals, route=route
                 )
-- 
2.43.0


From 0fcf0b282ddcd76265f94089bd8f6f58fb1b5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 11/35] fix: routes exceeded the maximum duration when there
 are service times

The labelling algorithm and the randomised greedy pricing only counted travel
times; the latter also forgot the last edge (time and reduced cost) of a path
ended by the maximum number of stops.
---
 vrpy/subproblem_cspy.py   |  3 ++-
 vrpy/subproblem_greedy.py | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index cd773df..1e1e975 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -374,7 +374,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..7f4c614 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -122,13 +122,18 @@ class _SubProblemGreedy(_SubProblemBase):
 
         self._stops += 1
         self._load += self.sub_G.nodes[self._new_node]["demand"]
+        self._time += self.sub_G.nodes[self._new_node].get("service_time", 0)
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
             self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
-                if self._new_node in self.sub_G.predecessors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.predecessors(
+                    "Sink"
+                ) and self._constraints_met("Sink", forward=True):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -141,7 +146,11 @@ class _SubProblemGreedy(_SubProblemBase):
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.successors(
+                    "Source"
+                ) and self._constraints_met("Source", forward=False):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -181,12 +190,16 @@ class _SubProblemGreedy(_SubProblemBase):
         """Checks time constraint."""
         if forward:
             return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
+                self._time
+                + self.sub_G.edges[self._last_node, v]["time"]
+                + self.sub_G.nodes[v].get("service_time", 0)
                 <= self.duration
             )
         else:
             return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
+                self._time
+                + self.sub_G.edges[v, self._last_node]["time"]
+                + self.sub_G.nodes[v].get("service_time", 0)
                 <= self.duration
             )
 
-- 
2.43.0


From 9e2a80daf6607a322739c6e42ca590b85c8a8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 12/35] fix: without capacity or stop limit, long routes were
 never generated

The default bound on the number of edges of a path was half the number of
nodes, so that routes visiting more than about half the customers were not
considered.
---
 vrpy/subproblem_cspy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 1e1e975..ac4d4fd 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 from time import monotonic
 
 from numpy import zeros
@@ -173,7 +172,7 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
             sum(
                 [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-- 
2.43.0


From 824c48e77f5d1e6133c80b551542893b58156611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 13/35] fix: periodic: customers were visited less often than
 required

A route could be used only once over the time span and the artificial
variables of the relaxation could remain positive in the integer program.
---
 vrpy/master_solve_pulp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index ff37386..f9b4be4 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -142,7 +142,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             val = pulp.value(self.y[r.graph["name"]])
             # Integer variables are integer up to the solver's tolerance
             if val is not None and val > (0 if relax else 0.5):
-                best_routes.append(r)
+                best_routes += [r] * max(1, round(val))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -211,7 +211,10 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
-            # Force vehicle bound artificial variable to 0
+            # Force artificial variables to 0
+            for var in self.dummy.values():
+                var.upBound = 0
+                var.lowBound = 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
                     var.upBound = 0
@@ -333,7 +336,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            # The same route may be used several times over the time span
+            upBound=None if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From a5fd24b3b5744cc426b4db7a87c8365ac18f57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 14/35] fix: routes priced with LP could contain disconnected
 customers

Cycles of zero reduced cost were taken for a part of the route, whose
customers were then considered as visited.
---
 vrpy/subproblem_lp.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 79ebba1..aafb020 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -55,13 +55,19 @@ class _SubProblemLP(_SubProblemBase):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
-        for (i, j) in self.sub_G.edges():
-            if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+        # The solution may also contain cycles which are not part of the route
+        successor = {
+            i: j for (i, j) in self.sub_G.edges() if pulp.value(self.x[(i, j)]) > 0.5
+        }
+        i = "Source"
+        while i != "Sink":
+            j = successor[i]
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
+            i = j
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
-- 
2.43.0


From 441bd3833259beb35c856e63a1e631d3fadefbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 15/35] fix: Clarke & Wright routes exceeded the duration with
 asymmetric times

Inserting a customer at the start of a route was charged as if it were
inserted at its end.
---
 vrpy/clarke_wright.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..eef2bae 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._extra_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _extra_time(self, existing_node, new_node, depot):
+        """Time needed to insert new_node between existing_node and depot."""
+        if depot == "Sink":
+            return (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                + self.G.nodes[new_node]["service_time"]
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        return (
+            self.G.edges["Source", new_node]["time"]
+            + self.G.edges[new_node, existing_node]["time"]
+            + self.G.nodes[new_node]["service_time"]
+            - self.G.edges["Source", existing_node]["time"]
+        )
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._extra_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +209,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From c3e0cb357da7bc160161a79afe02d9c46b32c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:50 +0000
Subject: [PATCH 16/35] fix: "Hyper" divided by zero when no route is selected

This happens when every customer is dropped, or when the relaxation is
stopped by the time limit.
---
 vrpy/hyper_heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index e907a84..a6da947 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -333,7 +333,7 @@ class _HyperHeuristic:
                 if sum_exp != 0:
                     norm_spread = self.exp[heuristic] / sum_exp
                 self.q[heuristic] = (
-                    self.weight_col_basic * active_i / active
+                    (self.weight_col_basic * active_i / active if active else 0)
                     + self.weight_runtime * norm_runtime
                     + self.weight_obj * self.norm_objective_decrease[heuristic]
                     + self.weight_col_total * active_i / total_added
-- 
2.43.0


From 0ca16955b3cfc07c74303892361f00deeaae2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:13 +0000
Subject: [PATCH 17/35] fix: routes found by the greedy pricing were left
 unused

When the subproblem then found no other route, the column generation stopped
without solving the master problem with the new routes.
---
 vrpy/subproblem_greedy.py | 12 ++++++++++--
 vrpy/vrp.py               |  9 +++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 7f4c614..035a717 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < 0 and self._is_new_route():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +43,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < 0 and self._is_new_route():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -159,6 +159,14 @@ class _SubProblemGreedy(_SubProblemBase):
                 return False
         return True
 
+    def _is_new_route(self):
+        """Checks if the current path is not already in the pool of columns."""
+        edges = list(zip(self._current_path[:-1], self._current_path[1:]))
+        return not any(
+            edges == list(r.edges()) and self.vehicle_type == r.graph["vehicle_type"]
+            for r in self.routes
+        )
+
     def _add_new_route(self):
         """Create new route as DiGraph and add to pool of columns"""
         route_id = len(self.routes) + 1
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8986836..706444a 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -582,6 +582,7 @@ class VehicleRoutingProblem:
 
         for vehicle in range(self._vehicle_types):
             # Solve pricing problem with randomised greedy algorithm
+            greedy_routes = False
             if (
                 self._greedy
                 and not self.time_windows
@@ -590,9 +591,9 @@ class VehicleRoutingProblem:
                 and not self.minimize_global_span
             ):
                 subproblem = self._def_subproblem(duals, vehicle, greedy=True)
-                self.routes, self._more_routes = subproblem.solve(n_runs=20)
+                self.routes, greedy_routes = subproblem.solve(n_runs=20)
                 # Add initial_routes
-                if self._more_routes:
+                if greedy_routes:
                     for r in (
                         r
                         for r in self.routes
@@ -620,6 +621,10 @@ class VehicleRoutingProblem:
                 self.routes[-1].graph["heuristic"] = pricing_strategy
                 self.masterproblem.update(self.routes[-1])
                 break
+            elif greedy_routes:
+                # The routes found by the greedy algorithm may be used
+                self._more_routes = True
+                break
             elif self._pricing_strategy == "Hyper":
                 self.hyper_heuristic.end_time = time()
 
-- 
2.43.0


From 14306215436c4503822a80bedfeb6226d5c9f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:00 +0000
Subject: [PATCH 18/35] fix: crash when all routes are preassigned and dropping
 is allowed

---
 vrpy/master_solve_pulp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index f9b4be4..f8eb18f 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -28,6 +28,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         # variables
         self.y = {}  # route selection variable
         self.drop = {}  # dropping variable
+        self.dropped_nodes = []
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
         self.makespan = {}  # maximum global span
-- 
2.43.0


From 0f51ca9a16b0954ab6e62f735d6fd28f6ffb8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:51 +0000
Subject: [PATCH 19/35] fix: heuristic_only lost the customers of preassigned
 routes

---
 vrpy/vrp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 706444a..06b382e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -886,6 +886,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._merge_with_preassigned_routes(len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1152,7 +1153,10 @@ class VehicleRoutingProblem:
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
-        # Merge with preassigned complete routes
+        self._merge_with_preassigned_routes(route_id)
+
+    def _merge_with_preassigned_routes(self, route_id):
+        """Merges with preassigned complete routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From 501dc2edefd675fd42458eb084f7679aaabb16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:59 +0000
Subject: [PATCH 20/35] fix: node names with special characters made solve()
 fail

---
 vrpy/master_solve_pulp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index f8eb18f..cc13daa 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -107,7 +107,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                # pulp replaces special characters of the node's name
+                constr_name = self.set_covering_constrs[node].name
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
-- 
2.43.0


From 85351392f83da8f7eb5abe1bcc4be1bf7bf20def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:59 +0000
Subject: [PATCH 21/35] fix: no objective value if all costs are zero

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index cc13daa..64f7e91 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -62,7 +62,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         #                          (r.graph["name"], val))
         duals = self.get_duals()
         logger.debug("duals : %s" % duals)
-        return duals, self.prob.objective.value()
+        # pulp gives no value if all the costs are 0
+        return duals, self.prob.objective.value() or 0
 
     def solve_and_dive(self, time_limit):
         start_time = monotonic()
@@ -77,7 +78,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         solve(self.prob)
         self.diving_heuristic.run_dive(self.prob, solve)
         solve(self.prob)
-        return self.get_duals(), self.prob.objective.value()
+        return self.get_duals(), self.prob.objective.value() or 0
 
     def undo_dive(self):
         """Removes the constraints added by the diving heuristic."""
-- 
2.43.0


From a28fa60769b4c8796eea36fd6f81fd0b5c8263d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:59 +0000
Subject: [PATCH 22/35] fix: diving heuristic failed on variables without value

---
 vrpy/restricted_master_heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 5d2d3a7..504c203 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -42,7 +42,9 @@ class _DivingHeuristic:
             non_integer_vars = [
                 var
                 for var in relax.variables()
-                if abs(var.varValue - round(var.varValue)) != 0
+                # The solver gives no value if the variable plays no role
+                if var.varValue is not None
+                and abs(var.varValue - round(var.varValue)) != 0
             ]
             # All non-integer variables not already fixed in this or any
             # iteration of the diving heuristic
-- 
2.43.0


From f47537c737b5395ab2bce4d40cde5978b98402aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:59 +0000
Subject: [PATCH 23/35] fix: pricing strategy BestPaths divided by zero if all
 weights are equal

---
 vrpy/subproblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..2cf6bb5 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -200,10 +200,12 @@ class _SubProblemBase:
         # Normalize weights
         max_weight = max(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
+        # All weights may be equal
+        weight_range = (max_weight - min_weight) or 1
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+            ) / weight_range
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From ed8df7abbf2bd9ba2c4aefc300416c5fc18a023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 24/35] fix: best_value failed when minimizing the global span
 of no route

---
 vrpy/vrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 06b382e..cb3bf77 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -287,10 +287,10 @@ class VehicleRoutingProblem:
         if self.drop_penalty:
             penalty = self.drop_penalty * len(self._dropped_nodes)
             if self.minimize_global_span:
-                return max(self.best_routes_cost.values()) + penalty
+                return max(self.best_routes_cost.values(), default=0) + penalty
             return sum(self.best_routes_cost.values()) + penalty
         if self.minimize_global_span:
-            return max(self.best_routes_cost.values())
+            return max(self.best_routes_cost.values(), default=0)
         return sum(self.best_routes_cost.values())
 
     @property
-- 
2.43.0


From 3b1a891942434e45dc5675f900a41a9c538a23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 25/35] fix: vehicle type of given routes ignored collections
 and pickups

---
 vrpy/vrp.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index cb3bf77..4f83362 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -972,11 +972,9 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             if self.load_capacity:
+                max_load = self._get_max_load(r)
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if max_load <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -998,6 +996,20 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _get_max_load(self, route):
+        """Largest load of the vehicle along the route."""
+        load = 0
+        if not self.pickup_delivery:
+            load = sum(self._H.nodes[v]["demand"] for v in route)
+        max_load = load
+        for v in route:
+            if self.pickup_delivery:
+                load += self._H.nodes[v]["demand"]
+            elif self.distribution_collection:
+                load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
+            max_load = max(max_load, load)
+        return max_load
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1165,7 +1177,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._get_max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From 983a2973cb16494eeeae566f41112a7630d1733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 26/35] fix: customers without demand could be visited twice on
 the same day

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From a11a5326f1de5e0fccdf4e99bb95d1ebe61ac59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 27/35] fix: only 74 routes could be selected when minimizing
 the global span

---
 vrpy/master_solve_pulp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 64f7e91..af20000 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -429,7 +429,9 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = [
+                self.makespan_constr[x] for x in range(1, self._n_columns)
+            ]
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From 865ea80fdc97af11eb4409d1f81ef1b1570d3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 28/35] fix: upper bound on route variables stopped column
 generation too early

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index af20000..95530cf 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -339,8 +339,9 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            # The same route may be used several times over the time span
-            upBound=None if self.periodic else 1,
+            # No upper bound: the covering constraints imply it (if the problem is
+            # not periodic), and its dual value is unknown to the subproblem
+            upBound=None,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 0455cb7471d4d90ebee1783f93d38b4a0efee409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 29/35] fix: column generation with drop penalty used the duals
 of an integer program

---
 vrpy/master_solve_pulp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 95530cf..19d1a8e 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -214,6 +214,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
+            for var in self.drop.values():
+                var.cat = pulp.LpInteger
             # Force artificial variables to 0
             for var in self.dummy.values():
                 var.upBound = 0
@@ -387,7 +389,7 @@ class _MasterSolvePulp(_MasterProblemBase):
 
     def _add_drop_variables(self):
         """
-        Boolean variable.
+        Boolean variable (relaxed when the duals are needed).
         drop[v] takes value 1 if and only if node v is dropped.
         """
         for node in self.G.nodes():
@@ -396,7 +398,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 3f329bfb033c7a567f4cb39e51534cb54f0584c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 30/35] fix: service time ignored when checking the duration is
 feasible

---
 vrpy/checks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..a9940bc 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -208,7 +208,11 @@ def check_feasibility(
                 shortest_path_from = shortest_path_length(
                     G, source=v, target="Sink", weight="time"
                 )
-                shortest_trip = shortest_path_from + shortest_path_to
+                shortest_trip = (
+                    shortest_path_from
+                    + G.nodes[v].get("service_time", 0)
+                    + shortest_path_to
+                )
                 if shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
-- 
2.43.0


From 988cbb4fbe5aca0a462fa3408d20369da5697eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 31/35] fix: pickup and delivery requests exceeding the limits
 were accepted

---
 vrpy/checks.py | 21 +++++++++++++++++++++
 vrpy/vrp.py    |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index a9940bc..e41e18c 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -242,6 +242,27 @@ def check_pickup_delivery_time_windows(G: DiGraph, edges: list):
             )
 
 
+def check_pickup_delivery_limits(
+    G: DiGraph, edges: list, num_stops: int = None, duration: int = None
+):
+    """Checks if the request (edges[1]) can be done with given limits."""
+    request = edges[1]
+    if num_stops and num_stops < 2:
+        raise ValueError(
+            "Problem Infeasible, request (%s,%s) requires two stops." % request
+        )
+    if duration:
+        shortest_trip = sum(
+            shortest_path_length(G, source=i, target=j, weight="time")
+            for (i, j) in edges
+        ) + sum(G.nodes[v]["service_time"] for v in request)
+        if shortest_trip > duration:
+            raise ValueError(
+                "Problem Infeasible, request (%s,%s) cannot be done with given duration."
+                % request
+            )
+
+
 def check_periodic_num_vehicles(periodic=None, num_vehicles=[]):
     """
     The case where periodic is not None and num_vehicles is not None is ambiguous
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 4f83362..eb451d3 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -20,6 +20,7 @@ from vrpy.checks import (
     check_feasibility,
     check_initial_routes,
     check_vrp,
+    check_pickup_delivery_limits,
     check_pickup_delivery_time_windows,
     check_periodic_num_vehicles,
     check_clarke_wright_compatibility,
@@ -953,6 +954,9 @@ class VehicleRoutingProblem:
                     ]
                     if self.time_windows:
                         check_pickup_delivery_time_windows(self.G, edges)
+                    check_pickup_delivery_limits(
+                        self.G, edges, self.num_stops, self.duration
+                    )
                     self._initial_routes.append(obvious_route)
 
         # Otherwise compute round trips
-- 
2.43.0


From 08106ebc140224da68d65bb9d2c95f4c32cbb1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 32/35] fix: time windows were strengthened without service
 times

---
 vrpy/vrp.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index eb451d3..a3f6157 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1055,6 +1055,21 @@ class VehicleRoutingProblem:
         self.G.remove_edges_from(infeasible_arcs)
 
     def _remove_infeasible_arcs_time_windows(self):
+        # Strengthen time windows
+        for v in self.G.nodes():
+            if v not in ["Source", "Sink"]:
+                # earliest time is coming straight from depot
+                self.G.nodes[v]["lower"] = max(
+                    self.G.nodes[v]["lower"],
+                    self.G.nodes["Source"]["lower"] + self.G.edges["Source", v]["time"],
+                )
+                # Latest time is going straight to depot
+                self.G.nodes[v]["upper"] = min(
+                    self.G.nodes[v]["upper"],
+                    self.G.nodes["Sink"]["upper"]
+                    - self.G.edges[v, "Sink"]["time"]
+                    - self.G.nodes[v]["service_time"],
+                )
         infeasible_arcs = []
         for (i, j) in self.G.edges():
             travel_time = self.G.edges[i, j]["time"]
@@ -1063,20 +1078,6 @@ class VehicleRoutingProblem:
             head_sup_time_window = self.G.nodes[j]["upper"]
             if tail_inf_time_window + travel_time + service_time > head_sup_time_window:
                 infeasible_arcs.append((i, j))
-            # Strengthen time windows
-            for v in self.G.nodes():
-                if v not in ["Source", "Sink"]:
-                    # earliest time is coming straight from depot
-                    self.G.nodes[v]["lower"] = max(
-                        self.G.nodes[v]["lower"],
-                        self.G.nodes["Source"]["lower"]
-                        + self.G.edges["Source", v]["time"],
-                    )
-                    # Latest time is going straight to depot
-                    self.G.nodes[v]["upper"] = min(
-                        self.G.nodes[v]["upper"],
-                        self.G.nodes["Sink"]["upper"] - self.G.edges[v, "Sink"]["time"],
-                    )
         self.G.remove_edges_from(infeasible_arcs)
 
     def _prune_graph(self):
-- 
2.43.0


From 6e830d5f9353c9d53153c5af07de0290e212ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:01 +0000
Subject: [PATCH 33/35] fix: scheduling with cplex failed on an unknown keyword
 argument

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index a2eb8e2..2dcdd8c 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -112,7 +112,7 @@ class _Schedule:
         if self.solver == "cbc":
             self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "cplex":
-            self.prob.solve(pulp.CPLEX_CMD(msg=False, timelimit=time_limit))
+            self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "gurobi":
             gurobi_options = []
             if time_limit is not None:
-- 
2.43.0


From 3c2641eced70eb9e4b552526e6fe34081be73a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:14 +0000
Subject: [PATCH 34/35] fix: comp_time of a heuristic_only solve was missing or
 that of the previous solve

---
 vrpy/vrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index a3f6157..5a20fdd 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -888,6 +888,7 @@ class VehicleRoutingProblem:
             )
         )
         self._merge_with_preassigned_routes(len(alg.best_routes))
+        self.comp_time = time() - self._start_time
 
     # Preprocessing #
 
-- 
2.43.0


From 80be512e539c103d1863b245d2d641d7494c0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 35/35] fix: pricing with LP could add the same route over and
 over

---
 vrpy/subproblem_lp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index aafb020..11a3af8 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -44,8 +44,7 @@ class _SubProblemLP(_SubProblemBase):
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] == "Optimal"
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
-            more_routes = True
-            self._add_new_route()
+            more_routes = self._add_new_route()
         else:
             more_routes = False
 
@@ -65,9 +64,17 @@ class _SubProblemLP(_SubProblemBase):
             edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
             self.total_cost += edge_cost
             new_route.add_edge(i, j, cost=edge_cost)
-            if i != "Source":
-                self.routes_with_node[i].append(new_route)
             i = j
+        # With rounded dual values, the same route may be found again and again
+        if any(
+            list(new_route.edges()) == list(r.edges())
+            and self.vehicle_type == r.graph["vehicle_type"]
+            for r in self.routes
+        ):
+            return False
+        for i in new_route.nodes():
+            if i not in ["Source", "Sink"]:
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
@@ -82,6 +89,7 @@ class _SubProblemLP(_SubProblemBase):
         # print(i, j, self.sub_G.edges[i, j])
         # routes_txt = open("routes.txt", "a")
         # routes_txt.write(str(shortest_path(new_route, "Source", "Sink")) + "\n")
+        return True
 
     def _solve(self, time_limit):
         if self.solver == "cbc":
-- 
2.43.0

