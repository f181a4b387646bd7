From c964fc3b7ceae14d094a510bde75a61c58bff32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 01/28] fix: accept switch cells that hold a single integer

The network sheet lists a single switch as a number for some rows. Building the
switch conflicts failed with a TypeError for any train using such a row.
---
 data_formatting/data_formatting/make_switch_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..6e70c48 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -59,7 +59,7 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
@@ -104,7 +104,7 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
-- 
2.43.0


From 0245e97064b999383d25c5dbc1ff0d5583297a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 02/28] fix: add a delay only to the train it names

The train number was searched anywhere in the key, so delaying train 1 also
delayed trains 11, 21 or 101.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..e6535ea 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -490,7 +490,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From 738a17c9186b3661491aebcc9d062039e8f3030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 03/28] fix: skip the track rule only at the very station a
 train ends at

The station was searched inside the name of the final station. A train ending
at KO(STM) was therefore not kept off an occupied track at KO.
---
 railway_solvers/railway_solvers/linear_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..e41df59 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,7 +511,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
+                    skip = skip_station(jp, s, train_sets)
                     if not skip:
                         keep_trains_order(
                             s,
@@ -533,7 +533,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
+                    skip = skip_station(j, s, train_sets)
                     if not skip:
                         trains_order_at_s(
                             s,
-- 
2.43.0


From d6503363d1fdeb2cf62ce8adab350f55a6683f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 04/28] fix: find opposing trains that end at the next station

Only trains departing from both ends of a single track line were paired. A
train ending its run at the end of the line was not kept apart from opposing
trains.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..75b537d 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -201,7 +201,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
         for j in trains_at_stations[s]:
             s_prime = subsequent_station(trains_dict[j][1], s)
             if s_prime in imp_stations_list:
-                for j_prime in trains_at_stations[s]:
+                for j_prime in trains_at_stations[s_prime]:
                     if j_prime != j and s == subsequent_station(
                         trains_dict[j_prime][1], s_prime
                     ):
-- 
2.43.0


From 83365073f324bc93103660be474a41b50aa542da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:51 +0000
Subject: [PATCH 05/28] fix: count a turnaround on the way as part of the stop

The first-station flag was never reset, so turnaround times at later stations
were dropped from the minimal stop.
---
 data_formatting/data_formatting/make_J_taus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 75b537d..104b6d4 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -467,8 +467,7 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From 1d75f83094decd9a39d8bc8e7c48cf5d8eb6666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:22 +0000
Subject: [PATCH 06/28] fix: keep the line order only for trains that both come
 over the line

A train starting at the station was forced into the order it has at the
neighbouring station, although it runs there in the opposite direction. Plans
in which the two trains cross on a double track line were rejected.
---
 railway_solvers/railway_solvers/linear_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index e41df59..9cd3640 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -421,7 +421,9 @@ def keep_trains_order(
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
             if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
-                if not can_MO_on_line(j, jp, s, train_sets):
+                if previous_station(S[jp], s) is None:
+                    pass  # jp starts at s, there is no order to keep
+                elif not can_MO_on_line(j, jp, s, train_sets):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
                     if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
-- 
2.43.0


From 5dbc54c559e6ea04f56fa827f558686b09bd9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:29 +0000
Subject: [PATCH 07/28] fix: convert constraints that leave no room for a slack
 variable to QUBO

A constraint that can only just be met has a slack range of zero.
LogEncInteger rejects an empty range, so the conversion stopped on a
solvable problem. Such a constraint now gets no slack variable.
---
 .../railway_solvers/converter_bqm.py          | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index c6b5a00..ad545dc 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -57,6 +57,22 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
     return int(result)
 
 
+def _get_slack(cname: str, ub: int):
+    """Slack variable with values from 0 to ub. LogEncInteger does not accept an
+    empty range, if ub is 0 no slack is needed.
+
+        :param cname: name of the constraint
+        :type cname: str
+        :param ub: upper bound of the slack variable
+        :type ub: int
+        :return: slack variable or 0
+        :rtype: pyqubo.LogEncInteger or int
+    """
+    if ub == 0:
+        return 0
+    return LogEncInteger(cname, (0, ub))
+
+
 def convert_to_pyqubo(model: LpProblem):
     """Converts Integer program into pyqubo.Model. Placeholders (penalty
     parameters) are NOT set up. Names of placeholders can be found in the code of
@@ -90,15 +106,12 @@ def convert_to_pyqubo(model: LpProblem):
         if sense == pulp.LpConstraintEQ:
             H += ph * expr ** 2
         elif sense == pulp.LpConstraintLE:
-            slack = LogEncInteger(cname, (0, _get_slack_ub(c.items(), c.constant)))
+            slack = _get_slack(cname, _get_slack_ub(c.items(), c.constant))
             H += ph * (expr + slack) ** 2
         elif sense == pulp.LpConstraintGE:
-            slack = LogEncInteger(
+            slack = _get_slack(
                 cname,
-                (
-                    0,
-                    _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
-                ),
+                _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
             )
             H += ph * (expr - slack) ** 2
 
-- 
2.43.0


From cf35e58f7e2f35041bf30074db80020614a915a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:00 +0000
Subject: [PATCH 08/28] fix: give zero weight to shunting trains only

A pair of a train and its shunting movement (number followed by 9) also
zeroed the weight of any other train whose number starts the same way,
e.g. 64016 next to 6401 and 64019.
---
 data_formatting/data_formatting/scheduling_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..9013d31 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -3,7 +3,6 @@ from datetime import datetime
 import pandas as pd
 
 from .make_J_taus import get_trains_pair9
-from .utils import flatten
 from .time_table_check import train_important_stations
 
 
@@ -112,7 +111,7 @@ def make_weights(
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if train in [pair[1] for pair in get_trains_pair9(train_dict)]:
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From 1ab12b8df64a195990dfde05b2fef4326c86431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:41 +0000
Subject: [PATCH 09/28] fix: find delay variables of stations whose name pulp
 changes

Pulp replaces spaces and hyphens in variable names, so the delay of a
train at a station such as "via Gt" was published as zero.
---
 railway_solvers/railway_solvers/linear_solver.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 9cd3640..9c07361 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -712,12 +712,18 @@ def solve_linear_problem(train_sets, timetable, d_max, cat = "Integer"):
 # auxiliary functions for visualisation
 
 
+def delay_variable_name(j, s):
+    """name of the delay variable, pulp replaces some characters of the given one"""
+    return pus.LpVariable(f"Delays_{j}_{s}").name
+
+
 def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     """given the solution of the optimisation problem returns secondary delay
     conflict free time and conflicted time
     """
+    name = delay_variable_name(j, s)
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
@@ -733,8 +739,9 @@ def impact_to_objective(prob, timetable, j, s, d_max, data = []):
     """return the impact to the objective of the particular secondary delay
     of particular train at particular station
     """
+    name = delay_variable_name(j, s)
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
-- 
2.43.0


From f1ba6a12e089c6cb9e835189f6ca3f0e5475f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:18 +0000
Subject: [PATCH 10/28] fix: pass sweeps and reads of simulated annealing by
 name

The sampler takes num_reads before num_sweeps, so the two values were
swapped: the number of reads and sweeps used were not the recorded ones.
---
 railway_solvers/railway_solvers/d_wave_solves.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index e2c603d..2123d86 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -28,7 +28,11 @@ def sim_anneal(
     """
     s = neal.SimulatedAnnealingSampler()
     sampleset = s.sample(
-        bqm, beta_range, num_sweeps, num_reads, beta_schedule_type="geometric"
+        bqm,
+        beta_range=beta_range,
+        num_sweeps=num_sweeps,
+        num_reads=num_reads,
+        beta_schedule_type="geometric",
     )
     return sampleset
 
-- 
2.43.0


From 4fd658c98c4bc06345866ffda188f98bcf288ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:18 +0000
Subject: [PATCH 11/28] fix: send the requested time limit to the hybrid BQM
 solver

The limit was only written into the properties of the sampler. The BQM
sampler does not read it from there and ran with the default of the
problem size, while the records name the requested limit.
---
 railway_solvers/railway_solvers/d_wave_solves.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index 2123d86..36ac980 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -86,4 +86,6 @@ def hybrid_anneal(bqm, minimum_time_limit) -> dimod.sampleset.SampleSet:
     """
     sampler = LeapHybridSampler()
     sampler.properties["minimum_time_limit_s"]  = minimum_time_limit # by default it is 5, and can be set
-    return sampler.sample(bqm), sampler.properties
+    # this solver does not read the property, the limit has to be passed
+    time_limit = max(minimum_time_limit, sampler.min_time_limit(bqm))
+    return sampler.sample(bqm, time_limit=time_limit), sampler.properties
-- 
2.43.0


From 2a4799a13a15ee0db2217d10182f0907ecfc3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:42 +0000
Subject: [PATCH 12/28] fix: measure computation times with a monotonic clock

Durations were differences of the wall clock, so a clock adjustment
during a solver call went into the recorded computation time.
---
 helpers.py                                       | 4 ++--
 railway_solvers/railway_solvers/linear_solver.py | 4 ++--
 solve_KO_GLC_problems.py                         | 4 ++--
 solve_real_problem.py                            | 4 ++--
 wisla_problems.py                                | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..6b8adf2 100644
--- a/helpers.py
+++ b/helpers.py
@@ -230,11 +230,11 @@ def solve_on_quantum(prob, method, pdict, minimum_time_limit):
     returns sample dict of solutions with parameters and measured comp times
     """
 
-    start_time = time.time()
+    start_time = time.perf_counter()
 
     interpreted_sampleset, properties, info = q_process(prob, method, pdict, minimum_time_limit)
 
-    t = time.time() - start_time
+    t = time.perf_counter() - start_time
 
     print("measured comp time",t)
     dict_list = get_results(interpreted_sampleset, prob=prob)
diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 9c07361..cbef052 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -702,9 +702,9 @@ def create_linear_problem(train_sets, timetable, d_max, cat):
 def solve_linear_problem(train_sets, timetable, d_max, cat = "Integer"):
     """solves the linear problem returns the pulp object"""
     prob = create_linear_problem(train_sets, timetable, d_max, cat)
-    start_time = time.time()
+    start_time = time.perf_counter()
     prob.solve()
-    print("optimisation, time = ", time.time() - start_time, "seconds")
+    print("optimisation, time = ", time.perf_counter() - start_time, "seconds")
 
     return prob
 
diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index a9710e3..406f8f5 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -186,9 +186,9 @@ if __name__ == "__main__":
                 else:
                     solver = pl.getSolver(args.solve_lp, timeLimit = args.time_limit)
 
-            start_time = time.time()
+            start_time = time.perf_counter()
             prob.solve(solver = solver)
-            end_time = time.time()
+            end_time = time.perf_counter()
             visualize = False
 
             if visualize:
diff --git a/solve_real_problem.py b/solve_real_problem.py
index f87c77e..00c76aa 100644
--- a/solve_real_problem.py
+++ b/solve_real_problem.py
@@ -237,9 +237,9 @@ if __name__ == "__main__":
             solver =  pl.CPLEX_CMD(path=path_to_cplex)
         else:    
             solver = pl.getSolver(args.solve_lp)
-        start_time = time.time()
+        start_time = time.perf_counter()
         prob.solve(solver = solver)
-        end_time = time.time()
+        end_time = time.perf_counter()
         if args.show_timetable:
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, skip_stations, d_max, reference_time)
             file_sched = f"solutions_quantum/data4diagrams/{args.solve_lp}_case{args.case}_{args.category}.pkl"
diff --git a/wisla_problems.py b/wisla_problems.py
index 4d87caa..02c53ad 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -111,9 +111,9 @@ if __name__ == "__main__":
             else:
                 solver = pl.getSolver(args.solve_lp)
 
-        start_time = time.time()
+        start_time = time.perf_counter()
         prob.solve(solver = solver)
-        end_time = time.time()
+        end_time = time.perf_counter()
         if args.show_timetable:
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, train_set["skip_station"], d_max, t_ref)
             file_sched = f"solutions_quantum/wisla/data4diagrams/{args.solve_lp}_wisla_case1.pkl"
-- 
2.43.0


From da2a661ef58bd19c754e0f0a124045dc71576e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:44 +0000
Subject: [PATCH 13/28] fix: accept order variables within the tolerance of the
 solver

Values are compared with 0 and 1. The comparison with 0 allowed no more
than 1e-12, so a plan with the usual integrality tolerance stopped the
whole series before its results were saved.
---
 helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.py b/helpers.py
index 6b8adf2..498f1cd 100644
--- a/helpers.py
+++ b/helpers.py
@@ -144,7 +144,7 @@ def check_count_vars(prob):
     order_vars = 0
     for v in prob.variables():
         if "z_" in str(v) or "y_" in str(v):
-            assert v.varValue in [pytest.approx(0), pytest.approx(1)]
+            assert v.varValue in [pytest.approx(0, abs=1e-5), pytest.approx(1, abs=1e-5)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0


From 842b976a2f91b0746eacfc554497eb01890b1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:51 +0000
Subject: [PATCH 14/28] fix: record a linear solver run as feasible only if it
 returned a plan

The KO_GLC series wrote feasible=True whatever the solver said, so an
infeasible instance or one stopped by the time limit was recorded as
solved with a meaningless objective. Timetables were published the same
way. The number of broken constraints now goes into the record of the
instance, before it was written to the series under a misspelled name.
---
 helpers.py               |  9 +++++++++
 solve_KO_GLC_problems.py | 10 ++++++----
 solve_real_problem.py    |  3 ++-
 wisla_problems.py        |  3 ++-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/helpers.py b/helpers.py
index 498f1cd..20e6cd1 100644
--- a/helpers.py
+++ b/helpers.py
@@ -2,6 +2,7 @@
 import pickle as pkl
 import numpy as np
 import pandas as pd
+import pulp as pl
 import pytest
 import time
 from datetime import timedelta
@@ -137,6 +138,14 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
 
 
 
+def is_solved(prob):
+    """
+    True if the solver returned a plan: an optimal one or, if it was stopped
+    by the time limit, a feasible one
+    """
+    return prob.sol_status in [pl.LpSolutionOptimal, pl.LpSolutionIntegerFeasible]
+
+
 def check_count_vars(prob):
     """
     counts n.o. vars and checks if bool vars are 0 or 1
diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index 406f8f5..452a71e 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -22,6 +22,7 @@ from helpers import (
     print_optimisation_results,
     check_count_vars,
     count_vars,
+    is_solved,
     solve_on_quantum
 )
 
@@ -196,11 +197,12 @@ if __name__ == "__main__":
                 data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, skip_stations, d_max, reference_time)
                 print(data4diagrams)
 
-            result["objective"] = prob.objective.value() * d_max
             result["comp_time_seconds"] = end_time - start_time
-            result["feasible"] = True
-            results["brolen_constraints"] = 0
-            check_count_vars(prob)
+            result["feasible"] = is_solved(prob)
+            if is_solved(prob):
+                result["objective"] = prob.objective.value() * d_max
+                result["broken_constraints"] = 0
+                check_count_vars(prob)
 
         elif args.solve_quantum in ["sim", "real", "bqm", "cqm"]:
             sample = solve_on_quantum(prob, args.solve_quantum, pdict, minimum_time_limit= args.min_t)
diff --git a/solve_real_problem.py b/solve_real_problem.py
index 00c76aa..e3cc30c 100644
--- a/solve_real_problem.py
+++ b/solve_real_problem.py
@@ -24,6 +24,7 @@ from helpers import (
     make_train_set,
     print_optimisation_results,
     check_count_vars,
+    is_solved,
     solve_on_quantum
 )
 
@@ -240,7 +241,7 @@ if __name__ == "__main__":
         start_time = time.perf_counter()
         prob.solve(solver = solver)
         end_time = time.perf_counter()
-        if args.show_timetable:
+        if args.show_timetable and is_solved(prob):
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, skip_stations, d_max, reference_time)
             file_sched = f"solutions_quantum/data4diagrams/{args.solve_lp}_case{args.case}_{args.category}.pkl"
             with open(file_sched, "wb") as f:
diff --git a/wisla_problems.py b/wisla_problems.py
index 02c53ad..3239b19 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -12,6 +12,7 @@ from railway_solvers.railway_solvers import (
 from helpers import(
     print_optimisation_results,
     check_count_vars,
+    is_solved,
     solve_on_quantum
     )
 
@@ -114,7 +115,7 @@ if __name__ == "__main__":
         start_time = time.perf_counter()
         prob.solve(solver = solver)
         end_time = time.perf_counter()
-        if args.show_timetable:
+        if args.show_timetable and is_solved(prob):
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, train_set["skip_station"], d_max, t_ref)
             file_sched = f"solutions_quantum/wisla/data4diagrams/{args.solve_lp}_wisla_case1.pkl"
             with open(file_sched, "wb") as f:
-- 
2.43.0


From cb02da94c1d7e2ea8bffb5a2d036fc622850efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:58 +0000
Subject: [PATCH 15/28] fix: replace result files only after they are
 completely written

Results, published timetables and prepared tables were written in place.
A run that was killed or ran out of disk space while saving destroyed
the previous file and left a truncated one.
---
 data_formatting/data_formatting/__init__.py   |  2 +-
 .../data_formatting/new_time_tables.py        |  5 ++---
 data_formatting/data_formatting/utils.py      | 22 +++++++++++++++++++
 helpers.py                                    |  1 +
 solve_KO_GLC_problems.py                      |  5 ++---
 solve_real_problem.py                         | 11 ++++------
 wisla_problems.py                             | 11 ++++------
 7 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/data_formatting/data_formatting/__init__.py b/data_formatting/data_formatting/__init__.py
index c60bb6d..835c523 100644
--- a/data_formatting/data_formatting/__init__.py
+++ b/data_formatting/data_formatting/__init__.py
@@ -9,7 +9,7 @@ from .time_table_check import (
     train_important_stations,
     check_path_continuity,
 )
-from .utils import common_elements, flatten, getSizeOfNestedList
+from .utils import common_elements, flatten, getSizeOfNestedList, save_pickle
 from .utils import check_common_station, get_blocks_b2win_station4train
 from .utils import get_common_blocks_and_direction_b2win_trains
 from .utils import get_trains_at_station, get_Paths, is_train_passing_thru_station
diff --git a/data_formatting/data_formatting/new_time_tables.py b/data_formatting/data_formatting/new_time_tables.py
index 1b43557..74d0a44 100644
--- a/data_formatting/data_formatting/new_time_tables.py
+++ b/data_formatting/data_formatting/new_time_tables.py
@@ -1,6 +1,6 @@
-import pickle
 import numpy as np
 from .utils import get_indexes, get_block_station, get_path_type_colunm
+from .utils import save_pickle
 
 
 def single_passing_time(block_info, data_paths):
@@ -70,6 +70,5 @@ def update_all_timetables(time_tables_dict, data_paths, important_stations, save
             )
         )
     if save == True:
-        with open("update_tables.pkl", "wb") as f:
-            pickle.dump(time_tables_dict, f)
+        save_pickle(time_tables_dict, "update_tables.pkl")
     return time_tables_dict
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index e6535ea..5e2c1bb 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -1,5 +1,7 @@
 from ast import List
 import functools as ft
+import os
+import pickle
 from datetime import datetime
 from collections import defaultdict
 import numpy as np
@@ -8,6 +10,26 @@ from .time_table_check import train_important_stations
 from .time_table_check import train_time_table
 
 
+def save_pickle(data, path):
+    """
+    Save data with pickle. The file gets its name only after everything is written,
+    interrupted saving leaves the previous file unchanged.
+
+    Arguments:
+        data -- object to be saved
+        path -- string with path of the file
+    """
+    temporary = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(temporary, "wb") as f:
+            pickle.dump(data, f)
+        os.replace(temporary, path)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 def getSizeOfNestedList(listOfElem):
     """
     Get number of elements in a nested list
diff --git a/helpers.py b/helpers.py
index 20e6cd1..5585272 100644
--- a/helpers.py
+++ b/helpers.py
@@ -22,6 +22,7 @@ from data_formatting.data_formatting import (
     jswitch,
     jtrack,
     make_weights,
+    save_pickle,
     timetable_to_train_dict,
     update_all_timetables,
 )
diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index 452a71e..2c8f1c5 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -1,5 +1,4 @@
 """ generic problems on KO -- CB --- RCB -- ZZ --- GLC line """
-import pickle as pkl
 import time
 import pulp as pl
 #from time import datetime
@@ -23,6 +22,7 @@ from helpers import (
     check_count_vars,
     count_vars,
     is_solved,
+    save_pickle,
     solve_on_quantum
 )
 
@@ -229,5 +229,4 @@ if __name__ == "__main__":
         file = f"results_KO_GLC/results{p}_{args.solve_lp}_{args.solve_quantum}_{args.case}_{args.category}.pkl"
     else:
         file = f"results_KO_GLC/results{p}_{args.solve_lp}_ilp_t_lim{args.time_limit}_{args.solve_quantum}_{args.case}_{args.category}.pkl"
-    with open(file, "wb") as f:
-        pkl.dump(results, f)
+    save_pickle(results, file)
diff --git a/solve_real_problem.py b/solve_real_problem.py
index e3cc30c..43f6c16 100644
--- a/solve_real_problem.py
+++ b/solve_real_problem.py
@@ -1,5 +1,4 @@
 """ close to real problems on metropolitan network """
-import pickle as pkl
 import time
 import pulp as pl
 from datetime import datetime
@@ -25,6 +24,7 @@ from helpers import (
     print_optimisation_results,
     check_count_vars,
     is_solved,
+    save_pickle,
     solve_on_quantum
 )
 
@@ -244,8 +244,7 @@ if __name__ == "__main__":
         if args.show_timetable and is_solved(prob):
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, skip_stations, d_max, reference_time)
             file_sched = f"solutions_quantum/data4diagrams/{args.solve_lp}_case{args.case}_{args.category}.pkl"
-            with open(file_sched, "wb") as f:
-                pkl.dump(data4diagrams, f)
+            save_pickle(data4diagrams, file_sched)
 
         print("............ case", args.case, ".......")
         print("optimisation, time = ", end_time - start_time, "seconds")
@@ -290,8 +289,7 @@ if __name__ == "__main__":
                 else:
                     file_sched = f"solutions_quantum/data4diagrams/{args.solve_quantum}{p}_{args.penalty}_case{args.case}_{args.category}.pkl"
 
-                with open(file_sched, "wb") as f:
-                    pkl.dump(data4diagrams, f)
+                save_pickle(data4diagrams, file_sched)
         
         else:
             samples = dict()
@@ -299,6 +297,5 @@ if __name__ == "__main__":
                 samples[i+1] = solve_on_quantum(prob, args.solve_quantum, pdict, minimum_time_limit = args.min_t)
             
 
-            with open(file, "wb") as f:
-                pkl.dump(samples, f)
+            save_pickle(samples, file)
             
diff --git a/wisla_problems.py b/wisla_problems.py
index 3239b19..ed06b10 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -1,5 +1,4 @@
 """ chosen problem form Quantum annealing in the NISQ era: railway conflict management """
-import pickle as pkl
 import time
 import pulp as pl
 import pandas as pd
@@ -13,6 +12,7 @@ from helpers import(
     print_optimisation_results,
     check_count_vars,
     is_solved,
+    save_pickle,
     solve_on_quantum
     )
 
@@ -118,8 +118,7 @@ if __name__ == "__main__":
         if args.show_timetable and is_solved(prob):
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, train_set["skip_station"], d_max, t_ref)
             file_sched = f"solutions_quantum/wisla/data4diagrams/{args.solve_lp}_wisla_case1.pkl"
-            with open(file_sched, "wb") as f:
-                pkl.dump(data4diagrams, f)
+            save_pickle(data4diagrams, file_sched)
         print("optimisation, time = ", end_time - start_time, "seconds")
         check_count_vars(prob)
         print("objective", prob.objective.value())
@@ -150,8 +149,7 @@ if __name__ == "__main__":
             data = pd.read_pickle(file)
             data4diagrams = print_optimisation_results(prob, timetable, train_set, taus, train_set["skip_station"], d_max, t_ref, data["sample"])
             file_sched = f"solutions_quantum/wisla/data4diagrams/{args.solve_quantum}_wisla{p}_case1.pkl"
-            with open(file_sched, "wb") as f:
-                pkl.dump(data4diagrams, f)
+            save_pickle(data4diagrams, file_sched)
         else:
             sample = solve_on_quantum(prob, args.solve_quantum, pdict, args.min_t)
             print(sample["sample"])
@@ -160,5 +158,4 @@ if __name__ == "__main__":
             #except:
             #    p = ""
             
-            with open(file, "wb") as f:
-                pkl.dump(sample, f)
+            save_pickle(sample, file)
-- 
2.43.0


From 35981d937f462280d0e14eba049abb03ef13c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:58 +0000
Subject: [PATCH 16/28] fix: publish the timetables of all runs at once

The file was rewritten after each run, so a run killed in between left
timetables of only some of the runs under the name of all of them.
---
 solve_real_problem.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/solve_real_problem.py b/solve_real_problem.py
index 43f6c16..072f67f 100644
--- a/solve_real_problem.py
+++ b/solve_real_problem.py
@@ -284,12 +284,13 @@ if __name__ == "__main__":
             data4diagrams = {}
             for i in range(args.runs):
                 data4diagrams[i+1] = print_optimisation_results(prob, timetable, train_set, taus, train_set["skip_station"], d_max, reference_time, data[i+1]["sample"])
-                if args.solve_quantum == "cqm":
-                    file_sched = f"solutions_quantum/data4diagrams/{args.solve_quantum}{p}_case{args.case}_{args.category}.pkl"
-                else:
-                    file_sched = f"solutions_quantum/data4diagrams/{args.solve_quantum}{p}_{args.penalty}_case{args.case}_{args.category}.pkl"
 
-                save_pickle(data4diagrams, file_sched)
+            if args.solve_quantum == "cqm":
+                file_sched = f"solutions_quantum/data4diagrams/{args.solve_quantum}{p}_case{args.case}_{args.category}.pkl"
+            else:
+                file_sched = f"solutions_quantum/data4diagrams/{args.solve_quantum}{p}_{args.penalty}_case{args.case}_{args.category}.pkl"
+
+            save_pickle(data4diagrams, file_sched)
         
         else:
             samples = dict()
-- 
2.43.0


From 1334b471d01473ad91374fa4ec881a610762f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:18 +0000
Subject: [PATCH 17/28] fix: stop when the trains of one rolling stock do not
 meet

The exit was named but not called. Unless it was the first pair, the
trains were then joined at the station of the previous pair.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 104b6d4..498ea60 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -67,7 +67,7 @@ def get_jround(train_dict, important_stations):
             block = train_time_table(train_dict, pair[1])["path"].tolist()[0]
         else:
             print("Something is wrong in get_jround")
-            sys.exit
+            sys.exit(1)
         station = [key for key, value in important_stations.items() if block in value][
             0
         ]
-- 
2.43.0


From 4525176d7c18721638aab62b18f2564d2100579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:18 +0000
Subject: [PATCH 18/28] fix: report known blocks that are not connected

The continuity check of a train's path passed over two consecutive blocks
that both exist in the network but have no way between them.
---
 data_formatting/data_formatting/time_table_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..aaffa5b 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -106,4 +106,5 @@ def check_path_continuity(paths, data_path_check):
             if data_path_check.isin([paths[i]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
-                raise AssertionError(paths[i], "not present in possible paths")
+                raise AssertionError(paths[i + 1], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "not present in possible paths")
-- 
2.43.0


From c8118f3b601c14c44f85588c7e54ef480522678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:33:22 +0000
Subject: [PATCH 19/28] fix: round published times to the nearest minute

Values within the tolerance of the solver, such as 4.9999999, and
fractional times were cut off, so departures and arrivals could be
published up to a minute early.
---
 helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/helpers.py b/helpers.py
index 5585272..487fd42 100644
--- a/helpers.py
+++ b/helpers.py
@@ -107,9 +107,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
         for s in train_set["Paths"][j]:
             s_dict = {}
             try:
-                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_prev))
+                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+round(departure_prev))
                 s_dict["arrive"] = t_ref + dt
-                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_conflict_prev))
+                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+round(departure_conflict_prev))
                 s_dict["conflicted_arrive"] = t_ref + conflicted_dt
             except:
                 0
@@ -120,9 +120,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
                 delay, departure, conflicted_departure = delay_and_acctual_time(
                     train_set, timetable, prob, j, s, outside_data
                 )
-                s_dict["departure"] = t_ref + timedelta(minutes = int(departure))
-                s_dict["secondary delay"] = int(delay)
-                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = int(conflicted_departure))
+                s_dict["departure"] = t_ref + timedelta(minutes = round(departure))
+                s_dict["secondary delay"] = round(delay)
+                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = round(conflicted_departure))
                 s_dict["impact_to_objective"] = delta_obj
 
                 s_prev = s
-- 
2.43.0


From 01211d083ee82fb33be04cf397bcf1726abdf4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:33:22 +0000
Subject: [PATCH 20/28] fix: publish trains that no rule refers to at their
 earliest time

A departure whose delay appears in no constraint and has no weight is not
a variable of the problem, it was published at the reference time.
---
 railway_solvers/railway_solvers/linear_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index cbef052..8396b0e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -722,6 +722,7 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     conflict free time and conflicted time
     """
     name = delay_variable_name(j, s)
+    conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
     for v in prob.variables():
         if v.name == name:
             if data == []:
@@ -729,10 +730,9 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
             else:
                 delay = data[v.name]
 
-            conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
             conflict_free = delay + conflicted_tt
             return delay, conflict_free, conflicted_tt
-    return 0,0,0
+    return 0, conflicted_tt, conflicted_tt
 
 
 def impact_to_objective(prob, timetable, j, s, d_max, data = []):
-- 
2.43.0


From 98be869eb8de9cba7a6cdc265fdde65316f0750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:01:34 +0000
Subject: [PATCH 21/28] fix: stop when a train in the timetable file has no
 path or a path has no train

A file cut in the heading of a train, or a lost heading row, silently dropped
or overwrote a train. Reading such a file now raises an error.
---
 data_formatting/data_formatting/time_table_check.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index aaffa5b..af4d6e4 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -15,14 +15,19 @@ def timetable_to_train_dict(data):
     values are strings or NaN if there is nothing corresponding in csv field
     """
     train_dict = {}
+    train = None
     for i in range(len(data["Unnamed: 0"])):
         if data["Unnamed: 0"][i].isnumeric():
+            if train is not None:
+                raise ValueError(f"no path of train {train}")
             info = []
             train = int(data["Unnamed: 0"][i])
             info += [data["Unnamed: 0"][i - 1]]
             info += [data["Unnamed: 0"][i + x] for x in range(1, 3)]
         statment = data["Unnamed: 0"][i][0:4]
         if statment in ["from", "depa"]:
+            if train is None:
+                raise ValueError("path without the number of the train")
             tt_init = i + 1
             tt_item = data["Unnamed: 0"][i + 1]
             pa = 1
@@ -36,6 +41,9 @@ def timetable_to_train_dict(data):
             )
             info += [data["Unnamed: 0"][pa - 1 + tt_init]]
             train_dict[train] = [info, train_data]
+            train = None
+    if train is not None:
+        raise ValueError(f"no path of train {train}")
     return train_dict
 
 
-- 
2.43.0


From 161d7b4c62d57c59755925a763db5e5f1ed65901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:49 +0000
Subject: [PATCH 22/28] fix: keep the order of two trains at a station
 whichever is listed first

When the second listed train ends at the station, the order in which both
came over the line was not kept, so the problem and its optimum depended on
the order of trains in the timetable file.
---
 railway_solvers/railway_solvers/linear_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 8396b0e..173f071 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -514,7 +514,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
                     skip = skip_station(jp, s, train_sets)
-                    if not skip:
+                    if not (skip and skip_station(j, s, train_sets)):
                         keep_trains_order(
                             s,
                             j,
@@ -523,6 +523,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             y,
                             train_sets,
                         )
+                    if not skip:
                         trains_order_at_s(
                             s,
                             jp,
-- 
2.43.0


From 8e01ac6fff349cfcf5eb9efa0abf584deb785e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:49 +0000
Subject: [PATCH 23/28] fix: load the saved timetables from the given path

load_timetables opened an attribute of the path and failed on every call.
---
 helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.py b/helpers.py
index 487fd42..8110bca 100644
--- a/helpers.py
+++ b/helpers.py
@@ -40,7 +40,7 @@ from railway_solvers.railway_solvers import (
 )
 
 def load_timetables(timetables_path):
-    with open(timetables_path.load, "rb") as file:
+    with open(timetables_path, "rb") as file:
         train_dict = pkl.load(file)
     return train_dict
 
-- 
2.43.0


From 494f811e3f77e04ba693bf795dda54ba5cbd4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:20 +0000
Subject: [PATCH 24/28] fix: constrain headways from station 10 to 5 in the
 Wisla problem

The train set for departures from station 10 was placed outside the set
of common paths, so no headway was required on that line.  The headway
from Ic2 to Ks2 was given for the wrong direction.
---
 wisla_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wisla_problems.py b/wisla_problems.py
index ed06b10..2cb16e7 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -61,7 +61,7 @@ if __name__ == "__main__":
         "Paths": { "Ks1": [1,3,5,10], "Ks3": [1,3,5,10], "Ic1": [1,3,5,10], "Ks2": [10,5,3,1], "Ks4": [10,5,3,1], "Ic2": [10,5,3,1]},
         "J": ["Ks1", "Ks3", "Ic1", "Ks2", "Ks4", "Ic2"],
         "Jd": {1: {3: [["Ks1", "Ks3", "Ic1"]]}, 3:{1:[["Ks2", "Ks4", "Ic2"]], 5:[["Ks1", "Ks3", "Ic1"]]}, 
-               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}}, 10:{5:[["Ks2", "Ks4", "Ic2"]]},
+               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}, 10:{5:[["Ks2", "Ks4", "Ic2"]]}},
         "Josingle": {(1,3): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (3,5): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (5,10): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]]
@@ -79,7 +79,7 @@ if __name__ == "__main__":
 
                         "Ks2_Ks4_3_1": 2, "Ks2_Ks4_5_3": 2, "Ks2_Ks4_10_5": 2, "Ks4_Ks2_3_1": 2, "Ks4_Ks2_5_3": 2, "Ks4_Ks2_10_5": 2,
                         "Ks2_Ic2_3_1": 2, "Ks2_Ic2_5_3": 2, "Ks2_Ic2_10_5": 2, "Ks4_Ic2_3_1": 2, "Ks4_Ic2_5_3": 2, "Ks4_Ic2_10_5": 2,
-                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_5_10": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
+                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_10_5": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
             
             },
             "prep": {"Ic2_10": 20},
-- 
2.43.0


From 03bcf8eb899cda611265e9cf60a7b89d60cb33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:03 +0000
Subject: [PATCH 25/28] fix: list the conflicted train paths

The status was misspelt, so the resolved paths were listed twice.
---
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index faf9ff4..f42fa6e 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -23,7 +23,7 @@ else:
     kdtraindata = data
     
 for trainno in kdtraindata.keys():
-    for status in ('conflcted', 'resolved'):
+    for status in ('conflicted', 'resolved'):
         t = tu.kdtrain2trainpath(trainno, kdtraindata[trainno], status=status)
         print(t)
     print('----------------------------------------')
-- 
2.43.0


From 5fde856be94555bff8c9bf0c32272d5c687babae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:03 +0000
Subject: [PATCH 26/28] fix: refuse to draw a realisation that does not exist

The first realisation was drawn instead, under the title of the one
that was asked for.
---
 solutions_quantum/data4diagrams/echo_gnuplot_file.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/solutions_quantum/data4diagrams/echo_gnuplot_file.py b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
index b04609a..a570e1b 100755
--- a/solutions_quantum/data4diagrams/echo_gnuplot_file.py
+++ b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
@@ -81,10 +81,9 @@ def echo_gnuplot_train_labels(train, segment):
 
         
 if 'cqm' in ARGS.infile:
-    try:
-        kdtraindata = data[ARGS.realisation]
-    except:
-        kdtraindata = data[int(1)]
+    if ARGS.realisation not in data:
+        parser.error("no realisation %d in %s"%(ARGS.realisation, ARGS.infile))
+    kdtraindata = data[ARGS.realisation]
 else:
     kdtraindata = data
 
-- 
2.43.0


From f1081a7c61c9a335aa47230f8d5daaf8ca9fbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:03 +0000
Subject: [PATCH 27/28] fix: show results of every quantum solver

Only files named cqm were read as a set of realisations, diagrams and
lists of the other quantum solvers failed.
---
 solutions_quantum/data4diagrams/echo_gnuplot_file.py   | 2 +-
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 solutions_quantum/data4diagrams/train_utils.py         | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/solutions_quantum/data4diagrams/echo_gnuplot_file.py b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
index a570e1b..baa879c 100755
--- a/solutions_quantum/data4diagrams/echo_gnuplot_file.py
+++ b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
@@ -80,7 +80,7 @@ def echo_gnuplot_train_labels(train, segment):
             pass
 
         
-if 'cqm' in ARGS.infile:
+if tu.has_realisations(data):
     if ARGS.realisation not in data:
         parser.error("no realisation %d in %s"%(ARGS.realisation, ARGS.infile))
     kdtraindata = data[ARGS.realisation]
diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index f42fa6e..f01492a 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -17,7 +17,7 @@ routes = sorted(list(set(lists)))
 def quantum_train_route(train):
     return list(train.keys())
 
-if 'cqm' in sys.argv[1]:
+if tu.has_realisations(data):
     kdtraindata = data[int(sys.argv[2])]
 else:
     kdtraindata = data
diff --git a/solutions_quantum/data4diagrams/train_utils.py b/solutions_quantum/data4diagrams/train_utils.py
index dc65a9e..f447752 100644
--- a/solutions_quantum/data4diagrams/train_utils.py
+++ b/solutions_quantum/data4diagrams/train_utils.py
@@ -26,6 +26,11 @@ def none_if_not(x,key):
         result = None
     return(result)
 
+def has_realisations(data):
+    "Results of quantum solvers hold one timetable per realisation"
+    return all(isinstance(entry, dict) for timetable in data.values()
+               for train in timetable.values() for entry in train.values())
+
 def kdtrain2trainpath(trainNumber, kdtrain, status='resolved'):
     "Convert native train data to a train path"
     train = TrainPath()
-- 
2.43.0


From f136c0c9f1c7d607b1dbe7fd3a1dbd87c21b8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:17 +0000
Subject: [PATCH 28/28] fix: comparison plots leave a gap where an instance has
 no plan instead of stopping

---
 results_KO_GLC/fast_plot.py     | 2 +-
 results_KO_GLC/fast_plot_lim.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/results_KO_GLC/fast_plot.py b/results_KO_GLC/fast_plot.py
index 10edb9b..dedfb34 100644
--- a/results_KO_GLC/fast_plot.py
+++ b/results_KO_GLC/fast_plot.py
@@ -60,7 +60,7 @@ def plotting_comparisons(c_solvers,cases, dict_times):
             print("mean n.o. constraints", np.mean(constraints))
             
             x = [results[i]["comp_time_seconds"] for i in range(N)]
-            y = [results[i]["objective"] for i in range(N)]
+            y = [results[i].get("objective", np.nan) for i in range(N)]
 
             colors = []
             for i in range(N):
diff --git a/results_KO_GLC/fast_plot_lim.py b/results_KO_GLC/fast_plot_lim.py
index 3e1c88d..df13419 100644
--- a/results_KO_GLC/fast_plot_lim.py
+++ b/results_KO_GLC/fast_plot_lim.py
@@ -66,11 +66,11 @@ def plotting_comparisons(c_solvers,cases, dict_times):
             results_l = load_data(solver,case, lim = 5.0)
             
             x = [results[i]["comp_time_seconds"] for i in range(N)]
-            y = [results[i]["objective"] for i in range(N)]
+            y = [results[i].get("objective", np.nan) for i in range(N)]
 
 
             x_l = [results_l[i]["comp_time_seconds"] for i in range(N)]
-            y_l = [results_l[i]["objective"] for i in range(N)]
+            y_l = [results_l[i].get("objective", np.nan) for i in range(N)]
 
             colors = []
             for i in range(N):
-- 
2.43.0

