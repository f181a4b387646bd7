"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
DF = "data_formatting/data_formatting/"
RS = "railway_solvers/railway_solvers/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Following trains keep exactly the minimal block headway",
     "Whatever the disturbances, two trains that run one after the other over the same track between two stations are allowed to depart only if the later one leaves at least the minimal headway after the earlier one, and that headway is the shortest one for which a block-by-block run never lets the follower into a block before the leader has cleared the next block (or the same block, on the lines signalled block by block). "
     "Either order is possible, and no larger separation is demanded.",
     ["histories", "inputs", "fault_sequences"],
     "every network, train mix (fast/slow, any number of blocks), disturbance vector and dispatching history of the pair, at and next to the boundary, with exact and with minute-rounded times",
     "The tests compare a handful of headway numbers for fixed trains of one shipped timetable, and solve eight two- or three-train toy problems; they never confront the model with a block-level run of trains whose speeds, block counts and disturbances vary.",
     [DF + "make_J_taus.py", DF + "utils.py", DF + "new_time_tables.py", RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("pairs that share a track between stations", DF + "make_J_taus.py: grouping of trains by common path"),
      ("headway times", DF + "make_J_taus.py: headway computation"),
      ("separation constraint with order variable", RS + "linear_solver.py: minimal span")],
     observe=["the optimisation problem built from the input files: is a given history of departures feasible"])

prop("C02", "Opposing trains never share a single-track line",
     "Two trains that use the same track between two neighbouring stations in opposite directions are never both on it: one may leave towards the other only when that one has arrived, in either order, and no larger separation than that is demanded. "
     "This holds for every such pair in the timetable, including trains that end or start at one of the two stations, except for a pair that shares its rolling stock.",
     ["histories", "inputs", "fault_sequences"],
     "every timetable containing opposing movements, every disturbance vector, every dispatching history at and next to the boundary",
     "Tests list the expected pairs for one shipped timetable and solve two toy problems with pairs given by hand; no test checks that every head-on movement of an arbitrary timetable is found and constrained.",
     [DF + "make_J_taus.py", DF + "utils.py", RS + "linear_solver.py"],
     [("pairs on single track", DF + "make_J_taus.py: opposing pairs"), ("single line constraint", RS + "linear_solver.py: single line")],
     observe=["feasibility of a history in the problem built from the input files"])

prop("C03", "A station track holds at most one train at a time",
     "Two trains using the same track of a station are never on it together: the second arrives only after the first has left, and trains that run on the same line without an overtaking possibility keep their order. "
     "A train set that arrives as one train and leaves as another counts as staying in between; only depot tracks and the track on which a train ends for good are outside the rule.",
     ["histories", "inputs", "fault_sequences"],
     "every assignment of trains to station tracks (through, starting, ending, turning), every disturbance vector and every dispatching history at and next to the boundary",
     "Tests check the grouping for one timetable and four hand-made problems; the interplay of ending trains, turning rolling stock, neighbouring stations with similar names and order keeping is not covered by any generated history.",
     [DF + "make_J_taus.py", DF + "utils.py", RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("trains per station track", DF + "make_J_taus.py: track groups"), ("occupation and order constraints", RS + "linear_solver.py: track occupation"), ("final station handling", DF + "utils.py: skip stations")],
     observe=["feasibility of a history in the problem built from the input files"])

prop("C04", "Movements over a common switch are kept apart",
     "Two trains whose ways into a station from its neighbour, or out of it to its neighbour, share a switch pass it at least the resource time apart, in either order, whichever combination of entering and leaving it is, and no larger separation is demanded. "
     "Trains of one rolling stock are exempt, depots are outside the rule, and a movement between the two neighbouring parts of the main station is counted once.",
     ["histories", "inputs", "fault_sequences"],
     "every switch layout, every combination of entering/leaving movements, every disturbance vector and history at and next to the boundary",
     "Tests compare pair lists of a single shipped network and solve two toy problems; they do not quantify over layouts or histories.",
     [DF + "make_J_taus.py", DF + "make_switch_set.py", RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("switch sets of a movement", DF + "make_switch_set.py"), ("pairs in conflict", DF + "make_J_taus.py: switch pairs"), ("switch constraint", RS + "linear_solver.py: switch occupation")],
     observe=["feasibility of a history in the problem built from the input files"])

prop("C05", "No train beats its schedule, running, stopping or turnover time",
     "In every accepted plan a train leaves a station neither before its scheduled departure nor earlier than its disturbed entry, minimal running times over the blocks of its path, minimal stops and turnaround times allow; and rolling stock continuing as another train leaves only after arrival plus its preparation time. "
     "A plan that respects all of these is not rejected because of them, and the promised earliest departures are exactly the ones obtained by simulating the train alone.",
     ["histories", "inputs", "fault_sequences"],
     "every train path, speed profile, schedule (with missing entries), turnaround, reference time, disturbance and history",
     "Tests check a few numbers for fixed trains; not the propagation of an arbitrary disturbance through an arbitrary path, nor histories just inside and outside the bound.",
     [DF + "new_time_tables.py", DF + "scheduling_tools.py", DF + "make_J_taus.py", DF + "utils.py", RS + "linear_solver.py", RS + "helpers_functions.py"],
     [("passing times from network data", DF + "new_time_tables.py"), ("schedule and entry times", DF + "scheduling_tools.py"), ("minimal stay / circulation", RS + "linear_solver.py")],
     observe=["feasibility of a history; earliest departures reported for a plan"])

prop("C06", "Every conflict-free plan within the delay limit is reachable",
     "For every disturbance, a collectively conflict-free traffic run in which no train exceeds the admissible additional delay is a feasible point of the optimisation problem, so the reported optimum is never worse than any such run and is zero when the disturbed timetable is already free of conflicts. "
     "Preparing and building the problem never fails on a valid timetable.",
     ["histories", "inputs", "fault_sequences"],
     "every valid timetable, disturbance, delay limit and dispatching policy of the simulated traffic",
     "Tests only solve eight toy problems; no test checks that constants of the conditional constraints and the omission of 'redundant' constraints are right for arbitrary disturbances.",
     [RS + "linear_solver.py", RS + "helpers_functions.py", "helpers.py", DF + "make_J_taus.py"],
     [("conditional constraints", RS + "helpers_functions.py: large constant"), ("order variables shared between rules", RS + "linear_solver.py")],
     observe=["feasibility of simulated runs, optimum of the problem"])

prop("C07", "An injected delay hits exactly the named train",
     "Adding a disturbance to a train moves the earliest entry of this train by exactly the given number of minutes and leaves every other train untouched, whatever the other trains' numbers are. "
     "Disturbances of different trains commute, repeated ones add up, and the given timetable object is not modified. "
     "Every instance of a shipped experiment starts from the undisturbed timetable of its own data plus exactly the delays of its scenario, each of which names a train of that experiment.",
     ["fault_sequences", "inputs", "histories"],
     "every set of train numbers (including numbers that are prefixes, suffixes or parts of one another), every sequence of injected delays, every shipped experiment",
     "The only test adds one delay to a timetable whose numbers are not contained in one another.",
     [DF + "scheduling_tools.py", DF + "utils.py", "solve_real_problem.py", "solve_KO_GLC_problems.py"],
     [("delay injection", DF + "scheduling_tools.py"), ("experiment definitions", "solve_real_problem.py, solve_KO_GLC_problems.py")],
     observe=["initial conditions and earliest departures after a sequence of injections"])

prop("C08", "The objective is the weighted additional delay of trains at their goal",
     "The value that is minimised and reported for a plan equals the sum over trains of the train-class weight times the additional delay at the last station the train leaves (the one before, if it ends on a station track), divided by the delay limit; shunting movements weigh nothing. "
     "The contribution published per train and station adds up to the reported value.",
     ["histories", "inputs", "configurations"],
     "every train mix and numbering, every plan, every delay limit, linear and quantum-side evaluation alike",
     "Tests check weights of fixed trains and the objective of eight toy problems.",
     [DF + "scheduling_tools.py", RS + "linear_solver.py", RS + "results_manipulation.py", "helpers.py"],
     [("weights", DF + "scheduling_tools.py"), ("objective", RS + "linear_solver.py"), ("evaluation of samples", RS + "results_manipulation.py")],
     observe=["objective of the problem at a plan, objective recorded by solver runs, published contributions"])

prop("C09", "Verdicts on solver answers are true for any answer",
     "For every answer of a solver service - reordered, duplicated, noisy, infeasible, with any number of reads - the recorded feasibility, objective, list of satisfied constraints, number of broken constraints and sample are those of the very plan that is recorded, judged against the railway rules themselves. "
     "A plan that breaks a rule is never recorded as feasible and a plan that breaks none is never recorded as infeasible.",
     ["fault_sequences", "histories", "configurations"],
     "every response sequence of the simulated services (sampling order, noise, chain breaks, ties, duplicates), all four solution methods",
     "Tests feed one hand-written sample set; the solver side is never exercised, and the drivers not at all.",
     [RS + "results_manipulation.py", RS + "converter_bqm.py", "helpers.py", "solve_KO_GLC_problems.py"],
     [("analysis of samples", RS + "results_manipulation.py"), ("recording", "helpers.py: quantum solution")],
     observe=["returned records and result files"])

prop("C10", "The best answer is kept, whatever the arrival order",
     "Among the answers of a service the recorded one is a feasible answer with the least objective, or, when none is feasible, one of least energy; permuting, duplicating or appending worse answers does not change the quality of what is recorded. "
     "An empty or failed response never produces a record.",
     ["schedules", "fault_sequences"],
     "every multiset of answers, every arrival order and tie, every failure of the service",
     "Tests check one list with fixed order.",
     [RS + "results_manipulation.py", "helpers.py"],
     [("selection of the best sample", RS + "results_manipulation.py")],
     observe=["returned record compared with all answers delivered by the simulated service"])

prop("C11", "The problem sent to the constrained solver is the dispatching problem",
     "The problem received by the constrained hybrid service has the same variables with the same ranges, and for every assignment the same satisfied constraints and the same objective as the dispatching problem. "
     "An optimal answer computed by the service on what it received is an optimal dispatching plan.",
     ["inputs", "histories", "fault_sequences"],
     "every network, disturbance and assignment; optimal, suboptimal and infeasible answers",
     "Tests compare counts on a few toy problems.",
     [RS + "converter_cqm.py", RS + "d_wave_solves.py"],
     [("conversion", RS + "converter_cqm.py"), ("submission", RS + "d_wave_solves.py")],
     observe=["the request captured at the simulated service"])

prop("C12", "The problem sent to annealers encodes the dispatching problem",
     "Over the free auxiliary bits, the least energy of the quadratic problem received by an annealer at a given plan equals the penalty-weighted squared violation of the rules (zero exactly when all rules hold) plus the objective, for every plan within the variable ranges. "
     "Reading an annealer's answer back yields the plan encoded by its bits together with that answer's own energy.",
     ["inputs", "histories", "fault_sequences"],
     "every network, disturbance, penalty weights per rule family, and every bit string the annealer may return (incl. noise and reordered reads)",
     "Tests compare a few coefficients and counts of toy problems and never decode an adversarial answer.",
     [RS + "converter_bqm.py", RS + "d_wave_solves.py", "helpers.py"],
     [("quadratic encoding with slack", RS + "converter_bqm.py"), ("decoding", RS + "converter_bqm.py: interpreter")],
     observe=["the request captured at the simulated annealer and the decoded record"])

prop("C13", "A linear-solver run is recorded as solved only if it was",
     "An experiment record of the linear solver says 'feasible' only if the solver really returned a plan satisfying all rules; when the solver proves infeasibility, hits its time limit without a plan, or fails, the record says infeasible or the run stops without writing a record. "
     "The recorded objective is that of the plan returned, and no timetable is published without a plan.",
     ["fault_sequences", "configurations"],
     "every outcome of the external solver (optimal, time-limited with and without a plan, infeasible, crash, tolerance noise) at every instance of the experiment series",
     "The drivers are not executed by any test and the solver binary is assumed to succeed.",
     ["solve_KO_GLC_problems.py", "solve_real_problem.py", "wisla_problems.py", "helpers.py"],
     [("status handling", "solve_KO_GLC_problems.py"), ("variable checks", "helpers.py")],
     observe=["result files after runs against the simulated solver"])

prop("C14", "A crash while saving never leaves a damaged result file",
     "At whatever point a run is killed or a write fails, every result file under its final name is either the complete previous version or the complete new one. "
     "Repeating the run afterwards produces the complete new file.",
     ["crash_points", "fault_sequences"],
     "every kill point and failing/short write (no space, I/O error) during the saving of results, published timetables and prepared tables, for all drivers and methods, with and without an older file",
     "No test executes saving, let alone interrupts it.",
     ["solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py", DF + "new_time_tables.py", "helpers.py"],
     [("saving", "the drivers' pickle writing"), ("prepared tables", DF + "new_time_tables.py")],
     state=[("result files", "pickles in the result directories, read back by the publishing step and the plots")],
     observe=["the directory after the simulated crash"])

prop("C15", "Concurrent and repeated experiments do not mix results",
     "When experiments with different settings run concurrently or one after another in the same directory, each file written holds exactly the records of the experiment that its name denotes, with as many runs as requested, each answer under its own run or instance number. "
     "The result of an experiment does not depend on what else runs.",
     ["schedules", "configurations", "histories"],
     "every interleaving of several driver processes at their service and file operations, over cases, methods, penalties, time parameters and numbers of runs",
     "No test executes a driver, and none runs two.",
     ["solve_real_problem.py", "solve_KO_GLC_problems.py", "wisla_problems.py", "helpers.py"],
     [("naming of result files", "the drivers"), ("run and instance bookkeeping", "the drivers")],
     observe=["files written per process compared with the answers its services delivered"])

prop("C16", "The published timetable is the solution",
     "The timetable published for a plan shows, for every train and station, departures equal to earliest departure plus the plan's additional delay and arrivals equal to the previous departure plus the running time, to the minute, together with the undelayed counterparts - independent of solver tolerance noise. "
     "Publishing from a stored result in a new process gives the same timetable as publishing from memory.",
     ["histories", "fault_sequences", "configurations"],
     "every plan, every perturbation of the returned values within solver tolerance, every restart between solving and publishing",
     "Publishing is not tested at all.",
     ["helpers.py", RS + "linear_solver.py", "solve_real_problem.py", "wisla_problems.py"],
     [("publication", "helpers.py: timetable of results"), ("stored samples", "the drivers")],
     observe=["published timetable objects/files"])

prop("C17", "Experiment records tell the true effort and parameters",
     "The computation time recorded for a solver call is the time that really elapsed during that call, even if the wall clock is stepped meanwhile, and the parameters the service received are those recorded and requested. "
     "Each record carries the information and properties returned by its own service call. "
     "A script that gets answers ends with a record of each, and hands solver, time limit and penalty from its command line to the service.",
     ["fault_sequences", "schedules", "configurations"],
     "every clock step during a call, every service latency, every method and parameter choice, several calls in one process",
     "Nothing in the tests observes calls to the services or the clock.",
     ["helpers.py", "solve_KO_GLC_problems.py", RS + "d_wave_solves.py"],
     [("timing", "helpers.py: quantum solution"), ("parameters", RS + "d_wave_solves.py")],
     observe=["records versus the simulated service's own log"])

prop("C18", "Damaged input never silently becomes a plan",
     "When the timetable file is cut inside the listing of a train, its number, start or end row is lost, a block row is lost, duplicated or corrupted so that consecutive blocks are not connected in the network, or two trains of one rolling stock no longer meet, preparation stops with an error instead of returning a timetable. "
     "Undamaged input is read completely: every train, every block in order, every time, speed and turnaround arrives unchanged, whatever the order of trains in the file.",
     ["fault_sequences", "inputs"],
     "every valid timetable and network file, every truncation point inside a listing and every loss, duplication or corruption of a row that can be noticed",
     "Tests read intact shipped files only.",
     [DF + "time_table_check.py", DF + "new_time_tables.py", "helpers.py"],
     [("parsing", DF + "time_table_check.py"), ("connectivity check", DF + "new_time_tables.py: passing times")],
     observe=["prepared timetable or error"])

prop("C19", "Preparation is repeatable and independent of history",
     "Preparing an experiment from the same files gives the same problem whatever was prepared before in the same process, in whatever order the trains, stations and network rows are listed, however often preparation steps are repeated, and also when it is continued from the saved tables in a new process. "
     "Building a problem or a disturbance instance never changes the shared inputs, so instance k of a series is the same alone or in the series.",
     ["histories", "schedules", "inputs"],
     "every sequence and interleaving of preparation calls over several timetables in one process, every permutation of input rows",
     "Each test prepares one timetable once in the shipped order.",
     ["helpers.py", DF + "make_J_taus.py", DF + "utils.py", DF + "scheduling_tools.py", RS + "linear_solver.py"],
     [("preparation", "helpers.py"), ("sets and times", DF + "make_J_taus.py")],
     observe=["feasible set and objective of the problems built, prepared objects before and after"])

prop("C20", "The Wisla experiment admits exactly the safe traffic of its line",
     "The problem solved by the Wisla script accepts a run of its six trains exactly if nobody leaves before the declared time, running, stopping and turnaround times are kept, delays stay within the limit, trains leaving a station in the same direction are at least the declared headway apart on each of the three lines and in both directions, and opposing trains are never on one line together. "
     "The delay of every train counts in the objective.",
     ["histories", "schedules"],
     "every history of departures of the six trains within and just outside the delay limit, every order decision of the solver, every solution method of the script",
     "The repository has no test of this script; its data are written by hand inside the script.",
     ["wisla_problems.py", RS + "linear_solver.py", "helpers.py"],
     [("hand-written sets and times", "wisla_problems.py"), ("problem building", RS + "linear_solver.py")],
     observe=["the problem the running script hands to its solver"])

prop("C21", "Diagrams, lists and statistics show what was published",
     "The diagram of a published timetable draws every selected train at the kilometres of its stations in order of travel, with the resolved and the conflicted times of exactly the realisation asked for, and the list of train paths and the delay statistics repeat the published values. "
     "This holds for results of every solver, also when the same result is published anew or a publishing process dies meanwhile; a realisation that does not exist is refused.",
     ["histories", "schedules", "fault_sequences"],
     "every published timetable of every solver and number of realisations, every interleaving of a reading with a publishing process, every kill of the latter",
     "The repository has no test of the tools next to the published results.",
     ["solutions_quantum/data4diagrams/echo_gnuplot_file.py", "solutions_quantum/data4diagrams/read_quantum_pickle.py",
      "solutions_quantum/data4diagrams/visualise_statistics.py", "solutions_quantum/data4diagrams/train_utils.py", "solutions_quantum/data4diagrams/railway_lines.py"],
     [("diagrams", "solutions_quantum/data4diagrams/echo_gnuplot_file.py"), ("train paths", "solutions_quantum/data4diagrams/train_utils.py"),
      ("statistics", "solutions_quantum/data4diagrams/visualise_statistics.py")],
     observe=["what the tools print"])

prop("C22", "Plots of series and sweeps show what was recorded",
     "The plots that compare a linear solver with the hybrid one over a series of instances, and those over the time parameter of the hybrid one, draw for every instance or parameter exactly the recorded objective in minutes, computation time and processor time of the right file, and mark each answer by its recorded feasibility; an instance without a plan is a gap, and sweeps with an infeasible answer are refused. "
     "This holds also when one of the experiments is recorded anew, or killed while doing so, as the plot is made.",
     ["histories", "schedules", "fault_sequences"],
     "every series of records including unsolved instances, every interleaving of a plotting with a recording process, every kill of the latter",
     "The repository has no test of the plotting scripts.",
     ["results_KO_GLC/fast_plot.py", "results_KO_GLC/fast_plot_lim.py", "solutions_quantum/tmin_plot.py", "solutions_quantum/tmin_plot_rev.py"],
     [("comparison plots", "results_KO_GLC/fast_plot.py, results_KO_GLC/fast_plot_lim.py"), ("sweeps", "solutions_quantum/tmin_plot.py, solutions_quantum/tmin_plot_rev.py")],
     observe=["what is drawn, taken by a stand-in for matplotlib"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
