"""Records and timetables of the linear solver under every outcome of the solver."""
import copy

from .. import clock, core, drivers, services

ID = "C13"
PLAN = {"quick": {"runs": 72, "guard": 700}, "thorough": {"runs": 500, "guard": 860}}
NEEDS = {"instance: optimal": 1, "instance: limit_plan": 0.3, "instance: limit_none": 0.2, "instance: infeasible": 0.1,
         "instance: crash": 0.05, "file judged": 0.4}
RULE = "one interleaving = script and the sequence of solver outcomes over the instances of the series"
COMPONENTS = {
    "real": ["solve_KO_GLC_problems.py, solve_real_problem.py, wisla_problems.py with everything they import from the repository"],
    "simulated": ["external LP solver (own exact solver; outcome, tolerance noise and time chosen by the seed)", "PuLP (sim/stubs)",
                  "clock", "file system operations (real files in a scratch directory)"],
}
ASSUMPTIONS = ["solver status codes as PuLP 2.5.1 sets them: plan within the time limit = Optimal/IntegerFeasible, "
               "stopped without a plan = NotSolved/NoSolutionFound, infeasible = Infeasible with arbitrary values"]

PLANS = ("optimal", "limit_plan")


def gen(rng, index, tier):
    kind = "ko" if index % 3 else rng.choice(["real", "wisla"])
    spec = {"kind": kind, "seed": rng.randrange(1 << 30), "old": rng.random() < 0.5,
            "category": rng.choice(["Integer", "Integer", "Continuous"]), "limit": rng.choice([0, 5, 60]),
            "conf": {"faults": rng.choice([{}, {"limit_plan": 0.3}, {"limit_none": 0.12, "limit_plan": 0.3}, {"limit_none": 0.5},
                                           {"crash": 0.06, "limit_plan": 0.2}]),
                     "noise": rng.choice([0.0, 0.0, 3e-7, 9e-7]), "none_values": rng.random() < 0.5,
                     "steps": rng.choice([0.0, 0.5])}}
    if kind == "ko":
        spec["world"] = drivers.ko_world(rng)
    elif kind == "real":
        spec["world"] = drivers.small(rng, rng.choice([2, 3, 4]), window=rng.choice([1, 5]))
        spec["conf"]["faults"] = rng.choice([{}, {"limit_none": 0.7}, {"limit_plan": 0.7}, {"crash": 0.5}])
    else:
        spec["conf"]["faults"] = rng.choice([{}, {"limit_none": 0.7}, {"limit_plan": 0.7}, {"crash": 0.5}])
    return spec


def command(spec):
    k = spec["kind"]
    if k == "ko":
        a = ["--case", "3", "--solve_lp", "PULP_CBC_CMD", "--category", spec["category"]]
        return "solve_KO_GLC_problems.py", a + (["--time_limit", str(spec["limit"])] if spec["limit"] else [])
    if k == "real":
        return "solve_real_problem.py", ["--case", "0", "--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1", "--category", spec["category"]]
    a = ["--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1"]
    return "wisla_problems.py", a + (["--time_limit", str(spec["limit"])] if spec["limit"] else [])


def execute(spec, o):
    ck = clock.SimClock()
    with drivers.scratch() as d:
        if spec["kind"] == "ko":
            drivers.lay_out(d, ko=spec["world"])
        else:
            drivers.lay_out(d, real=spec.get("world"))
        before = {}
        if spec["old"]:
            # results of an earlier, healthy run
            healthy = dict(spec["conf"], faults={}, noise=0.0)
            first = drivers.Simulation(d, ck)
            first.add(*command(spec), services.SimHub(spec["seed"] + 1, healthy, ck, None))
            first.run()
            before = drivers.results(d)
        sim = drivers.Simulation(d, ck)
        hub = services.SimHub(spec["seed"], spec["conf"], ck, None)
        p = sim.add(*command(spec), hub)
        sim.run()
        after = drivers.results(d)
        problems = p.problems
    outcomes = [c["outcome"] for c in hub.calls]
    for c in hub.calls:
        o.counters["instance: " + c["outcome"]] += 1
        if c["outcome"] in ("crash", "limit_plan", "limit_none"):
            o.faults["lp " + c["outcome"]] += 1
        if c.get("step"):
            o.faults["wall clock stepped"] += 1
        o.sim_minutes += (c["end"] - c["start"]) / 60.0
    o.order(spec["kind"], tuple(outcomes))
    changed = sorted(n for n in after if after[n] != before.get(n) and n != "update_tables.pkl")
    o.event("run", spec["kind"], outcomes, p.exit if isinstance(p.exit, str) else core.describe(p.exit), changed)
    if not hub.calls:
        # the series could not be prepared; nothing may have been recorded
        o.counters["stopped before solving"] += 1
        if changed:
            o.fail("record without solving", "%s: %s" % (spec["kind"], changed))
        elif p.exit == "ok":
            o.fail("nothing solved", "%s ended without calling the solver" % spec["kind"])
        return
    o.nontrivial = True
    o.evaluations += len(hub.calls)
    stopped = p.exit != "ok"
    if stopped and spec["kind"] == "ko" and changed:
        o.fail("record of a run that stopped", "%s: %s after %s, %s" % (spec["kind"], changed, outcomes, core.describe(p.exit)))
        return
    if stopped and all(x in PLANS for x in outcomes):
        o.fail("run stopped although the solver returned plans", "%s: %s after %s, noise %s"
               % (spec["kind"], core.describe(p.exit), outcomes, spec["conf"]["noise"]))
        return
    if spec["kind"] == "ko":
        if stopped:
            o.counters["stopped without a record"] += 1
            return
        judge_series(spec, o, hub, outcomes, changed, after, problems)
    else:
        o.counters["file judged"] += 1
        if changed and outcomes[-1] not in PLANS:
            o.fail("timetable published without a plan", "%s: %s, outcome %s" % (spec["kind"], changed, outcomes))
        elif not changed and outcomes[-1] in PLANS and not stopped:
            if not before:
                o.fail("no timetable published", "%s: outcome %s" % (spec["kind"], outcomes))


def judge_series(spec, o, hub, outcomes, changed, after, problems):
    if len(hub.calls) != 12:
        o.fail("instances not solved", "%d solver calls for 12 instances" % len(hub.calls))
        return
    names = [n for n in after if n.startswith("results_KO_GLC")]
    if len(names) != 1:
        o.fail("result file", "files %s" % names)
        return
    res = drivers.load(after[names[0]])
    o.counters["file judged"] += 1
    if isinstance(res, Exception):
        o.fail("result file", "%s cannot be read: %s" % (names[0], res))
        return
    for k in range(12):
        rec = res.get(k)
        call = hub.calls[k]
        where = "instance %d, outcomes %s" % (k, outcomes)
        if not isinstance(rec, dict):
            o.fail("missing record", where)
            return
        solved = outcomes[k] in PLANS
        if bool(rec.get("feasible")) and not solved:
            o.fail("recorded as feasible", "%s: solver said %s, record %s" % (where, outcomes[k], rec))
            return
        if solved:
            if not rec.get("feasible"):
                o.fail("plan recorded as infeasible", "%s: %s" % (where, rec))
                return
            m = call["model"]
            obj = (sum(a * x for a, x in zip(m.obj, call["x"])) + m.obj0) * res["d_max"]
            if rec.get("objective") is None or abs(float(rec["objective"]) - obj) > 1e-3:
                o.fail("recorded objective", "%s: %s instead of %s" % (where, rec.get("objective"), obj))
                return
        elif rec.get("objective") is not None and rec["objective"] == rec["objective"]:
            o.fail("objective without a plan", "%s: solver said %s, record %s" % (where, outcomes[k], rec))
            return
        if rec["constraints"] != len(m_cons(call)):
            o.fail("recorded size", "%s: %s rules instead of %s" % (where, rec["constraints"], len(m_cons(call))))
            return
        took = call["end"] - call["start"]
        if abs(float(rec["comp_time_seconds"]) - took) > 1e-5:
            o.counters["duration differs (C17)"] += 1


def m_cons(call):
    return set(call["model"].names)


def shrink(spec):
    if spec["old"]:
        yield dict(spec, old=False)
    for f, v in (("noise", 0.0), ("steps", 0.0)):
        if spec["conf"].get(f):
            yield dict(spec, conf=dict(spec["conf"], **{f: v}))
    for f in spec["conf"]["faults"]:
        g = copy.deepcopy(spec)
        del g["conf"]["faults"][f]
        yield g
    if spec["limit"]:
        yield dict(spec, limit=0)
    if spec["kind"] == "real" and len(spec["world"]["trains"]) > 1:
        t = spec["world"]["trains"]
        for i in range(len(t)):
            yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
