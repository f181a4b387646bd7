"""Published timetables against the plans they are made from."""
import datetime
import pickle

from .. import clock, core, drivers, model, ref, services

ID = "C16"
PLAN = {"quick": {"runs": 600, "guard": 700}, "thorough": {"runs": 4000, "guard": 860}}
NEEDS = {"timetable compared": 2, "delayed departure": 1, "value off by tolerance": 1, "published after a restart": 0.1,
         "published by the linear solver's script": 0.1, "before the reference time": 0.1}
RULE = "one interleaving = way of publishing, kind of plan, tolerance noise, and which departures are delayed"
COMPONENTS = {
    "real": ["helpers.py publication", "solve_real_problem.py and wisla_problems.py with everything they import from the repository"],
    "simulated": ["solver services and LP solver (plans, tolerance noise)", "process restart between solving and publishing", "clock, PuLP, dimod, pyqubo (sim/stubs)"],
}
ASSUMPTIONS = ["values of integer variables come back within 1e-6 of an integer"]

QUANTUM = ("sim", "real", "bqm", "cqm")
EPS = 1e-5


def gen(rng, index, tier):
    kind = rng.choice(["memory", "memory", "lp", "quantum", "wisla"])
    spec = {"kind": kind, "seed": rng.randrange(1 << 30), "category": rng.choice(["Integer", "Integer", "Continuous"]),
            "noise": rng.choice([0.0, 3e-7, 9e-7]), "method": rng.choice(QUANTUM), "runs": rng.choice([1, 2, 3]), "action": rng.choice(["lp", "quantum"]),
            "tref": rng.choice([[16, 0], [0, 5], [23, 50]])}
    if kind == "memory":
        w = drivers.small(rng, rng.choice([2, 3, 4, 5]), n_stations=rng.choice([2, 3, 4]), window=rng.choice([5, 20, 60]), p_pair9=rng.choice([0.0, 0.9]),
                          p_special=rng.choice([0.0, 0.4]))
        w["tref"] = rng.choice(["16:00", "16:00", "15:37", "17:10"])
        spec["world"] = w
        spec["dmax"] = rng.choice([5, 10, 40])
        spec["dist"] = [[t["no"], rng.choice([0, 2, 9, 30])] for t in w["trains"] if rng.random() < 0.6]
    elif kind in ("lp", "quantum"):
        spec["world"] = drivers.small(rng, rng.choice([2, 3]), window=rng.choice([1, 5]), p_pair9=rng.choice([0.0, 0.9]))
        if kind == "quantum":
            spec["category"] = "Integer"
    return spec


# -- oracle --------------------------------------------------------------------------

def minute(t, tref):
    return (t - tref).total_seconds() / 60.0


def judge(o, where, sched, tref, paths, leaves, E, run, delay):
    """Published timetable against earliest departures E, running times and delays of the plan."""
    o.counters["timetable compared"] += 1
    o.nontrivial = True
    if sorted(map(str, sched)) != sorted(map(str, paths)):
        o.fail("trains of the timetable", "%s: %s instead of %s" % (where, sorted(map(str, sched)), sorted(map(str, paths))))
        return
    for no, path in paths.items():
        if sorted(map(str, sched[no])) != sorted(map(str, path)):
            o.fail("stations of the timetable", "%s: train %s: %s instead of %s" % (where, no, list(sched[no]), path))
            return
        for i, s in enumerate(path):
            d = sched[no][s]
            if (no, s) in leaves:
                x = delay(no, s)
                fraction = abs(x - round(x)) > EPS or abs(E[no, s] - round(E[no, s])) > EPS
                tol = 0.5 + EPS if fraction else EPS
                o.evaluations += 1
                if x > 0.5:
                    o.counters["delayed departure"] += 1
                if E[no, s] + x < 0:
                    o.counters["before the reference time"] += 1
                for name, want in (("departure", E[no, s] + x), ("conflicted_departure", E[no, s])):
                    if name not in d or abs(minute(d[name], tref) - want) > tol:
                        o.fail("published " + name, "%s: train %s at %s: %s instead of %s min (delay %r)"
                               % (where, no, s, minute(d[name], tref) if name in d else "nothing", want, x))
                        return
                if "secondary delay" not in d or abs(float(d["secondary delay"]) - x) > tol:
                    o.fail("published delay", "%s: train %s at %s: %s instead of %r" % (where, no, s, d.get("secondary delay"), x))
                    return
            elif "departure" in d:
                o.fail("departure of a train that ends", "%s: train %s at %s" % (where, no, s))
                return
            if i:
                p = path[i - 1]
                x = delay(no, p)
                t = run(no, p)
                tol = 0.5 + EPS + (0.5 if abs(x - round(x)) > EPS else 0)
                o.evaluations += 1
                for name, want in (("arrive", E[no, p] + x + t), ("conflicted_arrive", E[no, p] + t)):
                    if name not in d or abs(minute(d[name], tref) - want) > tol:
                        o.fail("published " + name, "%s: train %s at %s: %s instead of %s min (delay %r)"
                               % (where, no, s, minute(d[name], tref) if name in d else "nothing", want, x))
                        return


def judge_world(o, where, sched, tref, w, dist, sample):
    """Timetable of a plan given as variable values by name."""
    rail, raw = ref.Rail(w, 1), ref.Rail(w, 0)
    paths = {no: T.path for no, T in rail.trains.items()}
    leaves = {(no, s) for no, T in rail.trains.items() for s in T.leaves}

    def delay(no, s):
        return float(sample.get(model.var_name(no, s), 0.0))

    judge(o, where, sched, tref, paths, leaves, rail.earliest(dist), lambda no, s: raw.trains[no].run[s], delay)
    o.order(where.split(",")[0], tuple(sorted(str(k) for k in leaves if delay(*k) > 0.5)))


# -- ways of publishing -----------------------------------------------------------------

def execute(spec, o):
    {"memory": memory, "lp": driver, "quantum": driver, "wisla": wisla}[spec["kind"]](spec, o)


def noisy(rng, v, noise):
    if noise:
        o = rng.choice([0.0, noise, -noise, noise / 7])
        return v + o
    return v


def memory(spec, o):
    w = spec["world"]
    try:
        p = model.Prepared(w, 1)
        with core.quiet():
            taus = p.h.make_taus(p.train_dict, p.stations, r=0)
        dist = {no: float(d) for no, d in spec["dist"] if any(t["no"] == no for t in w["trains"])}
        pr = p.problem(dist, spec["dmax"], spec["category"])
    except Exception as e:
        if not core.from_repo(e):
            raise
        o.counters["could not be prepared (C06)"] += 1
        return
    rng = core.rng_for("publish", spec["seed"])
    plans = services.Plans(pr.model, rng)
    tref = datetime.datetime(2020, 1, 1, *spec["tref"])
    for _ in range(3):
        kind, x = plans.draw(["opt", "feas", "feas", "rand"])
        if spec["category"] == "Continuous":
            x = [v if pr.model.isbin[i] else min(pr.model.hi[i], v + rng.choice([0.0, 0.25, 0.5, 0.9])) for i, v in enumerate(x)]
        sample = {}
        for v, val in zip(pr.model.vars, x):
            v.varValue = noisy(rng, float(val), spec["noise"])
            sample[v.name] = float(val)
            if v.varValue != val:
                o.counters["value off by tolerance"] += 1
                o.faults["tolerance noise"] += 1
        for way in ("solved", "stored"):
            data = [] if way == "solved" else pickle.loads(pickle.dumps({v.name: v.varValue for v in pr.model.vars}))
            with core.quiet():
                sched = p.h.print_optimisation_results(pr.prob, pr.timetable, p.train_set, taus, p.skip, spec["dmax"], tref, data)
            where = "%s, %s plan, noise %s, d_max %s, %s" % (way, kind, spec["noise"], spec["dmax"], spec["dist"])
            judge_world(o, where, sched, tref, w, dist, sample)
            o.event(where, sorted((str(k), str(v)) for k, v in sched.items()))
            if o.violations:
                return


def run_script(d, ck, script, argv, hub):
    sim = drivers.Simulation(d, ck)
    p = sim.add(script, argv, hub)
    p.keep = ("train_set", "timetable", "taus")
    sim.run()
    return p


def driver(spec, o):
    w = spec["world"]
    ck = clock.SimClock()
    conf = {"kinds": ["opt", "feas", "rand"], "rows": 3, "noise": spec["noise"]}
    base = ["--case", "0", "--category", spec["category"]]
    tref = datetime.datetime(2020, 1, 1, 16, 0)
    with drivers.scratch() as d:
        drivers.lay_out(d, real=w)
        hub = services.SimHub(spec["seed"], conf, ck, None)
        if spec["kind"] == "lp":
            p = run_script(d, ck, "solve_real_problem.py", base + ["--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1"], hub)
            files = drivers.results(d)
            if not hub.calls or "x" not in hub.calls[-1]:
                o.counters["no plan"] += 1
                return
            sched = drivers.load(files.get("solutions_quantum/data4diagrams/PULP_CBC_CMD_case0_%s.pkl" % spec["category"], b""))
            if p.exit != "ok" or isinstance(sched, Exception):
                o.fail("not published", "linear solver, noise %s: %s, files %s" % (spec["noise"], p.exit, sorted(files)))
                return
            c = hub.calls[-1]
            if spec["noise"]:
                o.counters["value off by tolerance"] += 1
                o.faults["tolerance noise"] += 1
            o.counters["published by the linear solver's script"] += 1
            judge_world(o, "script with linear solver, noise %s" % spec["noise"], sched, tref, w, {},
                        {v.name: v0 for v, v0 in zip(c["model"].vars, c["x"])})
            o.event("lp", sorted((str(k), str(v)) for k, v in sched.items()))
            return
        q = base + ["--solve_quantum", spec["method"], "--runs", str(spec["runs"])]
        p = run_script(d, ck, "solve_real_problem.py", q, hub)
        if p.exit != "ok":
            o.counters["not solved (C12)"] += 1
            return
        stored = {n: b for n, b in drivers.results(d).items() if n.startswith("solutions_quantum") and "data4" not in n}
        p = run_script(d, ck, "solve_real_problem.py", q + ["--show_timetable", "1"], services.SimHub(0, conf, ck, None))
        o.faults["restart before publishing"] += 1
        files = drivers.results(d)
        if p.exit != "ok":
            o.fail("not published", "%s: %s" % (spec["method"], core.describe(p.exit)))
            return
        (name, raw), = stored.items()
        sched = drivers.load(files.get(name.replace("solutions_quantum/", "solutions_quantum/data4diagrams/"), b""))
        data = drivers.load(raw)
        if isinstance(sched, Exception) or sorted(sched) != list(range(1, spec["runs"] + 1)):
            o.fail("published runs", "%s: %s of %d runs" % (name, sched if isinstance(sched, Exception) else sorted(sched), spec["runs"]))
            return
        for i in range(1, spec["runs"] + 1):
            o.counters["published after a restart"] += 1
            judge_world(o, "%s, run %d after a restart" % (spec["method"], i), sched[i], tref, w, {}, dict(data[i]["sample"]))
            if o.violations:
                return
        o.event("quantum", sorted((str(k), str(v)) for k, v in sched.items()))


def wisla(spec, o):
    ck = clock.SimClock()
    conf = {"kinds": ["opt", "feas", "rand"], "rows": 3, "noise": spec["noise"]}
    with drivers.scratch() as d:
        drivers.lay_out(d)
        hub = services.SimHub(spec["seed"], conf, ck, None)
        if spec["action"] == "lp":
            p = run_script(d, ck, "wisla_problems.py", ["--solve_lp", "PULP_CBC_CMD", "--show_timetable", "1"], hub)
            c = hub.calls[-1]
            sample = {v.name: v0 for v, v0 in zip(c["model"].vars, c["x"])}
            where = "wisla script with linear solver, noise %s" % spec["noise"]
            o.counters["published by the linear solver's script"] += 1
            o.counters["value off by tolerance"] += spec["noise"] > 0
        else:
            q = ["--solve_quantum", spec["method"]]
            p = run_script(d, ck, "wisla_problems.py", q, hub)
            if p.exit != "ok":
                o.counters["not solved (C12)"] += 1
                return
            (raw,) = [b for n, b in drivers.results(d).items() if "wisla" in n]
            sample = dict(drivers.load(raw)["sample"])
            p = run_script(d, ck, "wisla_problems.py", q + ["--show_timetable", "1"], services.SimHub(0, conf, ck, None))
            o.faults["restart before publishing"] += 1
            o.counters["published after a restart"] += 1
            where = "wisla script, %s after a restart" % spec["method"]
        files = drivers.results(d)
    pub = [drivers.load(b) for n, b in files.items() if "data4diagrams" in n]
    if p.exit != "ok" or len(pub) != 1 or isinstance(pub[0], Exception):
        o.fail("not published", "%s: %s, files %s" % (where, p.exit if p.exit == "ok" else core.describe(p.exit), sorted(files)))
        return
    if any(k not in p.kept for k in p.keep):
        o.counters["inputs of the script not visible"] += 1
        return
    ts, tt, taus = (p.kept[k] for k in p.keep)
    E = {}
    for no, path in ts["Paths"].items():
        prev = None
        for s in path:
            k = "%s_%s" % (no, s)
            if prev is None:
                t = tt["initial_conditions"][k]
            else:
                t = E[no, prev] + taus["pass"]["%s_%s_%s" % (no, prev, s)] + taus["stop"][k]
            E[no, s] = max(t, tt["schedule"].get(k, t))
            prev = s
    leaves = {(no, s) for no, path in ts["Paths"].items() for s in path if ts["skip_station"].get(no) != s}
    nxt = {(no, s): n for no, path in ts["Paths"].items() for s, n in zip(path, path[1:])}

    def delay(no, s):
        return float(sample.get(model.var_name(no, s), 0.0))

    judge(o, where, pub[0], datetime.datetime(2020, 1, 1, 8, 0), ts["Paths"], leaves, E,
          lambda no, s: taus["pass"]["%s_%s_%s" % (no, s, nxt[no, s])], delay)
    o.order(where.split(",")[0], tuple(sorted(str(k) for k in leaves if delay(*k) > 0.5)))
    o.event(where, sorted((str(k), str(v)) for k, v in pub[0].items()))


def shrink(spec):
    if spec["noise"]:
        yield dict(spec, noise=0.0)
    if spec["runs"] > 1:
        yield dict(spec, runs=spec["runs"] - 1)
    if spec.get("dist"):
        for i in range(len(spec["dist"])):
            yield dict(spec, dist=spec["dist"][:i] + spec["dist"][i + 1:])
    if "world" in spec:
        t = spec["world"]["trains"]
        for i in range(len(t)):
            if len(t) > 1:
                yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
