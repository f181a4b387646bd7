"""Several experiments in one directory: concurrently, one after another, with one of them dying."""
from .. import clock, core, drivers, services

ID = "C15"
PLAN = {"quick": {"runs": 240, "guard": 700}, "thorough": {"runs": 1100, "guard": 860}}
NEEDS = {"process": 1.4, "file compared": 0.8, "record traced": 0.4, "switch": 4, "same name": 0.1, "publishing while solving": 0.08, "names compared": 0.6}
RULE = "one interleaving = order of the processes' service and file operations (process and kind of operation, in time order)"
COMPONENTS = {
    "real": ["the three experiment scripts with everything they import from the repository, one set of modules per process", "files in a scratch directory"],
    "simulated": ["processes and their scheduling (greenlets switched at file and service operations)", "solver services, LP solver, clock", "libraries of sim/stubs"],
}
ASSUMPTIONS = ["processes are switched at file and service operations only; between those they share nothing",
               "the linear solver's time limit is not part of the name of a published timetable"]

METHODS = ("sim", "real", "bqm", "cqm")
SOLVERS = ("PULP_CBC_CMD", "CPLEX_CMD", "GUROBI_CMD")
FIELDS = ("case", "method", "min_t", "penalty", "publish", "category", "lp", "limit", "solver")
CONF = {"kinds": ["opt", "feas", "rand"], "rows": 2}


def gen_job(rng, kinds):
    k = rng.choice(kinds)
    job = {"kind": k, "seed": rng.randrange(1 << 30), "publish": k in ("real", "wisla") and rng.random() < 0.25, "lp": rng.random() < 0.2,
           "case": rng.choice([0, 0, 4, 6, 7]) if k == "real" else 3, "category": "Integer",
           "method": rng.choice(METHODS), "min_t": rng.choice([5, 6, 20]), "penalty": rng.choice([1.0, 1.25, 2.5]), "runs": rng.choice([1, 2, 3]),
           "limit": rng.choice([0, 5, 60]), "solver": rng.choice(SOLVERS)}
    if job["lp"]:
        job["publish"] = k != "ko"
        job["category"] = rng.choice(["Integer", "Continuous"])
    return job


def possible(job):
    if job["lp"]:
        job["publish"] = True
    else:
        job["category"] = "Integer"
    if job["kind"] == "ko":
        job["case"], job["publish"] = 3, False
    return job


def gen_names(rng, index):
    """Experiments that differ in one setting each."""
    base = gen_job(rng, ["ko"] if index % 24 == 7 else ["real", "real", "wisla"])
    base["lp"] = rng.random() < 0.4
    base = possible(dict(base, runs=1, publish=False))
    jobs = [base]
    for f in FIELDS:
        j = gen_job(rng, [base["kind"]])
        for _ in range(20):
            if j[f] != base[f]:
                break
            j = gen_job(rng, [base["kind"]])
        j = possible(dict(base, **{f: j[f]}))
        if identity(j) not in [identity(k) for k in jobs]:
            jobs.append(j)
    rng.shuffle(jobs)
    return jobs


def gen(rng, index, tier):
    if index % 6 == 1:
        jobs = gen_names(rng, index)
        spec = {"names": True, "jobs": jobs, "order": "serial", "seed": rng.randrange(1 << 30), "kill": None}
        return with_worlds(rng, spec, [jobs[0]["kind"]])
    kinds = ["ko"] if index % 24 == 0 else ["real", "real", "wisla"]
    n = 2 if kinds == ["ko"] else rng.choice([2, 2, 3])
    jobs = [gen_job(rng, kinds) for _ in range(n)]
    for j in jobs[1:]:
        if rng.random() < 0.6:
            # almost the same experiment as the first one
            base = dict(jobs[0], seed=j["seed"])
            for f in rng.sample(FIELDS + ("runs",), rng.choice([0, 1, 1, 2])):
                base[f] = j[f]
            j.update(possible(base))
    if "real" in kinds and rng.random() < 0.2:
        # one process publishes what another one is about to replace
        jobs[0].update(lp=False, publish=True, category="Integer")
        jobs[1].update(dict(jobs[0], seed=jobs[1]["seed"], publish=False, runs=max(jobs[0]["runs"], jobs[1]["runs"])))
    spec = {"jobs": jobs, "order": rng.choice(["random", "random", "burst", "serial"]), "seed": rng.randrange(1 << 30),
            "kill": [rng.randrange(n), rng.random()] if rng.random() < 0.25 else None}
    return with_worlds(rng, spec, kinds)


def with_worlds(rng, spec, kinds):
    if "ko" in kinds:
        spec["ko"] = drivers.ko_world(rng)
    else:
        # a pair n, n9 keeps the second world's numbers apart from the first's
        spec["real"] = drivers.small(rng, 2)
        spec["real1"] = drivers.merge([drivers.small(rng, 2, p_special=0.0, p_pair9=0.0, n_stations=2, numbers="plain")], [501, 702, 803, 904], "16:00")
    return spec


def command(j, publish=None):
    pub = j["publish"] if publish is None else publish
    if j["kind"] == "ko":
        a = ["--case", "3", "--category", j["category"]]
        if j["lp"]:
            a += ["--solve_lp", j["solver"]] + (["--time_limit", str(j["limit"])] if j["limit"] else [])
        else:
            a += ["--solve_quantum", j["method"], "--min_t", str(j["min_t"])]
        return "solve_KO_GLC_problems.py", a
    if j["kind"] == "wisla":
        if j["lp"]:
            return "wisla_problems.py", ["--solve_lp", j["solver"], "--show_timetable", "1"] + (["--time_limit", str(j["limit"])] if j["limit"] else [])
        return "wisla_problems.py", ["--solve_quantum", j["method"], "--min_t", str(j["min_t"])] + (["--show_timetable", "1"] if pub else [])
    a = ["--case", str(j["case"]), "--category", j["category"]]
    if j["lp"]:
        return "solve_real_problem.py", a + ["--solve_lp", j["solver"], "--show_timetable", "1"]
    a += ["--solve_quantum", j["method"], "--min_t", str(j["min_t"]), "--penalty", str(j["penalty"]), "--runs", str(j["runs"])]
    return "solve_real_problem.py", a + (["--show_timetable", "1"] if pub else [])


def identity(j):
    """What distinguishes an experiment from others (without seed and number of runs)."""
    k = j["kind"]
    hyb = j["method"] in ("bqm", "cqm")
    if k == "ko":
        return (k, j["category"], j["solver"], j["limit"]) if j["lp"] else (k, j["category"], j["method"], j["min_t"] if hyb else None)
    if k == "wisla":
        return (k, j["solver"]) if j["lp"] else (k, j["method"], j["min_t"] if hyb else None, j["publish"])
    if j["lp"]:
        return (k, j["case"], j["category"], j["solver"])
    return (k, j["case"], j["category"], j["method"], j["min_t"] if hyb else None, None if j["method"] == "cqm" else j["penalty"], j["publish"])


def same_store(a, b):
    """b's stored result is what a publishes from."""
    return identity(dict(a, publish=False)) == identity(dict(b, publish=False)) and not a["lp"] and not b["lp"]


class Scheduler:
    """Seeded choice of the next process."""

    def __init__(self, order, seed):
        self.rng = core.rng_for("schedule", seed)
        self.order, self.last, self.left = order, None, 0

    def choice(self, alive):
        if self.order == "serial":
            return alive[0]
        if self.order == "burst" and self.last in alive and self.left > 0:
            self.left -= 1
            return self.last
        self.last = self.rng.choice(alive)
        self.left = self.rng.randrange(12)
        return self.last


def comparable(b):
    x = drivers.load(b)
    if isinstance(x, Exception):
        return ("unreadable", type(x).__name__)
    return drivers.plain(x, drop=("comp_time_seconds",))


def execute(spec, o):
    ck = clock.SimClock()
    jobs = spec["jobs"]
    worlds = {k: spec[k] for k in ("real", "real1", "ko") if k in spec}

    def alone(steps):
        """Files after the given steps in a directory of their own; None if a step fails."""
        with drivers.scratch() as d:
            drivers.lay_out(d, **worlds)
            for j, pub, seed in steps:
                sim = drivers.Simulation(d, ck)
                p = sim.add(*command(j, pub), services.SimHub(seed, CONF, ck, None))
                sim.run()
                if p.exit != "ok":
                    o.event("alone", command(j, pub), core.describe(p.exit))
                    return None
            return {n: comparable(b) for n, b in drivers.results(d).items()}

    if spec.get("names"):
        return names_differ(o, jobs, alone)
    old = spec["seed"] + 1          # services of the results that are there beforehand
    stores = [j for j in jobs if j["publish"] and not j["lp"]]
    allowed = []                    # per job: file -> contents it may leave
    for j in jobs:
        if j["publish"] and not j["lp"]:
            before = alone([(j, False, old)])
            got = alone([(j, False, old), (j, True, j["seed"])])
            if before is None or got is None:
                o.counters["could not be run alone"] += 1
                return
            mine = {n: {c} for n, c in got.items() if n not in before or n == "update_tables.pkl"}
            for k in jobs:
                if k is not j and not k["publish"] and same_store(j, k) and k["runs"] >= j["runs"]:
                    new = alone([(k, False, k["seed"]), (j, True, j["seed"])])
                    if new is None:
                        o.counters["could not be run alone"] += 1
                        return
                    o.counters["publishing while solving"] += 1
                    for n in mine:
                        mine[n].add(new[n])
            if any(k is not j and not k["publish"] and same_store(j, k) and k["runs"] < j["runs"] for k in jobs) \
                    or any(same_store(j, k) and k["runs"] < j["runs"] for k in stores):
                o.counters["asks for runs that are not there"] += 1
                return
        else:
            got = alone([(j, None, j["seed"])])
            if got is None:
                o.counters["could not be run alone"] += 1
                return
            mine = {n: {c} for n, c in got.items()}
        allowed.append(mine)

    # names: other settings, other file
    for a in range(len(jobs)):
        for b in range(a):
            na, nb = (set(allowed[x]) - {"update_tables.pkl"} for x in (a, b))
            if identity(jobs[a]) != identity(jobs[b]) and na & nb:
                o.fail("different experiments, one file", "%s and %s write %s" % (command(jobs[a])[1], command(jobs[b])[1], sorted(na & nb)))
                return
            if identity(jobs[a]) == identity(jobs[b]) and na & nb:
                o.counters["same name"] += 1

    with drivers.scratch() as d:
        drivers.lay_out(d, **worlds)
        for j in stores:
            sim = drivers.Simulation(d, ck)
            sim.add(*command(j, False), services.SimHub(old, CONF, ck, None))
            sim.run()
        before = {n: comparable(b) for n, b in drivers.results(d).items()}
        sim = drivers.Simulation(d, ck, rng=Scheduler(spec["order"], spec["seed"]))
        procs = []
        for i, j in enumerate(jobs):
            faults = {}
            if spec["kill"] and spec["kill"][0] == i:
                faults = {int(spec["kill"][1] * 14): ("kill", 0.4)}
            procs.append(sim.add(*command(j), services.SimHub(j["seed"], CONF, ck, None), faults=faults))
        sim.run()
        raw = drivers.results(d)
    after = {n: comparable(b) for n, b in raw.items()}
    where = " | ".join(" ".join([command(j)[0]] + command(j)[1]) for j in jobs)
    o.counters["process"] += len(jobs)
    o.counters["switch"] += sum(1 for x, y in zip(sim.schedule, sim.schedule[1:]) if x[0] != y[0])
    o.order(tuple(sim.schedule))
    o.nontrivial = True
    o.sim_minutes += (ck.mono - 1000.0) / 60.0
    dead = {i for i, p in enumerate(procs) if p.exit == "killed"}
    if dead:
        o.faults["process killed"] += 1
    o.event("schedule", sim.schedule[:400], [p.exit if isinstance(p.exit, str) else core.describe(p.exit) for p in procs], sorted(after))
    for i, p in enumerate(procs):
        if p.exit not in ("ok", "killed"):
            o.fail("stopped beside another process", "%s: process %d: %s" % (where, i, core.describe(p.exit)))
            return
    names = set(before)
    for i, mine in enumerate(allowed):
        if i not in dead:
            names |= set(mine)
    for n in sorted(names):
        ok = set()
        must = False
        for i, mine in enumerate(allowed):
            if n in mine:
                ok |= mine[n]
                must = must or i not in dead
        if not must and n in before:
            ok.add(before[n])
        o.evaluations += 1
        o.counters["file compared"] += 1
        if after.get(n) not in ok:
            o.fail("file holds something else", "%s: %s %s (order %s)" % (where, n, "is missing" if n not in after else "differs from each process alone", spec["order"]))
            return
    extra = sorted(n for n in after if n not in names and not n.endswith(".tmp") and not any(n in m for m in allowed))
    if extra:
        o.fail("unexpected file", "%s: %s" % (where, extra))
        return
    for i, (j, p) in enumerate(zip(jobs, procs)):
        if i not in dead and not j["publish"]:
            trace(o, where, j, p, i, jobs, allowed, raw)
            if o.violations:
                return


def names_differ(o, jobs, alone):
    """Other settings, other file, for experiments that differ in one setting each."""
    wrote = []
    for j in jobs:
        if j["publish"] and not j["lp"]:
            got, before = alone([(j, False, j["seed"]), (j, True, j["seed"])]), alone([(j, False, j["seed"])])
        else:
            got, before = alone([(j, None, j["seed"])]), {}
        if got is None or before is None:
            o.counters["could not be run alone"] += 1
            wrote.append(set())
            continue
        wrote.append(set(got) - set(before) - {"update_tables.pkl"})
    o.event("names", [sorted(w) for w in wrote])
    o.order("names", tuple(sorted(map(str, map(identity, jobs)))))
    o.nontrivial = True
    for a in range(len(jobs)):
        for b in range(a):
            o.evaluations += 1
            o.counters["names compared"] += 1
            if identity(jobs[a]) != identity(jobs[b]) and wrote[a] & wrote[b]:
                o.fail("different experiments, one file", "%s and %s write %s" % (command(jobs[a])[1], command(jobs[b])[1], sorted(wrote[a] & wrote[b])))
                return


def trace(o, where, j, p, i, jobs, allowed, raw):
    """Each record is the answer to the request of its own run or instance."""
    for n in allowed[i]:
        if n == "update_tables.pkl":
            continue
        if sum(n in m for m in allowed) > 1:
            continue          # may hold the other's result; compared as a whole above
        data = drivers.load(raw[n])
        calls = p.hub.calls
        if j["kind"] == "real":
            if sorted(data) != list(range(1, j["runs"] + 1)):
                o.fail("number of runs", "%s: %s has %s instead of %d runs" % (where, n, sorted(data), j["runs"]))
                return
            recs = [(k, data[k], calls[k - 1]) for k in sorted(data)]
        elif j["kind"] == "wisla":
            recs = [("", data, calls[0])]
        else:
            if data.get("case") != 3 or data.get("samples") != 12 or data.get("method") != (j["solver"] if j["lp"] else ""):
                o.fail("heading of the series", "%s: %s: %s" % (where, n, {k: data.get(k) for k in ("case", "samples", "method")}))
                return
            recs = [(k, data.get(k, {}), calls[k]) for k in range(12)]
        for k, rec, call in recs:
            o.evaluations += 1
            o.counters["record traced"] += 1
            if j["kind"] == "ko" and j["lp"]:
                if "objective" in rec:
                    m = call["model"]
                    want = (sum(a * x for a, x in zip(m.obj, call["x"])) + m.obj0) * data["d_max"]
                    if abs(float(rec["objective"]) - want) > 1e-6:
                        o.fail("record of another instance", "%s: %s, %s: %s instead of %s" % (where, n, k, rec["objective"], want))
                        return
                continue
            if rec.get("info", {}).get("token") != call["token"]:
                o.fail("record of another run", "%s: %s, %s: %s instead of %s" % (where, n, k, rec.get("info"), call["token"]))
                return
            if j["kind"] == "ko":
                if rec["broken_constraints"] != rec["constraints"] - rec["feas_constraints"][1]:
                    o.fail("broken constraints", "%s: %s, %s: %s" % (where, n, k, rec["broken_constraints"]))
                    return


def shrink(spec):
    if spec.get("names"):
        for i in range(len(spec["jobs"])):
            if len(spec["jobs"]) > 2:
                yield dict(spec, jobs=spec["jobs"][:i] + spec["jobs"][i + 1:])
        return
    if spec["kill"]:
        yield dict(spec, kill=None)
    if len(spec["jobs"]) > 2:
        for i in range(len(spec["jobs"])):
            yield dict(spec, jobs=spec["jobs"][:i] + spec["jobs"][i + 1:], kill=None)
    if spec["order"] != "serial":
        yield dict(spec, order="serial")
    for i, j in enumerate(spec["jobs"]):
        for f, v in (("runs", 1), ("penalty", 1.0), ("min_t", 5), ("limit", 0)):
            if j[f] != v:
                yield dict(spec, jobs=spec["jobs"][:i] + [dict(j, **{f: v})] + spec["jobs"][i + 1:])
