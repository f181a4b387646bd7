"""Injected delays: sequences on prepared timetables, and the disturbances of the shipped experiments."""
import copy
import os

from .. import clock, core, drivers, model, ref, scenarios, services, world as W

ID = "C07"
PLAN = {"quick": {"runs": 213, "guard": 700}, "thorough": {"runs": 1800, "guard": 860}}
NEEDS = {"injection": 3, "number contained in another": 0.5, "repeated injection": 0.3, "experiment": 13 / 1800.0 / 2, "instance of an experiment": 40 / 1800.0 / 2}
RULE = "one interleaving = order of the injected delays by train, with repetitions"
COMPONENTS = {
    "real": ["data_formatting (preparation and injection)", "helpers.py", "solve_real_problem.py and solve_KO_GLC_problems.py up to the problem",
             "railway_solvers earliest departures"],
    "simulated": ["railways, timetables and disturbances", "for the shipped experiments: railways with the train numbers of the shipped files"],
}
ASSUMPTIONS = ["the shipped experiments are run on simple railways that have exactly the train numbers of the shipped timetable files"]

# run indices of the shipped experiments; slow ones first
EXPERIMENTS = [("solve_KO_GLC_problems.py", c) for c in (1, 2, 3)] + [("solve_real_problem.py", c) for c in range(10)]
SHIPPED_OF = {("solve_KO_GLC_problems.py", c): "KO_GLC_%d" % c for c in (1, 2, 3)}
for _c in range(10):
    SHIPPED_OF["solve_real_problem.py", _c] = "A" if _c < 4 else "Gt" if _c < 6 else "1track" if _c == 6 else "1track_Gt"


def gen(rng, index, tier):
    if index < len(EXPERIMENTS):
        return {"kind": "experiment", "script": EXPERIMENTS[index][0], "case": EXPERIMENTS[index][1]}
    w = drivers.small(rng, rng.choice([3, 4, 5]), n_stations=rng.choice([2, 3, 4]), numbers=rng.choice(["related", "related", "plain", "big"]),
                      p_first_dep=rng.choice([0.4, 1.0]))
    w["tref"] = rng.choice(["16:00", "14:00", "15:37"])
    nos = [t["no"] for t in w["trains"]]
    steps = [[rng.choice(nos), rng.choice([0, 1, 2, 5, 12, 12.5, 30, 90])] for _ in range(rng.choice([1, 2, 3, 5, 8]))]
    return {"kind": "sequence", "world": w, "steps": steps, "perm": rng.randrange(1 << 30)}


def execute(spec, o):
    if spec["kind"] == "experiment":
        experiment(spec, o)
    else:
        sequence(spec, o)


# -- sequences ------------------------------------------------------------------------

def injectors(df):
    """The function the scripts use, and its namesakes in the modules of the package."""
    import importlib
    out = [("add_delay", df.add_delay)]
    for m in ("utils", "scheduling_tools"):
        f = getattr(importlib.import_module("data_formatting.data_formatting." + m), "add_delay", None)
        if f is not None and all(f is not g for _, g in out):
            out.append((m + ".add_delay", f))
    return out


def sequence(spec, o):
    w = spec["world"]
    try:
        p = model.Prepared(w, 0)
    except Exception as e:
        if not core.from_repo(e):
            raise
        o.counters["could not be prepared (C06)"] += 1
        o.event("preparation", core.describe(e))
        return
    rail = ref.Rail(w)
    from railway_solvers.railway_solvers import earliest_dep_time
    start = p.timetable["initial_conditions"]
    first = {no: "%s_%s" % (no, T.path[0]) for no, T in rail.trains.items()}
    o.order(tuple(no for no, _ in spec["steps"]))
    for name, inject in injectors(p.df):
        want = dict(start)
        now = start
        dist = {}
        for k, (no, d) in enumerate(spec["steps"]):
            given = now
            snapshot = copy.deepcopy(dict(given))
            with core.quiet():
                now = inject(given, no, d)
            o.evaluations += 1
            o.nontrivial = True
            o.counters["injection"] += 1
            o.faults["delay"] += 1
            if no in dist:
                o.counters["repeated injection"] += 1
            if any(x != no and str(no) in str(x) for x in rail.trains):
                o.counters["number contained in another"] += 1
            dist[no] = dist.get(no, 0) + d
            want[first[no]] = want[first[no]] + d
            if dict(given) != snapshot:
                o.fail("given timetable changed", "%s: step %d, train %s +%s" % (name, k, no, d))
                return
            if {k: float(v) for k, v in now.items()} != {k: float(v) for k, v in want.items()}:
                wrong = sorted(x for x in set(now) | set(want) if now.get(x) != want.get(x))
                o.fail("wrong train", "%s: step %d, train %s +%s: %s" % (name, k, no, d, [(x, snapshot.get(x), now.get(x)) for x in wrong]))
                return
        # other order
        steps = list(spec["steps"])
        core.rng_for("perm", spec["perm"]).shuffle(steps)
        other = start
        with core.quiet():
            for no, d in steps:
                other = inject(other, no, d)
        if {k: float(v) for k, v in other.items()} != {k: float(v) for k, v in now.items()}:
            o.fail("order of injections matters", "%s: %s and %s" % (name, spec["steps"], steps))
            return
        # what the trains do
        tt = dict(p.timetable, initial_conditions=now)
        E = rail.earliest(dist)
        for (no, s), t in sorted(E.items(), key=str):
            got = float(earliest_dep_time(p.train_set["Paths"], tt, no, s))
            o.evaluations += 1
            if abs(got - t) > 1e-6:
                o.fail("earliest departures", "%s: %s at %s: %s instead of %s after %s" % (name, no, s, got, t, spec["steps"]))
                return
        o.sim_minutes += max([E[k] for k in E] or [0])
    o.event("sequence", spec["steps"], sorted(now.items()))


# -- shipped experiments ----------------------------------------------------------------

MARKS = {f: 8801 + 10 * k for k, f in enumerate(sorted(set(scenarios.FILE.values())))}     # train that only this file has


def later(t, minutes):
    return "%s:%02d" % (t[:2], int(t[3:]) + minutes)


def simple_lines(numbers, tref):
    """One line with two stations per train, the k-th starts k % 7 minutes after tref; the stock of a pair n, n9 stays together."""
    w = {"stations": [], "net": [['"end", "X", 0, "(N/A)"', '"end", "X", 1, "(N/A)"', "1,2,3", 1.0, 1.0, 1.0, 1.0]], "trains": [], "tref": tref}
    numbers = list(dict.fromkeys(numbers))
    for k, n in enumerate(x for x in numbers if not (x % 10 == 9 and x // 10 in numbers)):
        a, b = '"A%d", "ST", 1, "(1)"' % k, '"B%d", "ST", 1, "(1)"' % k
        m = '"A%d-B%d", "SBL", 1, "1", "(1)"' % (k, k)
        c, m2 = '"C%d", "ST", 1, "(1)"' % k, '"B%d-C%d", "SBL", 1, "1", "(1)"' % (k, k)
        w["stations"] += [["A%d" % k, [a]], ["B%d" % k, [b]]] + ([["C%d" % k, [c]]] if n * 10 + 9 in numbers else [])
        w["net"] += [[x, y, 1, 1.0, 1.0, 1.0, 1.0] for x, y in ((a, m), (m, b), (b, m2), (m2, c))]
        for no, blocks in ((n, (a, m, b)), (n * 10 + 9, (b, m2, c))):
            if no in numbers:
                w["trains"].append(dict(no=no, type="KS - Os", name="x", frm="from A", to="to B", rows=[
                    [x, "R", None, later(tref, k % 7) if i == 0 else None, None, 2 if i == 0 and no != n else None] for i, x in enumerate(blocks)]))
    return w


def experiment(spec, o):
    script, case = spec["script"], spec["case"]
    shipped = W.resolve({"shipped": SHIPPED_OF[script, case], "tref": "16:00"}, core.REPO)
    numbers = list(dict.fromkeys(t["no"] for t in shipped["trains"]))
    trains = numbers + [MARKS[scenarios.FILE[script, case]]]
    start = "14:00" if "KO" in script else "16:00"
    w = simple_lines(numbers + list(MARKS.values()), start)
    entry = {t["no"]: (int(t["rows"][0][3][3:]) if t["rows"][0][3] else 0) for t in w["trains"]}
    calls, solved = [], []

    def watch(name, module):
        if name == "railway_solvers.railway_solvers" and hasattr(module, "create_linear_problem"):
            create = module.create_linear_problem

            def create_linear_problem(train_set, timetable, d_max, *a, **k):
                solved.append((sorted(train_set["J"]), {tuple(k.split("_", 1)): float(v) for k, v in timetable["initial_conditions"].items()}, float(d_max)))
                return create(train_set, timetable, d_max, *a, **k)
            module.create_linear_problem = create_linear_problem
        if name == "data_formatting.data_formatting" and hasattr(module, "add_delay"):
            real = module.add_delay

            def add_delay(initial_conditions, train, delay):
                out = real(initial_conditions, train, delay)
                calls.append((train, delay, dict(initial_conditions), dict(out)))
                return out
            module.add_delay = add_delay

    ck = clock.SimClock()
    with drivers.scratch() as d:
        drivers.lay_out(d, real=w, real1=w, ko=w, everywhere=True)
        for f, n in MARKS.items():
            own = dict(w, trains=[t for t in w["trains"] if t["no"] == n or t["no"] not in MARKS.values()])
            with open(os.path.join(d, f), "w", encoding="utf-8") as file:
                file.write(W.csv_text(W.csv_rows(own)))
        sim = drivers.Simulation(d, ck)
        sim.loaded = watch
        p = sim.add(script, ["--case", str(case)], services.SimHub(1, {}, ck, None))
        sim.run()
    where = "%s case %s" % (script, case)
    o.event(where, p.exit if isinstance(p.exit, str) else core.describe(p.exit), [(t, x) for t, x, _, _ in calls])
    o.counters["experiment"] += 1
    o.nontrivial = True
    o.order(where)
    known = core.known_findings()
    if p.exit != "ok":
        o.fail("experiment stops", "%s: %s" % (where, core.describe(p.exit)))
        return
    for train, delay, before, after in calls:
        o.evaluations += 1
        o.faults["delay of a shipped experiment"] += 1
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if train not in trains:
            key = "%s-case%s-%s" % (script.split(".")[0], case, train)
            if (ID, key) in known and not changed:
                o.finding(key, "%s delays train %s, which the timetable does not have" % (where, train))
                continue
            o.fail("unknown train delayed", "%s: train %s +%s, changed %s" % (where, train, delay, changed))
            return
        if delay and [k.rsplit("_", 1)[0] for k in changed] != [str(train)]:
            o.fail("wrong train", "%s: train %s +%s, changed %s" % (where, train, delay, changed))
            return
    wanted = scenarios.instances(script, case, trains)
    if solved and len(solved) != len(wanted):
        o.fail("instances", "%s: %d instead of %d" % (where, len(solved), len(wanted)))
        return
    for k, (got, want) in enumerate(zip(solved, wanted)):
        o.evaluations += 1
        o.counters["instance of an experiment"] += 1
        if sorted(set(got[0])) != sorted(trains):
            o.fail("trains of another experiment", "%s instance %d: without %s, with %s" % (
                where, k, sorted(set(trains) - set(got[0])), sorted(set(got[0]) - set(trains))))
            return
        if got[2] != 40:
            o.fail("delay limit", "%s instance %d: %s" % (where, k, got[2]))
            return
        for (no, s), t in got[1].items():
            if t != entry[int(no)] + want.get(int(no), 0):
                o.fail("delay of an instance", "%s instance %d: train %s enters at %s instead of %s + %s" % (
                    where, k, no, t, entry[int(no)], want.get(int(no), 0)))
                return
        lost = [n for n in want if want[n] and n in trains and str(n) not in {no for no, _ in got[1]}]
        if lost:
            o.fail("delay of an instance", "%s instance %d: trains %s have no entry" % (where, k, lost))
            return


def shrink(spec):
    if spec["kind"] != "sequence":
        return
    for i in range(len(spec["steps"])):
        yield dict(spec, steps=spec["steps"][:i] + spec["steps"][i + 1:])
    named = {no for no, _ in spec["steps"]}
    t = spec["world"]["trains"]
    for i in range(len(t)):
        if t[i]["no"] not in named:
            yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
