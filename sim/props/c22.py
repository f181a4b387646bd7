"""Plots of series of experiments, drawn while one of the series is recorded again."""
import math
import os
import pickle

from .. import clock, core, drivers, services

ID = "C22"
PLAN = {"quick": {"runs": 80, "guard": 700}, "thorough": {"runs": 640, "guard": 860}}
NEEDS = {"comparison drawn": 0.2, "sweep drawn": 0.1, "instance without a plan": 0.2, "recorded meanwhile": 0.2, "infeasible answer marked": 0.5}
RULE = "one interleaving = plot, order of the operations of the recording and the drawing process, who was killed where, which instances had a plan"
COMPONENTS = {
    "real": ["results_KO_GLC/fast_plot.py, fast_plot_lim.py", "solutions_quantum/tmin_plot.py, tmin_plot_rev.py",
             "solve_KO_GLC_problems.py and solve_real_problem.py with everything they import from the repository", "pandas, numpy"],
    "simulated": ["solvers and services", "processes and their interleaving, kills", "file system operations (real files in a scratch directory)",
                  "matplotlib (keeps what is drawn)"],
}
ASSUMPTIONS = ["time and objective of CPLEX in the sweeps are the constants first published",
               "files of the first two lines are copies of recorded files of the third one"]

KO = "results_KO_GLC/"
SQ = "solutions_quantum/"
TMINS = [5, 6, 7, 10, 15, 20, 25, 30, 40, 60]
TIMES = [5, 20]


def gen(rng, index, tier):
    tool = rng.choice(["fast_plot", "fast_plot_lim", "tmin_plot", "tmin_plot_rev"])
    spec = {"tool": tool, "seed": rng.randrange(1 << 30), "race": rng.choice(["none", "record", "record", "kill"]), "again": rng.choice(["cqm", "lp", "lim"])}
    if tool.startswith("fast"):
        spec["ko"] = drivers.ko_world(rng)
        spec["kinds"] = rng.choice([["opt", "feas"], ["opt", "feas", "rand"], ["rand"]])
        spec["faults"] = rng.choice([{}, {"limit_plan": 0.3}, {"limit_none": 0.2}, {"limit_plan": 0.2, "limit_none": 0.2}])
    else:
        # a pair n, n9 keeps the second world's numbers apart from the first's
        spec["real"] = drivers.small(rng, 2)
        spec["real1"] = drivers.merge([drivers.small(rng, 2, p_special=0.0, p_pair9=0.0, n_stations=2, numbers="plain")], [501, 702, 803, 904], "16:00")
        spec["kinds"] = rng.choice([["opt", "feas"], ["opt", "feas"], ["opt", "feas", "rand"]])
        spec["runs"] = rng.choice([1, 2, 4])
    return spec


def hub(spec, n, ck):
    return services.SimHub(spec["seed"] + n, {"kinds": spec["kinds"], "rows": 2, "p_noise": 0.0, "faults": spec.get("faults", {}) if n >= 50 else {}}, ck, None)


def process(d, ck, *a):
    sim = drivers.Simulation(d, ck)
    p = sim.add(*a)
    sim.run()
    return p


def execute(spec, o):
    ck = clock.SimClock()
    with drivers.scratch() as d:
        drivers.lay_out(d, **{k: spec[k] for k in ("ko", "real", "real1") if k in spec})
        (series if "ko" in spec else sweep)(spec, o, d, ck)


def write(d, name, data):
    with open(os.path.join(d, name), "wb") as f:
        f.write(data)


def read(d, name):
    with open(os.path.join(d, name), "rb") as f:
        return f.read()


def draw(spec, o, d, ck, where, script, again):
    """The plotting script, perhaps beside another run of an experiment; returns its process."""
    rng = core.rng_for("plot", spec["seed"])
    sim = drivers.Simulation(d, ck, rng)
    p = sim.add(script, [], hub(spec, 0, ck))
    p.cwd = os.path.dirname(script)
    if spec["race"] != "none":
        faults = {rng.randint(1, 14): ("kill", rng.choice([0.0, 0.5, 1.0]))} if spec["race"] == "kill" else {}
        other = sim.add(*again, faults)
        o.counters["recorded meanwhile"] += 1
    sim.run()
    if spec["race"] != "none" and other.exit == "killed":
        o.faults["recording process killed"] += 1
    o.order(spec["tool"], tuple(sim.schedule))
    o.event("figures", [(n, [lines(x) for x in ax]) for n, ax in p.figures], p.exit if isinstance(p.exit, str) else core.describe(p.exit))
    o.evaluations += 1
    o.nontrivial = True
    o.sim_minutes += (ck.mono - 1000.0) / 60.0
    return p


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = list(a), list(b)
    return len(a) == len(b) and all((x != x and y != y) or abs(x - y) <= 1e-6 * max(1.0, abs(y)) if not isinstance(x, str) else x == y for x, y in zip(a, b))


def lines(calls):
    """(x, y, colours or None, label) of the series drawn on one of the axes."""
    out = []
    for name, a, k in calls:
        if name in ("plot", "scatter", "errorbar") and len(a) >= 2:
            c = k.get("c") if name == "scatter" else None
            out.append(([float(v) for v in a[0]], [float(v) for v in a[1]], None if c is None or isinstance(c, str) else list(c), str(k.get("label", ""))))
    return out


def missing(axes, wanted):
    """First wanted series that is not drawn, or None; wanted: (axis, x, y, colours, words the label has or has not)."""
    left = [lines(x) for x in axes]
    for axis, x, y, c, words in wanted:
        if axis >= len(left):
            return axis, x, y, c, words
        for got in left[axis]:
            if same(got[0], x) and same(got[1], y) and (c is None or (got[2] is not None and same(got[2], c))) and all((w in got[3]) == yes for w, yes in words):
                left[axis].remove(got)
                break
        else:
            return axis, x, y, c, words
    return None


def judge(o, where, p, name, versions):
    """The figure shows one of the versions of the files."""
    figs = [ax for n, ax in p.figures if n == name]
    if len(figs) != 1:
        o.fail("no figure", "%s: %d figures %s; %s" % (where, len(figs), name, p.exit if isinstance(p.exit, str) else core.describe(p.exit)))
        return False
    gaps = [missing(figs[0], w) for w in versions]
    if all(g is not None for g in gaps):
        o.fail("not what was recorded", "%s: %s, axis %d lacks x %s, y %s, colours %s, label with %s" % ((where, name) + tuple(gaps[0])))
        return False
    return True


# -- series of the three lines ---------------------------------------------------------------

def arguments(kind, t=5):
    if kind == "cqm":
        return ["--case", "3", "--solve_quantum", "cqm", "--min_t", str(t)]
    return ["--case", "3", "--solve_lp", "CPLEX_CMD"] + (["--time_limit", "5"] if kind == "lim" else [])


FORMS = [KO + n for n in ("results5__cqm_%d_Integer.pkl", "results20__cqm_%d_Integer.pkl", "results_CPLEX_CMD__%d_Integer.pkl",
                          "results_CPLEX_CMD_ilp_t_lim5.0__%d_Integer.pkl")]


def turned(data, by):
    """File of another series: the records of this one, turned round."""
    s = pickle.loads(data)
    return pickle.dumps({**s, **{(i + by) % 12: s[i] for i in range(12)}} if all(i in s for i in range(12)) else s)


def series(spec, o, d, ck):
    script = "solve_KO_GLC_problems.py"
    rng = core.rng_for("copies", spec["seed"])
    for kind, n in (("cqm", 1), (rng.choice(["lp", "lim"]), 51)):
        p = process(d, ck, script, arguments(kind), hub(spec, n, ck))
        if p.exit != "ok":
            o.counters["series stopped (C13, C17)"] += 1
            return
    made = drivers.results(d)
    q, lp = [[v for n, v in made.items() if n in names] for names in ([FORMS[0] % 3], [f % 3 for f in FORMS[2:]])]
    if not q or not lp:
        o.fail("series not found", "files %s" % sorted(made))
        return
    for case in (1, 2, 3):
        for form in FORMS:
            if form % case not in made:
                write(d, form % case, turned((q if "cqm" in form else lp)[0], rng.randrange(1, 12)))
    first = drivers.results(d)
    k = {"cqm": 0, "lp": 2, "lim": 3}[spec["again"]]
    again = (script, arguments(spec["again"]), hub(spec, 9 + (50 if k else 0), ck))
    p = draw(spec, o, d, ck, spec["tool"], KO + spec["tool"] + ".py", again)
    second = drivers.results(d)
    where = "%s%s" % (spec["tool"], "" if spec["race"] == "none" else " while %s is recorded again" % (FORMS[k] % 3))
    for case in (1, 2, 3):
        versions = [figure(o, spec["tool"], [drivers.load(f[form % case]) for form in FORMS]) for f in (first, second)]
        if not judge(o, where, p, "CPLEX_CMD_cqm_compt_case%db%s.pdf" % (case, "_lim" if spec["tool"].endswith("lim") else ""), versions):
            return
        o.counters["comparison drawn"] += 1
    if p.exit != "ok":
        o.fail("stopped", "%s: %s" % (where, core.describe(p.exit)))


def value(rec):
    """Objective that was recorded, or the gap of an instance without a plan."""
    return rec["objective"] if rec.get("feasible") and rec.get("objective") is not None else float("nan")


def colours(recs):
    return ["green" if r["feasible"] else "red" for r in recs]


def figure(o, tool, data):
    q, lp, lim = data[:2], data[2], data[3]
    xs = list(range(12))
    out = []
    for t, s in zip(TIMES, q):
        recs = [s[i] for i in xs]
        o.counters["infeasible answer marked"] += sum(not r["feasible"] for r in recs)
        c, word = colours(recs), [(" %d" % t, True)]
        out.append((0, xs, [r["objective"] * s["d_max"] for r in recs], c, word))
        out.append((1, xs, [r["info"]["run_time"] / 1e6 for r in recs], c, word))
        out.append((2, xs, [r["info"]["qpu_access_time"] / 1e6 for r in recs], c, word))
    recs = [lp[i] for i in xs]
    o.counters["instance without a plan"] += sum(not r["feasible"] for r in recs)
    for axis, ys in ((0, [value(r) for r in recs]), (1, [r["comp_time_seconds"] for r in recs])):
        out.append((axis, xs, ys, None, [("CPLEX", True), ("limit", False)]))
        out.append((axis, xs, ys, colours(recs), []))
    if tool.endswith("lim"):
        recs = [lim[i] for i in xs]
        o.counters["instance without a plan"] += sum(not r["feasible"] for r in recs)
        out.append((0, xs, [value(r) for r in recs], None, [("limit", True)]))
        out.append((1, xs, [r["comp_time_seconds"] for r in recs], None, [("limit", True)]))
    return out


# -- sweeps over the time parameter -----------------------------------------------------------

def sweep(spec, o, d, ck):
    script = "solve_real_problem.py"
    rng = core.rng_for("sweep", spec["seed"])
    chosen = rng.sample(TMINS, 2)

    def args(case, t):
        return ["--case", str(case), "--solve_quantum", "cqm", "--min_t", str(t), "--runs", str(spec["runs"])]

    for case in (7, 9):
        for n, t in enumerate(chosen):
            p = process(d, ck, script, args(case, t), hub(spec, 10 * case + n - 70, ck))
            name = SQ + "cqm%d_case%d_Integer.pkl" % (t, case)
            if p.exit != "ok" or name not in drivers.results(d):
                o.counters["not solved (C17)"] += 1
                return
        for t in TMINS:
            if t not in chosen:
                write(d, SQ + "cqm%d_case%d_Integer.pkl" % (t, case), read(d, SQ + "cqm%d_case%d_Integer.pkl" % (rng.choice(chosen), case)))
    first = drivers.results(d)
    case, t = rng.choice([7, 9]), rng.choice(chosen)
    p = draw(spec, o, d, ck, spec["tool"], SQ + spec["tool"] + ".py", (script, args(case, t), hub(spec, 40, ck)))
    second = drivers.results(d)
    where = "%s%s" % (spec["tool"], "" if spec["race"] == "none" else " while t_min %d of case %d is recorded again" % (t, case))
    for case in (7, 9):
        tables = [[drivers.load(f[SQ + "cqm%d_case%d_Integer.pkl" % (t, case)]) for t in TMINS] for f in (first, second)]
        good = [all(r["feasible"] for t in x for r in t.values()) for x in tables]
        name = "cqm_case%d_%s_tmin.pdf" % (case, "R" if spec["tool"].endswith("rev") else "sweep")
        if not all(good):
            # refuses to draw infeasible answers, or has read the feasible version
            o.counters["sweep with an infeasible answer"] += 1
            if not any(good) and any(n == name for n, _ in p.figures):
                o.fail("infeasible answers drawn", "%s: %s" % (where, name))
            return
        if not judge(o, where, p, name, [sweeps(spec["tool"], x, case) for x in tables]):
            return
        o.counters["sweep drawn"] += 1
    if p.exit != "ok":
        o.fail("stopped", "%s: %s" % (where, core.describe(p.exit)))


def mean(v):
    return sum(v) / len(v)


CPLEX = {7: (7.89, 188.75), 9: (6.51, 185.5)}      # seconds, minutes


def sweeps(tool, tables, case):
    obj = [[r["objective"] * 40 for r in t.values()] for t in tables]
    took = [mean([r["info"]["run_time"] / 1e6 for r in t.values()]) for t in tables]
    qpu = [[r["info"]["qpu_access_time"] / 1e6 for r in t.values()] for t in tables]
    x = took if tool.endswith("rev") else TMINS
    ys = [mean(v) for v in obj]
    out = [(0, x, ys, None, [("mean", True)]), (0, x, [min(v) for v in obj], None, [("env", True)]), (0, x, [max(v) for v in obj], None, [])]
    seconds, minutes = CPLEX[case]
    if tool.endswith("rev"):
        out += [(0, [seconds], [minutes], None, [("CPLEX", True)]), (0, TMINS, [minutes] * len(TMINS), None, [("Opt", True)])]
    else:
        out += [(axis, TMINS, [v] * len(TMINS), None, [("CPLEX", True)]) for axis, v in ((0, minutes), (1, seconds))]
    u = [math.log(v) for v in x]
    if len({round(v, 9) for v in u}) > 1:
        a = sum((p - mean(u)) * (q - mean(ys)) for p, q in zip(u, ys)) / sum((p - mean(u)) ** 2 for p in u)
        out.append((0, x, [mean(ys) + a * (p - mean(u)) for p in u], None, [("fit", True)]))
    if not tool.endswith("rev"):
        out += [(1, x, took, None, [("mean", True)]), (2, x, [min(v) for v in qpu], None, []), (2, x, [max(v) for v in qpu], None, [])]
    return out


def shrink(spec):
    if spec["race"] != "none":
        yield dict(spec, race="none")
    if spec.get("faults"):
        yield dict(spec, faults={})
    if spec.get("runs", 1) > 1:
        yield dict(spec, runs=1)
    if spec["kinds"] != ["opt", "feas"]:
        yield dict(spec, kinds=["opt", "feas"])
