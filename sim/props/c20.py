"""The Wisla experiment: traffic on its single line against the problem its script builds."""
from .. import clock, core, drivers, model, services

ID = "C20"
PLAN = {"quick": {"runs": 200, "guard": 600}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"safe histories": 3, "unsafe by headway alone": 1.5, "unsafe by opposing alone": 0.7, "unsafe by causal alone": 1.5,
         "plans proposed by the problem": 3, "at the headway": 1, "at the clearing of the line": 0.5}
RULE = "one interleaving = the total order of all departures and arrivals of the six trains (simultaneous events grouped)"
COMPONENTS = {
    "real": ["wisla_problems.py with everything it imports from the repository"],
    "simulated": ["trains and dispatchers on the line 1-3-5-10", "external LP solver and quantum services under the script", "PuLP, dimod, pyqubo (sim/stubs)",
                  "clock", "file system operations (real files in a scratch directory)"],
}
ASSUMPTIONS = ["running times, headway, stops, turnaround, starting times and delay limit of the line as declared in the script (written out in the check)",
               "occupation of station tracks and switches is not part of this experiment"]

# the line, as declared
STATIONS = [1, 3, 5, 10]
RUN = {"Ks": {(1, 3): 4, (3, 5): 6, (5, 10): 6}, "Ic": {(1, 3): 4, (3, 5): 4, (5, 10): 5}}
START = {"Ks1": 0, "Ic1": 30, "Ks2": 40, "Ks3": 60, "Ic2": 95, "Ks4": 100}
OUT, BACK = ("Ks1", "Ks3", "Ic1"), ("Ks2", "Ks4", "Ic2")
HEADWAY, STOP, TURN, LIMIT = 2, 1, 20, 10
FOUND = {"Ks4": "wisla-Ks4"}


def path(no):
    return STATIONS if no in OUT else STATIONS[::-1]


def run(no, a, b):
    return RUN[no[:2]][min(a, b), max(a, b)]


def earliest():
    E = {}
    for no, t in START.items():
        p = path(no)
        for k, s in enumerate(p[:-1]):
            if k:
                t += run(no, p[k - 1], s) + STOP
            E[no, s] = t
    return E


E0 = earliest()


def judge(dep):
    """Rules broken by a history: list of (family, text)."""
    bad = []
    for no in START:
        p = path(no)
        for k, s in enumerate(p[:-1]):
            d = dep[no, s] - E0[no, s]
            if d < -1e-6:
                bad.append(("causal", "%s leaves %s before its earliest time" % (no, s)))
            if d > LIMIT + 1e-6:
                bad.append(("limit", "%s leaves %s %g min late" % (no, s, d)))
            if k and dep[no, s] - dep[no, p[k - 1]] < run(no, p[k - 1], s) + STOP - 1e-6:
                bad.append(("causal", "%s leaves %s too early after %s" % (no, s, p[k - 1])))
    if dep["Ic2", 10] - dep["Ic1", 5] < run("Ic1", 5, 10) + TURN - 1e-6:
        bad.append(("turnover", "Ic2 leaves before the stock of Ic1 is ready"))
    for a, b in zip(STATIONS, STATIONS[1:]):
        for group, s in ((OUT, a), (BACK, b)):
            for i, x in enumerate(group):
                for y in group[:i]:
                    if abs(dep[x, s] - dep[y, s]) < HEADWAY - 1e-6:
                        bad.append(("headway", "%s and %s leave %s towards %s at %g and %g"
                                    % (x, y, s, b if s == a else a, dep[x, s], dep[y, s])))
        for x in OUT:
            for y in BACK:
                if (x, y) != ("Ic1", "Ic2") and dep[x, a] + run(x, a, b) > dep[y, b] + 1e-6 and dep[y, b] + run(y, a, b) > dep[x, a] + 1e-6:
                    bad.append(("opposing", "%s from %s at %g and %s from %s at %g" % (x, a, dep[x, a], y, b, dep[y, b])))
    return bad


def order_of(dep):
    ev = []
    for (no, s), t in dep.items():
        p = path(no)
        n = p[p.index(s) + 1]
        ev += [(round(t, 4), "d", no, s), (round(t + run(no, s, n), 4), "a", no, n)]
    ev.sort()
    out, last = [], None
    for e in ev:
        if e[0] != last:
            out.append([])
        out[-1].append(e[1:])
        last = e[0]
    return out


def gen(rng, index, tier):
    return {"seed": rng.randrange(1 << 30), "histories": 20, "points": 8,
            "how": rng.choice(["lp", "lp", "lp", "sim", "cqm", "bqm"]),
            "conf": {"kinds": ["opt", "feas", "rand"], "rows": 2, "faults": rng.choice([{}, {"limit_plan": 0.7}])}}


def dispatch(rng):
    """Trains as processes: each asks for its next line when ready and waits until the line is free for it."""
    dep, at = {}, {no: 0 for no in START}
    hold = {no: rng.choice([0, 0, 1, 2, 4, 10]) for no in START}
    ready = {no: START[no] for no in START}
    rank = {no: rng.random() for no in START}
    while ready:
        for no in list(ready):
            if hold[no] and rng.random() < 0.3:
                w = rng.randint(1, hold[no])
                hold[no] -= w
                ready[no] += w
        no = min(ready, key=lambda n: (ready[n], rank[n]))
        p = path(no)
        s, n = p[at[no]], p[at[no] + 1]
        t = ready[no]
        for (x, q), u in dep.items():
            px = path(x)
            nx = px[px.index(q) + 1]
            if (q, nx) == (s, n) and u <= t < u + HEADWAY:
                t = u + HEADWAY
            elif (q, nx) == (n, s) and u <= t < u + run(x, q, nx):
                t = u + run(x, q, nx)
        if no == "Ic2" and s == 10 and ("Ic1", 5) in dep:
            t = max(t, dep["Ic1", 5] + run("Ic1", 5, 10) + TURN)
        if t > ready[no]:
            ready[no] = t
            continue
        dep[no, s] = float(t)
        at[no] += 1
        if at[no] == len(p) - 1:
            del ready[no]
        else:
            ready[no] = t + run(no, s, n) + STOP
    return dep


def history(rng):
    """Dispatched traffic, then one thing moved; returns (departures, what was aimed at)."""
    aim = rng.choice(["none", "follow", "follow", "meet", "meet", "early"])
    want = {"follow": "headway", "meet": "opposing"}.get(aim)
    for _ in range(40):
        dep = dispatch(rng)
        if aim == "follow":
            x, y = rng.choice([("Ks4", "Ic2"), ("Ic2", "Ks4"), ("Ks2", "Ic2"), ("Ks1", "Ic1")])
            s = rng.choice(path(x)[:-1])
            shift(dep, x, s, dep[y, s] + rng.choice([-2, -1, 0, 1, 2]))
        elif aim == "meet":
            a, b = rng.choice(list(zip(STATIONS, STATIONS[1:])))
            x, y = rng.choice([("Ic1", "Ks2"), ("Ic1", "Ks2"), ("Ks3", "Ic2"), ("Ks1", "Ks2")])
            if rng.random() < 0.5:
                shift(dep, y, b, dep[x, a] + run(x, a, b) + rng.choice([-2, -1, 0]))
            else:
                shift(dep, x, a, dep[y, b] + run(y, a, b) + rng.choice([-2, -1, 0]))
        elif aim == "early":
            no = rng.choice(sorted(START))
            s = rng.choice(path(no)[:-1])
            dep[no, s] -= rng.choice([1, 1, 2])
        if want is None or {f for f, _ in judge(dep)} <= {want}:
            break
    return dep, aim


def shift(dep, no, s, t):
    """Let a train leave a station at a given time; the rest of its run follows, what lies before stays possible."""
    p = path(no)
    k = p.index(s)
    dep[no, s] = float(t)
    for i in range(k + 1, len(p) - 1):
        dep[no, p[i]] = max(dep[no, p[i]], dep[no, p[i - 1]] + run(no, p[i - 1], p[i]) + STOP)
    for i in range(k - 1, -1, -1):
        dep[no, p[i]] = min(dep[no, p[i]], dep[no, p[i + 1]] - run(no, p[i], p[i + 1]) - STOP)


def execute(spec, o):
    ck = clock.SimClock()
    a = ["--solve_lp", "PULP_CBC_CMD"] if spec["how"] == "lp" else ["--solve_quantum", spec["how"]]
    with drivers.scratch() as d:
        drivers.lay_out(d)
        sim = drivers.Simulation(d, ck)
        hub = services.SimHub(spec["seed"], spec["conf"], ck, None)
        p = sim.add("wisla_problems.py", a, hub)
        sim.run()
    if p.exit != "ok" or not p.problems:
        o.fail("script stopped", core.describe(p.exit) if p.exit != "ok" else "no problem was built")
        return
    m = p.model()
    at = {v.name: i for i, v in enumerate(m.vars)}
    var = {}
    for no, s in E0:
        n = model.var_name(no, s)
        if n not in at:
            o.fail("departure not decided", "no variable for the departure of %s from %s" % (no, s))
            return
        var[no, s] = at[n]
    weights = {no: sum(m.obj[i] for (n, s), i in var.items() if n == no) for no in START}
    for no, w in sorted(weights.items()):
        o.evaluations += 1
        if w > 1e-9:
            continue
        detail = "delays of %s do not count in the objective" % no
        if no in FOUND:
            o.finding(FOUND[no], detail)
        else:
            o.fail("delay without weight", detail)
            return
    rng = core.rng_for("wisla", spec["seed"])
    for _ in range(spec["histories"]):
        dep, aim = history(rng)
        compare(o, m, var, dep, aim)
        if o.violations:
            return
    bins = [i for i in range(len(m.vars)) if m.isbin[i]]
    for _ in range(spec["points"]):
        lo, hi = list(m.lo), list(m.hi)
        rate = rng.choice([0.05, 0.15, 0.3])
        for i in sorted(var.values()):
            if rng.random() < rate:
                lo[i] = min(hi[i], lo[i] + rng.choice([1, 2, 4, 5, 6]))
        if not m.propagate(lo, hi, range(len(m.cons))):
            o.counters["points infeasible"] += 1
            continue
        rng.shuffle(bins)
        for i in bins:
            if hi[i] - lo[i] < 0.5:
                continue
            v = float(rng.random() < 0.5)
            for val in (v, 1.0 - v):
                l2, h2 = list(lo), list(hi)
                l2[i] = h2[i] = val
                if m.propagate(l2, h2, list(m.watch[i])):
                    lo, hi = l2, h2
                    break
        status, x, _, _ = m.solve(lo, hi, first=True, node_limit=2000)
        if x is None:
            o.counters["points infeasible"] += 1
            continue
        plan = {k: E0[k] + x[i] for k, i in var.items()}
        bad = judge(plan)
        o.evaluations += 1
        o.nontrivial = True
        o.counters["plans proposed by the problem"] += 1
        o.order(order_of(plan))
        o.event("plan", sorted(plan.items()), [f for f, _ in bad])
        if bad:
            o.fail("unsafe plan: " + bad[0][0], "%s; %s" % (bad[0][1], sorted(plan.items())))
            return


def compare(o, m, var, dep, aim):
    bad = judge(dep)
    lo, hi = list(m.lo), list(m.hi)
    inside = True
    for k, i in var.items():
        v = dep[k] - E0[k]
        if v < lo[i] - 1e-9 or v > hi[i] + 1e-9:
            inside = False
        lo[i] = hi[i] = v
    accepted = inside and m.solve(lo, hi, first=True, node_limit=5000)[1] is not None
    o.evaluations += 1
    o.nontrivial = True
    o.sim_minutes += max(dep.values()) - min(dep.values())
    o.order(order_of(dep))
    o.event("history", sorted(dep.items()), accepted, [f for f, _ in bad])
    fams = {f for f, _ in bad}
    if not bad:
        o.counters["safe histories"] += 1
        if any(abs(abs(dep[x, s] - dep[y, s]) - HEADWAY) < 1e-6 for x, y in (("Ks4", "Ic2"),) for s in (10, 5, 3)):
            o.counters["at the headway"] += 1
        if any(abs(dep["Ic1", a] + run("Ic1", a, b) - dep["Ks2", b]) < 1e-6 or abs(dep["Ks2", b] + run("Ks2", a, b) - dep["Ic1", a]) < 1e-6
               for a, b in zip(STATIONS, STATIONS[1:])):
            o.counters["at the clearing of the line"] += 1
        if not accepted:
            o.fail("safe traffic refused", "aimed at %s; %s" % (aim, sorted(dep.items())))
        return
    o.counters["unsafe histories"] += 1
    if len(fams) == 1:
        o.counters["unsafe by %s alone" % list(fams)[0]] += 1
    for f in sorted(fams):
        o.faults["traffic breaks a rule: " + f] += 1
    if accepted:
        o.fail("unsafe traffic accepted: " + bad[0][0], "%s; %s" % (bad[0][1], sorted(dep.items())))


def shrink(spec):
    if spec["how"] != "lp":
        yield dict(spec, how="lp")
    if spec["conf"]["faults"]:
        yield dict(spec, conf=dict(spec["conf"], faults={}))
    if spec["points"]:
        yield dict(spec, points=0)
    if spec["histories"]:
        yield dict(spec, histories=spec["histories"] // 2)
        yield dict(spec, histories=spec["histories"] - 1)
