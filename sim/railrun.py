"""Simulated traffic against the problem built by the real code (C01-C06).

A spec holds a world and a list of scenarios; each scenario yields one history
of departures (or lets the problem itself propose one).  The monitors of the
reference model judge the history, the problem accepts or rejects it, and the
two verdicts must agree.
"""
import copy

from . import core, model, ref, traffic, world as W

FAMILIES = ("headway", "single", "track", "switch")


# -- generation ---------------------------------------------------------------

def key(m):
    """Name of a meeting that survives the removal of other trains."""
    fam, x = m
    if fam == "headway":
        return [fam, x[0], x[1], x[2]]
    if fam == "single":
        return [fam, x[0], x[2], x[1], x[3]]
    if fam == "track":
        return [fam, x[0], x[1], x[2]]
    return [fam, x[0], x[2], x[4], x[1], x[3]]


def gen_dist(rng, rail, top):
    p = rng.choice([0.0, 0.2, 0.5, 1.0])
    return [[no, rng.randint(0, top)] for no in rail.order if rng.random() < p]


def gen_waits(rng, rail, step, dmax, p):
    out = []
    for no, T in rail.trains.items():
        if rng.random() < p and T.leaves:
            d = rng.choice([step, 1.0, float(dmax), dmax - step, float(rng.randint(0, dmax))])
            out.append([no, rng.choice(T.leaves), d])
    return out


def gen_scenarios(rng, rail, step, n, weights):
    out = []
    meet = {f: [] for f in FAMILIES}
    for m in traffic.meetings(rail):
        meet[m[0]].append(m)
    kinds = [(k, w) for k, w in weights.items() if k not in FAMILIES or meet[k]]
    total = sum(w for _, w in kinds)
    for _ in range(n):
        x = rng.random() * total
        for kind, w in kinds:
            x -= w
            if x < 0:
                break
        dmax = rng.choice([3, 10, 40, 40, 100])
        sc = {"t": kind, "dmax": dmax}
        if kind in ("seq", "disp"):
            sc["dist"] = gen_dist(rng, rail, rng.choice([3, 10, 30, 90]))
            sc["dmax"] = rng.choice([10, 40, 150, 600, 600])
            sc["dwell"] = gen_waits(rng, rail, step, 10, rng.choice([0.0, 0.0, 0.3]))
            order = list(rail.order)
            rng.shuffle(order)
            sc["order"] = order
            if kind == "disp":
                sc["policy"] = rng.choice(["fifo", "near", "random"])
                sc["seed"] = rng.randrange(1 << 30)
            sc["faults"] = []
            if rng.random() < 0.5:
                fam = rng.choice([f for f in FAMILIES if meet[f]] or ["track"])
                f = {"family": fam}
                if meet[fam] and rng.random() < 0.7:
                    k = key(rng.choice(meet[fam]))
                    f["pair"] = [k[1], k[2]]
                sc["faults"].append(f)
            sc["nudge"] = None
            if rng.random() < 0.5:
                no = rng.choice(rail.order)
                if rail.trains[no].leaves:
                    sc["nudge"] = [no, rng.choice(rail.trains[no].leaves), rng.choice([-step, -1.0, -3.0, step])]
        elif kind in FAMILIES:
            sc["m"] = key(rng.choice(meet[kind]))
            sc["side"] = rng.random() < 0.5
            sc["off"] = rng.choice([0.0, 0.0, -step, -step, step, -1.0, 1.0, -4.0])
            sc["waits"] = gen_waits(rng, rail, step, dmax, rng.choice([0.0, 0.3, 0.8]))
            if rng.random() < 0.6:
                pair = sc["m"][1:3]
                sc["waits"] = [x for x in sc["waits"] if x[0] not in pair]
                for no in pair:
                    if rng.random() < 0.6:
                        T = rail.trains[no]
                        sc["waits"].append([no, rng.choice(T.leaves), rng.choice([0.0, float(dmax), dmax - step, step])])
            sc["order"] = list(rail.order)
            rng.shuffle(sc["order"])
            sc["gap"] = rng.choice([4000.0, 4000.0, 700.0])
        elif kind == "causal":
            no = rng.choice(rail.order)
            T = rail.trains[no]
            if not T.leaves:
                continue
            sc["off"] = rng.choice([0.0, -step, -1.0, step])
            sc["waits"] = gen_waits(rng, rail, step, dmax, 0.3)
            sc["waits"] = [x for x in sc["waits"] if x[0] != no]
            wait = rng.choice([0.0, step, 2.0, float(dmax)])
            if no in rail.pred and rng.random() < 0.6:
                sc["turn"] = [no, wait, sc["off"]]
            elif len(T.leaves) > 1:
                i = rng.randrange(1, len(T.leaves))
                sc["waits"] += [[no, T.leaves[i - 1], wait], [no, T.leaves[i], sc["off"]]]
            else:
                sc["waits"] += [[no, T.leaves[0], sc["off"]]]
            sc["order"] = list(rail.order)
            rng.shuffle(sc["order"])
            sc["gap"] = 4000.0
        elif kind == "points":
            sc["dist"] = gen_dist(rng, rail, rng.choice([3, 10, 30, 90]))
            sc["seed"] = rng.randrange(1 << 30)
            sc["n"] = 4
            sc["close"] = rng.random() < 0.5
        elif kind == "opt":
            sc["dist"] = gen_dist(rng, rail, rng.choice([3, 10, 30]))
            sc["seed"] = rng.randrange(1 << 30)
        out.append(sc)
    return out


SHIPPED_TREF = {"A": "16:00", "Gt": "16:00", "1track": "16:00", "1track_Gt": "16:00",
                "KO_GLC_1": "14:00", "KO_GLC_2": "14:00", "KO_GLC_3": "14:00"}


def gen_shipped(rng, name, weights, n):
    """The shipped timetable as the drivers prepare it (times rounded to minutes)."""
    w = {"shipped": name, "tref": SHIPPED_TREF[name]}
    rail = ref.Rail(W.resolve(w, core.REPO), 1)
    scen = gen_scenarios(rng, rail, 1.0, n, {k: v for k, v in weights.items() if k != "opt"})
    return {"world": w, "r": 1, "cat": rng.choice(["Integer", "Continuous"]), "scen": scen}


QUICK_SHIPPED = ("A", "Gt", "1track", "1track_Gt", "KO_GLC_3")

PLAN = {"quick": {"runs": 330, "guard": 700}, "thorough": {"runs": 2600, "guard": 860}}
RULE = ("one interleaving = the total order of all arrivals and departures of all trains of a history "
        "(simultaneous events grouped); distinct orders are counted over all histories judged")
COMPONENTS = {
    "real": ["data_formatting (all preparation steps, from CSV/ODS/NPZ files)", "helpers.py", "railway_solvers model building",
             "numpy", "pandas", "odfpy"],
    "simulated": ["trains, dispatchers, interlocking (sim/traffic.py)", "PuLP modelling classes and solver binary (sim/stubs/pulp)"],
}
ASSUMPTIONS = [
    "the PuLP stand-in builds the same linear problem as PuLP (its variables and constraints are those the code states)",
    "rules of the reference model (sim/ref.py) as written in properties.jsonl",
    "worlds: 2-5 stations, 2-7 trains, simple paths, one track block per station visit; plus the shipped timetables",
]


def gen_indexed(rng, index, tier, opts, weights, n=40):
    """Run 0 (quick) or runs 0-6 (thorough) use shipped timetables, all others synthetic ones."""
    if tier == "quick" and index == 0:
        return gen_shipped(rng, rng.choice(QUICK_SHIPPED), weights, 30)
    names = list(SHIPPED_TREF)
    if tier == "thorough" and index < len(names):
        return gen_shipped(rng, names[index], weights, 150 if names[index] in QUICK_SHIPPED else 60)
    return gen(rng, opts, weights, n)


def gen(rng, opts, weights, n):
    o = W.draw_options(rng, **opts(rng))
    w = W.generate(rng, o)
    r = rng.choice([0, 0, 1])
    cat = rng.choice(["Integer", "Continuous"]) if r else "Continuous"
    rail = ref.Rail(w, r)
    step = 1.0 if r else 0.25
    return {"world": w, "r": r, "cat": cat, "scen": gen_scenarios(rng, rail, step, n, weights)}


# -- execution ----------------------------------------------------------------

def build_history(sc, rail, step):
    """-> (dist, dep) of a scenario, or None if it does not apply (any more)."""
    t = sc["t"]
    if t in ("seq", "disp"):
        dist = {no: d for no, d in sc["dist"] if no in rail.trains}
        dwell = {}
        for no, s, d in sc["dwell"]:
            if no in rail.trains:
                dwell[no, s] = d
        order = [no for no in sc["order"] if no in rail.trains]
        dep = None
        if t == "disp":
            try:
                dep = traffic.dispatch(rail, dist, core.rng_for("disp", sc["seed"]), step, sc["policy"], sc["faults"], dwell)
            except traffic.Deadlock:
                dep = None
        if dep is None:
            try:
                dist, dep = traffic.sequential(rail, dist, order, step, dwell, sc["faults"])
            except traffic.Deadlock:
                return None
        if sc["nudge"] and tuple(sc["nudge"][:2]) in dep:
            no, s, d = sc["nudge"]
            dep[no, s] += d
        return dist, dep
    waits = {}
    for no, s, d in sc["waits"]:
        if no in rail.trains:
            waits[no, s] = waits.get((no, s), 0.0) + d
    extra = {}
    if sc.get("turn"):
        no, wait, off = sc["turn"]
        if no not in rail.pred:
            return None
        extra[no] = -wait
        waits[no, rail.trains[no].path[0]] = wait + off
    order = [no for no in sc["order"] if no in rail.trains]
    lay = traffic.Layout(rail, waits, extra, gap=sc["gap"], order=order)
    if t in FAMILIES:
        found = [m for m in traffic.meetings(rail) if m[0] == t and key(m) == sc["m"]]
        if not found:
            return None
        fam, x = found[0]
        b = traffic.boundary(rail, lay, fam, x, sc["side"])
        if b is None or lay.unit[b[0]] == lay.unit[b[1]]:
            return None
        lay.place(b[0], b[1], b[2] + (sc["off"] if sc["side"] else -sc["off"]))
    return lay.result()


def order_of(rail, dist, dep):
    """Total order of all arrivals and departures, simultaneous ones grouped."""
    tm = ref.Times(rail, dist, dep)
    ev = []
    for (no, s), t in dep.items():
        ev.append((round(t, 6), "d", no, s))
    for no, T in rail.trains.items():
        for s in T.path[1:]:
            ev.append((round(tm.arr(no, s), 6), "a", no, s))
    ev.sort(key=lambda e: (e[0], e[1], str(e[2]), e[3]))
    out = []
    last = None
    for e in ev:
        if e[0] == last:
            out[-1].append(e[1:])
        else:
            out.append([e[1:]])
            last = e[0]
    return out


def train_minutes(rail, dist, dep):
    tm = ref.Times(rail, dist, dep)
    total = 0.0
    for no, T in rail.trains.items():
        if T.leaves:
            last = T.path[-1]
            end = tm.arr(no, last) if last != T.path[0] else dep[no, last]
            total += max(0.0, end - tm.E[no, T.path[0]])
    return total


class Runner:
    def __init__(self, spec, o, pid):
        self.spec, self.o, self.pid = spec, o, pid
        self.fams = [f for f, p in model.PROP_OF.items() if p == pid]
        self.rail = ref.Rail(W.resolve(spec["world"], core.REPO), spec["r"])
        self.step = 1.0 if spec["r"] else 0.25
        self.prep = None
        self.clean = []

    def run(self):
        o, spec = self.o, self.spec
        o.event("world", spec["r"], spec["cat"], sorted(self.rail.order))
        try:
            self.prep = model.Prepared(spec["world"], spec["r"])
        except Exception as e:
            self.broken(e, "preparing")
            return
        for sc in spec["scen"]:
            o.event("scenario", sc["t"])
            if sc["t"] == "points":
                self.points(sc)
            elif sc["t"] == "opt":
                self.optimum(sc)
            else:
                h = build_history(sc, self.rail, self.step)
                if h is None:
                    o.counters["not applicable"] += 1
                    continue
                self.note_faults(sc)
                self.compare(sc["t"], h[0], h[1], sc["dmax"])

    def note_faults(self, sc):
        o = self.o
        for f in sc.get("faults", ()):
            o.faults["interlocking ignores %s rule" % f["family"]] += 1
        if sc.get("dist"):
            o.faults["late entry"] += len([1 for _, d in sc["dist"] if d])
        if sc.get("dwell"):
            o.faults["long dwell"] += len(sc["dwell"])
        if sc.get("nudge"):
            o.counters["departure shifted"] += 1
        if sc.get("off"):
            if sc["off"] < 0:
                o.faults["pair inside its boundary"] += 1
            else:
                o.counters["pair outside its boundary"] += 1
        if sc.get("waits"):
            o.counters["held at station"] += len(sc["waits"])

    def broken(self, e, what):
        o = self.o
        if not core.from_repo(e):
            raise e
        o.event("exception", what, core.describe(e))
        o.counters["%s failed" % what] += 1
        if self.pid == "C06":
            o.fail("fails on a valid timetable", "%s: %s" % (what, core.describe(e)))

    def problem(self, dist, dmax):
        try:
            return self.prep.problem(dist, dmax, self.spec["cat"])
        except Exception as e:
            self.broken(e, "building")
            return None

    def describe(self, dist, dep):
        return "disturbances %s departures %s" % (
            {k: v for k, v in dist.items() if v}, {"%s@%s" % k: v for k, v in list(dep.items())[:40]})

    def compare(self, tag, dist, dep, dmax):
        o, rail = self.o, self.rail
        pr = self.problem(dist, dmax)
        if pr is None:
            return
        if self.pid == "C05":
            E = rail.earliest(dist)
            for (no, s), e in E.items():
                x = pr.earliest(no, s)
                o.evaluations += 1
                if abs(x - e) > ref.TOL:
                    o.fail("earliest departure", "train %s at %s: %s instead of %s" % (no, s, x, e))
                    return
        bad, loose = ref.judge(rail, dist, dep, dmax)
        fams = sorted({f for f, _ in bad})
        acc = pr.accepts(rail, dep)
        o.evaluations += 1
        o.sim_minutes += train_minutes(rail, dist, dep)
        o.order(order_of(rail, dist, dep))
        o.event("history", tag, acc, fams, sorted({x for x, _ in loose}), dmax, sorted(dep.items(), key=str))
        o.counters["histories"] += 1
        if bad:
            o.nontrivial = True
            o.counters["unsafe histories"] += 1
            if len(fams) == 1:
                o.counters["unsafe by %s alone" % fams[0]] += 1
            if acc:
                hit = [(f, t) for f, t in bad if f in self.fams]
                if hit:
                    o.fail("unsafe history accepted: " + hit[0][0], "%s; %s" % (hit[0][1], self.describe(dist, dep)))
                else:
                    o.counters["accepted unsafe (other rule)"] += 1
        elif loose:
            why = sorted({x for x, _ in loose})
            o.counters["undecided: " + ", ".join(why)] += 1
            if not acc and why == ["opposing order"] and self.pid == "C06":
                blame = pr.blame(rail, dep)
                if blame == ["switch"]:
                    o.finding("opposing-order", "%s; %s" % (loose[0][1], self.describe(dist, dep)))
                else:
                    o.fail("safe history rejected: " + ",".join(blame), self.describe(dist, dep))
        else:
            o.nontrivial = True
            o.counters["safe histories"] += 1
            if tag in FAMILIES:
                o.counters["safe at %s boundary" % tag] += 1
            self.clean.append((dist, dep, dmax))
            if not acc:
                blame = pr.blame(rail, dep)
                mine = [f for f in blame if f in self.fams]
                if self.pid == "C06" or (mine and len(blame) == 1):
                    o.fail("safe history rejected: " + ",".join(blame), self.describe(dist, dep))
                else:
                    o.counters["rejected safe (other rule)"] += 1
            elif self.pid == "C06":
                self.not_worse(pr, dist, dep, dmax)

    def not_worse(self, pr, dist, dep, dmax):
        status, x, val, nodes = pr.model.solve(node_limit=1500)
        if status == "limit":
            self.o.counters["optimum not computed"] += 1
            return
        self.o.counters["optimum compared"] += 1
        if x is None:
            self.o.fail("no plan although a safe run exists", self.describe(dist, dep))
            return
        mine = ref.objective(self.rail, dist, dep, dmax)
        if val > mine + 1e-6:
            self.o.fail("optimum worse than a safe run", "%s > %s; %s" % (val, mine, self.describe(dist, dep)))

    def optimum(self, sc):
        """The optimum must itself be a safe history and zero for a safe undelayed timetable."""
        rail, o = self.rail, self.o
        dist = {no: float(d) for no, d in sc["dist"] if no in rail.trains}
        pr = self.problem(dist, sc["dmax"])
        if pr is None:
            return
        E = rail.earliest(dist)
        dep = {(no, s): E[no, s] for no, T in rail.trains.items() for s in T.leaves}
        bad, loose = ref.judge(rail, dist, dep, sc["dmax"])
        status, x, val, nodes = pr.model.solve(node_limit=3000)
        o.evaluations += 1
        o.event("optimum", status, None if val is None else round(val, 6))
        if status == "limit":
            o.counters["optimum not computed"] += 1
            return
        if x is not None:
            plan = pr.departures(rail, x)
            self.proposed("optimum", pr, dist, plan, sc["dmax"])
        if not bad and not loose:
            o.counters["conflict-free timetables"] += 1
            if self.pid == "C06" and (x is None or val > 1e-6):
                o.fail("conflict-free timetable gets delays", "optimum %s; %s" % (val, self.describe(dist, dep)))

    def proposed(self, tag, pr, dist, plan, dmax):
        """A plan feasible in the problem must be a safe history."""
        rail, o = self.rail, self.o
        bad, _ = ref.judge(rail, dist, plan, dmax)
        o.evaluations += 1
        o.counters["plans proposed by the problem"] += 1
        o.sim_minutes += train_minutes(rail, dist, plan)
        o.order(order_of(rail, dist, plan))
        o.event("plan", tag, sorted({f for f, _ in bad}), sorted(plan.items(), key=str))
        o.nontrivial = True
        if bad:
            hit = [(f, t) for f, t in bad if f in self.fams]
            if hit:
                o.fail("unsafe plan: " + hit[0][0], "%s; %s" % (hit[0][1], self.describe(dist, plan)))
            else:
                o.counters["unsafe plan (other rule)"] += 1

    def points(self, sc):
        """Plans an arbitrary solver could return: random orders, random waits, least times."""
        rail, o = self.rail, self.o
        rng = core.rng_for("points", sc["seed"])
        dist = {no: float(d) for no, d in sc["dist"] if no in rail.trains}
        if sc["close"]:
            # bring all trains to the same time of day
            for no, T in rail.trains.items():
                if T.leaves:
                    dist[no] = 500.0 + rng.randint(0, 25) - T.entry
        pr = self.problem(dist, sc["dmax"])
        if pr is None:
            return
        m = pr.model
        dv = sorted(pr.delay_vars(rail).values())
        bins = [i for i in range(len(m.vars)) if m.isbin[i]]
        for _ in range(sc["n"]):
            lo, hi = list(m.lo), list(m.hi)
            for i in dv:
                if rng.random() < 0.25:
                    lo[i] = min(hi[i], lo[i] + rng.choice([0, 1, 2, 5]))
            pick = [i for i in bins if rng.random() < 0.6]
            rng.shuffle(pick)
            if not m.propagate(lo, hi, range(len(m.cons))):
                o.counters["points infeasible"] += 1
                continue
            for i in pick:
                if hi[i] - lo[i] < 0.5:
                    continue
                v = float(rng.random() < 0.5)
                for val in (v, 1.0 - v):
                    l2, h2 = list(lo), list(hi)
                    l2[i] = h2[i] = val
                    if m.propagate(l2, h2, list(m.watch[i])):
                        lo, hi = l2, h2
                        break
            status, x, _, _ = m.solve(lo, hi, first=True, node_limit=2000)
            if x is None:
                o.counters["points infeasible"] += 1
                continue
            o.counters["arbitrary solver decision"] += len(pick)
            self.proposed("point", pr, dist, pr.departures(rail, x), sc["dmax"])


# -- reduction ------------------------------------------------------------------

def shrink(spec):
    """Smaller specs, most promising first."""
    sc = spec["scen"]
    if len(sc) > 1:
        half = len(sc) // 2
        for part in (sc[:half], sc[half:]):
            yield dict(spec, scen=part)
        for i in range(len(sc)):
            yield dict(spec, scen=sc[:i] + sc[i + 1:])
    trains = spec["world"].get("trains", [])
    if len(trains) > 1:
        for i in range(len(trains)):
            w = dict(spec["world"], trains=trains[:i] + trains[i + 1:])
            yield dict(spec, world=w)
    for i, x in enumerate(sc):
        for field, empty in (("waits", []), ("dwell", []), ("dist", []), ("faults", []), ("nudge", None)):
            if x.get(field):
                y = copy.deepcopy(x)
                y[field] = empty
                yield dict(spec, scen=sc[:i] + [y] + sc[i + 1:])
        for field in ("waits", "dwell", "dist"):
            if x.get(field) and len(x[field]) > 1:
                for k in range(len(x[field])):
                    y = copy.deepcopy(x)
                    del y[field][k]
                    yield dict(spec, scen=sc[:i] + [y] + sc[i + 1:])
        if x.get("n", 1) > 1:
            yield dict(spec, scen=sc[:i] + [dict(x, n=1)] + sc[i + 1:])
    if not trains:
        return
    used = {b for t in trains for b in (r[0] for r in t["rows"])}
    net = spec["world"]["net"]
    keep = [r for r in net if r[0] in used and r[1] in used] + net[-1:]
    if len(keep) < len(net):
        yield dict(spec, world=dict(spec["world"], net=keep))
    st = [x for x in spec["world"]["stations"] if any(b in used for b in x[1])]
    if len(st) < len(spec["world"]["stations"]):
        yield dict(spec, world=dict(spec["world"], stations=st))
