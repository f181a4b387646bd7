"""Preparation steps of several experiments in one process, in any order and any repetition."""
import contextlib
import copy
import datetime
import os

from .. import clock, core, drivers, fresh, model, qrun, railrun, ref, services, world as W

ID = "C19"
PLAN = {"quick": {"runs": 180, "guard": 700}, "thorough": {"runs": 1500, "guard": 860}}
NEEDS = {"step": 10, "repeated step": 0.7, "problem compared": 1, "inputs compared": 8, "history compared under permutation": 2,
         "switch between experiments": 3, "continued from saved tables": 0.1, "instance compared": 0.04}
RULE = "one interleaving = sequence of preparation steps by experiment; for permutations the order of trains, stations and network rows"
COMPONENTS = {
    "real": ["helpers.py and data_formatting preparation", "railway_solvers model building and conversion", "solve_KO_GLC_problems.py for the series"],
    "simulated": ["order and repetition of the steps (seeded scheduler)", "process restarts (module state of its own per process)",
                  "railways, timetables", "solver services, libraries of sim/stubs"],
}
ASSUMPTIONS = ["histories that the reference model leaves undecided are not compared under permutation (known finding of C06)"]

# instances of the third KO_GLC series
SERIES = {0: {}, 1: {2: 18}, 2: {2: 36, 4602: 20}, 3: {101: 18, 1: 29, 3: 25}, 4: {101: 18, 1: 29, 3: 25, 5: 15, 2: 18},
          5: {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12},
          6: {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12, 103: 15, 10: 50, 4606: 30},
          7: {2: 50, 4602: 32, 4: 10, 102: 5, 1: 12, 101: 10},
          8: {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 3: 20},
          9: {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 10: 25},
          10: {1: 29, 2: 36, 4602: 20, 9: 12, 4606: 30, 102: 45, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 4604: 10, 10: 25},
          11: {2: 92, 4602: 70, 4: 72, 102: 46, 101: 45, 6401: 33, 6403: 20, 5: 25, 103: 28, 3: 59, 4604: 12, 10: 25}}

CHAIN = ("network", "stations", "tables", "skip", "taus", "timetable", "sets")
EXTRA = ("update", "problem", "problem", "delay", "publish", "cqm", "bqm", "restart", "taus", "timetable", "sets", "skip", "tables")


# -- generation -----------------------------------------------------------------------

def gen(rng, index, tier):
    if index % 40 == 0:
        return {"kind": "series", "world": drivers.ko_world(rng), "how": rng.choice([[], ["--solve_lp", "PULP_CBC_CMD"], ["--solve_quantum", "cqm"]]),
                "cat": rng.choice(["Integer", "Continuous"]), "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.3:
        return gen_permuted(rng)
    return gen_history(rng)


def gen_exp(rng, w):
    nos = [t["no"] for t in w["trains"]]
    return {"world": w, "r": rng.choice([0, 1]), "cat": rng.choice(["Integer", "Continuous"]), "dmax": rng.choice([5, 10, 40]),
            "dist": [[no, rng.choice([1, 3, 12, 30])] for no in nos if rng.random() < 0.4]}


def related(rng, w):
    """Another experiment on almost the same railway."""
    w = copy.deepcopy(w)
    k = rng.choice(["same", "other trains", "other times", "other stations", "other network"])
    if k == "other trains":
        for t in w["trains"]:
            t["type"] = rng.choice(W.TYPES)
    if k in ("other trains", "other times"):
        for t in w["trains"]:
            for r in t["rows"]:
                for c in (3, 4):
                    if r[c]:
                        r[c] = W.hhmm(W.minutes(r[c]) + rng.choice([0, 1, 7]))
    if k == "other network":
        for r in w["net"]:
            r[3:] = [x + rng.choice([0, 0.5, 1]) for x in r[3:]]
    if k == "other stations":
        w["stations"] = [[n[::-1] if n.isalpha() else n, b] for n, b in w["stations"]]
    return w


def gen_history(rng):
    worlds = [drivers.small(rng, rng.choice([2, 3, 4]), n_stations=rng.choice([2, 3]), p_pair9=rng.choice([0.0, 0.6]), p_special=rng.choice([0.0, 0.4]),
                            numbers=rng.choice(["plain", "related", "big"])) for _ in range(rng.choice([1, 1, 2]))]
    while len(worlds) < 2 or rng.random() < 0.3:
        worlds.append(related(rng, worlds[0]))
    exps = [gen_exp(rng, w) for w in worlds]
    todo = [list(CHAIN) for _ in exps]
    for k, t in enumerate(todo):
        for x in [rng.choice(EXTRA) for _ in range(rng.choice([0, 2, 5]))] + ["problem"]:
            t.append(x)
    steps, mode, last = [], rng.choice(["random", "burst", "serial"]), 0
    while any(todo):
        alive = [k for k in range(len(todo)) if todo[k]]
        if last not in alive or mode == "random" or mode == "burst" and rng.random() < 0.2:
            last = rng.choice(alive)
        op = todo[last].pop(0)
        steps.append([last, op])
        if rng.random() < 0.15:
            steps.append([last, op])         # once more
    for s in steps:
        if s[1] == "restart" and rng.random() < 0.5:
            s.append("saved")
    return {"kind": "history", "exps": exps, "steps": steps, "seed": rng.randrange(1 << 30)}


def gen_permuted(rng):
    w = W.generate(rng, W.draw_options(rng, n_stations=rng.choice([2, 3, 4]), n_trains=rng.choice([3, 4, 5])))
    r = rng.choice([0, 1])
    rail = ref.Rail(w, r)
    return {"kind": "permuted", "world": w, "r": r, "cat": "Integer" if r else "Continuous", "seed": rng.randrange(1 << 30),
            "scen": railrun.gen_scenarios(rng, rail, 1.0 if r else 0.25, 14,
                                          {"headway": 2, "single": 2, "track": 3, "switch": 2, "causal": 1, "seq": 1})}


# -- comparable forms --------------------------------------------------------------------

def form(x):
    """Comparable text of inputs and prepared data (order of dictionaries and sets does not count)."""
    import numpy as np
    if isinstance(x, dict):
        return "{%s}" % ",".join(sorted("%s:%s" % (form(k), form(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return "<%s>" % ",".join(sorted(form(v) for v in x))
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(form(v) for v in x)
    if hasattr(x, "columns"):
        return "frame%s%s" % (sorted(map(str, x.columns)), form(x[sorted(x.columns, key=str)].values.tolist()))
    if isinstance(x, np.ndarray) or hasattr(x, "tolist") and not isinstance(x, np.generic):
        return form(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, float, np.number)):
        return "%.6f" % (float(x) + 0.0)
    return repr(x)


def problem_form(prob):
    """The linear problem without the names of its constraints and their order."""
    from pulp import _exact
    m = _exact.Model(prob)
    names = [v.name for v in m.vars]
    cons = sorted("%s|%.6f" % (sorted((names[i], round(float(a), 6)) for i, a in terms), float(rhs)) for terms, rhs in m.cons)
    vs = sorted((n, m.lo[i], m.hi[i], bool(m.isbin[i]), m.vars[i].cat) for i, n in enumerate(names))
    obj = sorted((v.name, round(float(a), 6)) for v, a in prob.objective.items() if a)
    return repr((vs, cons, obj))


# -- histories --------------------------------------------------------------------------------

class Experiment:
    """Objects of one experiment, as a user keeps them between the steps."""

    def __init__(self, spec, directory):
        self.spec = spec
        self.have = {}
        self.paths = W.write_files(spec["world"], directory)
        self.directory = directory
        self.prob = None

    def do(self, op, saved=False):
        import helpers as h
        import data_formatting.data_formatting as df
        from railway_solvers.railway_solvers import create_linear_problem
        x, s = self.have, self.spec
        if op == "network":
            x["network"] = h.load_data_paths(self.paths[1])
        elif op == "stations":
            x["stations"] = h.load_important_stations(self.paths[2])
        elif op == "tables":
            old = os.getcwd()
            os.chdir(self.directory)
            try:
                x["tables"] = h.build_timetables(self.paths[0], True, x["stations"], x["network"])
            finally:
                os.chdir(old)
        elif op == "update":
            x["tables"] = df.update_all_timetables(x["tables"], x["network"], x["stations"])
        elif op == "skip":
            x["skip"] = df.get_skip_stations(x["tables"])
        elif op == "taus":
            x["taus"] = h.make_taus(x["tables"], x["stations"], s["r"])
        elif op == "timetable":
            x["timetable"] = h.make_timetable(x["tables"], x["stations"], x["skip"], s["world"]["tref"], x["taus"])
        elif op == "sets":
            x["sets"] = h.make_train_set(x["tables"], x["stations"], x["network"], x["skip"])
        elif op == "delay":
            ic = x["timetable"]["initial_conditions"]
            for no, d in s["dist"]:
                ic = df.add_delay(ic, no, d)
        elif op in ("problem", "publish", "cqm", "bqm"):
            tt = dict(x["timetable"])
            for no, d in s["dist"]:
                tt["initial_conditions"] = df.add_delay(tt["initial_conditions"], no, d)
            prob = create_linear_problem(x["sets"], tt, s["dmax"], s["cat"])
            if op == "publish":
                sample = {v.name: 0 for v in prob.variables()}
                h.print_optimisation_results(prob, tt, x["sets"], x["taus"], x["skip"], s["dmax"], datetime.datetime(2020, 1, 1, 16, 0), sample)
            elif op == "cqm" and s["cat"] == "Integer":
                h.convert_to_cqm(prob)
            elif op == "bqm" and s["cat"] == "Integer" and s["r"]:
                h.convert_to_bqm(prob, {f: 1.25 for f in qrun.FAMS + ("objective",)})
            return problem_form(prob)
        else:
            raise core.HarnessError(op)

    def restart(self, saved):
        """A new process: either all over again or from the tables saved before."""
        import helpers as h
        import pickle
        path = os.path.join(self.directory, "update_tables.pkl")
        for op in ("network", "stations"):
            self.do(op)
        if saved and os.path.exists(path):
            self.have["tables"] = h.load_timetables(path)
        else:
            self.do("tables")
        for op in ("skip", "taus", "timetable", "sets"):
            self.do(op)

    def inputs(self):
        return {k: form(v) for k, v in self.have.items()}


def history(spec, o):
    with contextlib.ExitStack() as st:
        exps, alone = [], []
        for e in spec["exps"]:
            exps.append(Experiment(e, st.enter_context(drivers.scratch())))
        # each experiment alone in a process of its own
        for e in spec["exps"]:
            with drivers.scratch() as d, fresh.Session().active(), core.quiet():
                x = Experiment(e, d)
                try:
                    for op in CHAIN:
                        x.do(op)
                    f = x.do("problem")
                except Exception as err:
                    if not core.from_repo(err):
                        raise
                    o.counters["could not be prepared (C06)"] += 1
                    return
                alone.append((x.inputs(), f))
        session = fresh.Session()
        done, last = [], None
        before = [x.inputs() for x in exps]
        for n, step in enumerate(spec["steps"]):
            k, op = step[:2]
            e = exps[k]
            where = "experiment %d, %s after %s" % (k, op, ["%d %s" % x for x in done[-12:]])
            if (k, op) in done:
                o.counters["repeated step"] += 1
            if last not in (None, k):
                o.counters["switch between experiments"] += 1
            last = k
            f = None
            try:
                if op == "restart":
                    o.faults["process restart"] += 1
                    if "sets" not in e.have:
                        continue
                    with fresh.Session().active(), core.quiet():
                        e.restart(len(step) > 2)
                        f = e.do("problem")
                    if len(step) > 2:
                        o.counters["continued from saved tables"] += 1
                else:
                    with session.active(), core.quiet():
                        f = e.do(op)
            except Exception as err:
                if not core.from_repo(err):
                    raise
                if op in ("cqm", "bqm", "publish") and fails_alone(e.spec, op):
                    o.counters["step fails alone as well"] += 1
                    continue
                o.fail("step fails after others", "%s: %s" % (where, core.describe(err)))
                return
            done.append((k, op))
            o.counters["step"] += 1
            o.nontrivial = True
            # other experiments are looked at now and then, and at the end
            look = n % 7 == 0 or n == len(spec["steps"]) - 1
            after = [x.inputs() if x is e or look else before[i] for i, x in enumerate(exps)]
            o.event(k, op, core.hashlib.sha256(repr(sorted(after[k].items())).encode()).hexdigest()[:12])
            for i, x in enumerate(exps):
                if not (x is e or look):
                    continue
                for name, v in after[i].items():
                    o.evaluations += 1
                    o.counters["inputs compared"] += 1
                    if v != alone[i][0][name]:
                        if before[i].get(name) == alone[i][0][name] and not (i == k and made(op, name)):
                            o.fail("shared input changed", "%s: %s of experiment %d: %s" % (where, name, i, difference(v, alone[i][0][name])))
                        else:
                            o.fail("prepared differently", "%s: %s of experiment %d: %s" % (where, name, i, difference(v, alone[i][0][name])))
                        return
            if f is not None:
                o.counters["problem compared"] += 1
                o.evaluations += 1
                if f != alone[k][1]:
                    o.fail("another problem", "%s: %s" % (where, difference(f, alone[k][1])))
                    return
            before = after
        o.order(tuple(done))


def fails_alone(spec, op):
    with drivers.scratch() as d, fresh.Session().active(), core.quiet():
        x = Experiment(spec, d)
        for c in CHAIN:
            x.do(c)
        try:
            x.do(op)
        except Exception as e:
            if not core.from_repo(e):
                raise
            return True
    return False


def made(op, name):
    return op == name or op == "update" and name == "tables" or op == "restart"


def difference(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "...%s... instead of ...%s..." % (a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60])


# -- permutations ---------------------------------------------------------------------------------

def permuted(spec, o):
    w, r = spec["world"], spec["r"]
    rng = core.rng_for("permute", spec["seed"])
    other = copy.deepcopy(w)
    for part in ("trains", "stations", "net"):
        if rng.random() < 0.8:
            rng.shuffle(other[part])
    for _, b in other["stations"]:
        if rng.random() < 0.5:
            rng.shuffle(b)
    rail = ref.Rail(w, r)
    try:
        a = model.Prepared(w, r)
    except Exception as e:
        if not core.from_repo(e):
            raise
        o.counters["could not be prepared (C06)"] += 1
        return
    o.order([t["no"] for t in other["trains"]], [s[0] for s in other["stations"]], [n[:2] for n in other["net"]])
    listing = "trains %s, stations %s" % ([t["no"] for t in other["trains"]], [s[0] for s in other["stations"]])
    try:
        b = model.Prepared(other, r)
    except Exception as e:
        if not core.from_repo(e):
            raise
        o.fail("cannot be prepared in another order", "%s: %s" % (listing, core.describe(e)))
        return
    for name in ("tau", "initial_conditions", "penalty_weights", "schedule"):
        o.evaluations += 1
        x, y = form(a.timetable[name]), form(b.timetable[name])
        if x != y:
            o.fail("order of the files matters", "%s: %s: %s" % (listing, name, difference(y, x)))
            return
    step = 1.0 if r else 0.25
    opt = False
    for sc in spec["scen"]:
        h = railrun.build_history(sc, rail, step)
        if h is None:
            continue
        dist, dep = h
        bad, loose = ref.judge(rail, dist, dep, sc["dmax"])
        if loose and not bad:
            o.counters["undecided"] += 1
            continue
        try:
            pa = a.problem(dist, sc["dmax"], spec["cat"])
        except Exception as e:
            if not core.from_repo(e):
                raise
            o.counters["could not be built (C06)"] += 1
            continue
        try:
            pb = b.problem(dist, sc["dmax"], spec["cat"])
        except Exception as e:
            if not core.from_repo(e):
                raise
            o.fail("cannot be built in another order", "%s: %s" % (listing, core.describe(e)))
            return
        o.nontrivial = True
        o.evaluations += 1
        o.counters["history compared under permutation"] += 1
        x, y = pa.accepts(rail, dep), pb.accepts(rail, dep)
        o.event("history", sc["t"], x, y)
        if x != y:
            o.fail("order of the files matters", "%s: a %s history is %s; disturbances %s departures %s" % (
                listing, "safe" if not bad else "unsafe", "accepted only in the first order" if x else "accepted only in the second order",
                dist, {"%s@%s" % k: v for k, v in dep.items()}))
            return
        if not opt and sc["t"] == "seq":
            opt = True
            va, vb = (p.model.solve(node_limit=800) for p in (pa, pb))
            if "limit" not in (va[0], vb[0]):
                o.counters["optimum compared under permutation"] += 1
                o.evaluations += 1
                if (va[1] is None) != (vb[1] is None) or va[1] is not None and abs(va[2] - vb[2]) > 1e-6:
                    o.fail("another optimum", "%s: %s and %s with disturbances %s" % (listing, va[2], vb[2], dist))
                    return


# -- series -----------------------------------------------------------------------------------------

def series(spec, o):
    w = spec["world"]
    ck = clock.SimClock()
    with drivers.scratch() as d:
        drivers.lay_out(d, ko=w)
        sim = drivers.Simulation(d, ck)
        p = sim.add("solve_KO_GLC_problems.py", ["--case", "3", "--category", spec["cat"]] + spec["how"],
                    services.SimHub(spec["seed"], {}, ck, None))
        sim.run()
    where = "series with %s" % (spec["how"] or "no solver")
    o.counters["series"] += 1
    o.nontrivial = True
    if p.exit != "ok":
        o.counters["series stopped"] += 1
        o.event(where, core.describe(p.exit))
    got = [problem_form(x) for x in p.problems]
    o.event(where, len(got))
    o.order(where, spec["cat"], [t["no"] for t in w["trains"]])
    for k, f in enumerate(got):
        with fresh.Session().active():
            try:
                a = model.Prepared(w, 1)
                f1 = problem_form(a.problem(SERIES[k], 40, spec["cat"]).prob)
            except Exception as e:
                if not core.from_repo(e):
                    raise
                o.counters["could not be prepared (C06)"] += 1
                return
        o.evaluations += 1
        o.counters["instance compared"] += 1
        if f != f1:
            o.fail("instance depends on the series", "%s, instance %d: %s" % (where, k, difference(f, f1)))
            return


def execute(spec, o):
    {"history": history, "permuted": permuted, "series": series}[spec["kind"]](spec, o)


def shrink(spec):
    if spec["kind"] == "history":
        s = spec["steps"]
        for n in (len(s) // 2, len(s) // 4):
            if n:
                yield dict(spec, steps=s[:-n])
        for i in range(len(s) - 1, -1, -1):
            if s[i][1] not in CHAIN or s[i] in s[:i]:
                yield dict(spec, steps=s[:i] + s[i + 1:])
    elif spec["kind"] == "permuted":
        sc = spec["scen"]
        for i in range(len(sc)):
            yield dict(spec, scen=sc[:i] + sc[i + 1:])
        t = spec["world"]["trains"]
        for i in range(len(t)):
            if len(t) > 2:
                yield dict(spec, world=dict(spec["world"], trains=t[:i] + t[i + 1:]))
