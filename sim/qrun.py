"""The real solving path against simulated solver services (C08-C12, C17).

A spec holds a world, disturbed instances of it and service calls.  Every call
goes through the real conversion, submission and evaluation code; the answers
come from `services.SimHub`.
"""
import contextlib
import copy

from . import clock as C, core, model, ref, services, world as W

METHODS = ("sim", "real", "bqm", "cqm")
FAMS = ("minimal_span", "single_line", "minimal_stay", "track_occupation", "switch", "occupation", "circulation")
EPS = 1e-6


# -- generation ----------------------------------------------------------------

def gen_world(rng, **over):
    o = dict(n_stations=rng.choice([2, 2, 3]), n_trains=rng.choice([2, 2, 3, 3, 4]), tracks=rng.choice([1, 2]),
             max_blocks=rng.choice([1, 2, 3]), window=rng.choice([5, 10, 20]), p_outer=rng.choice([0.0, 0.3]),
             p_wrong_track=rng.choice([0.0, 0.4]), same_od=0.6, switch_pool=rng.choice([2, 4]))
    o.update(over)
    return W.generate(rng, W.draw_options(rng, **o))


def gen_pdict(rng):
    one = rng.random() < 0.4
    p = rng.choice([1.0, 1.25, 2.5, 10.0])
    d = {f: (p if one else rng.choice([0.5, 1.0, 1.25, 2.5, 4.0, 10.0])) for f in FAMS}
    d["objective"] = rng.choice([1, 1, 0.5, 3])
    return d


def gen_call(rng, methods, **conf):
    kinds = [k for k in ("opt", "feas", "near", "rand", "zero") if rng.random() < 0.6] or ["feas", "rand"]
    c = {"kinds": kinds, "rows": rng.choice([1, 3, 8]), "p_dup": rng.choice([0.0, 0.3]), "p_noise": rng.choice([0.0, 0.0, 0.4]),
         "slack": rng.choice([["exact"], ["exact", "noisy"], ["random"], ["exact", "random"]])}
    c.update(conf)
    return {"method": rng.choice(methods), "min_t": rng.choice([5, 6, 10, 20, 60]), "pdict": gen_pdict(rng),
            "seed": rng.randrange(1 << 30), "conf": c}


def gen(rng, methods=METHODS, n_inst=2, n_calls=3, conf=None, dmax=(3, 5, 10, 10, 40), **over):
    w = gen_world(rng, **over)
    rail = ref.Rail(w, 1)
    inst = []
    for _ in range(n_inst):
        top = rng.choice([0, 3, 10, 30])
        dist = [[no, rng.randint(0, top)] for no in rail.order if rng.random() < 0.6]
        inst.append({"dist": dist, "dmax": rng.choice(dmax),
                     "calls": [gen_call(rng, methods, **(conf(rng) if conf else {})) for _ in range(n_calls)]})
    return {"world": w, "inst": inst}


# -- execution -----------------------------------------------------------------

@contextlib.contextmanager
def hub_installed(hub):
    import simhooks
    old = simhooks.hub
    simhooks.hub = hub
    try:
        yield hub
    finally:
        simhooks.hub = old


class Instance:
    """One disturbed problem with its exact model and own evaluation."""

    def __init__(self, pr, rail, dist, dmax):
        self.pr, self.rail, self.dist, self.dmax = pr, rail, dist, dmax
        self.prob = pr.prob
        self.m = pr.model
        self.cons = {}
        for k, name in enumerate(self.m.names):
            self.cons.setdefault(name, []).append(k)
        self._reader = None

    def value(self, name, x):
        """Smallest slack of a named rule (negative: violated)."""
        return min(services.slack_need(self.m.cons[k][0], self.m.cons[k][1], x) for k in self.cons[name])

    def satisfied(self, x):
        return {n: self.value(n, x) >= -EPS for n in self.cons}

    def objective(self, x):
        return sum(c * x[i] for i, c in enumerate(self.m.obj)) + self.m.obj0

    def vector(self, sample):
        """Plan of a recorded sample, or None if variables are missing or out of range."""
        x = []
        for i, v in enumerate(self.m.vars):
            if v.name not in sample:
                return None
            x.append(float(sample[v.name]))
        return x

    def in_range(self, x):
        return all(self.m.lo[i] - EPS <= v <= self.m.hi[i] + EPS and abs(v - round(v)) < EPS for i, v in enumerate(x))

    def departures(self, x):
        return self.pr.departures(self.rail, x)

    def decode(self, bits):
        """Plan of a bit string: binary expansion of each variable, else as read back bit by bit."""
        x = []
        for i, v in enumerate(self.m.vars):
            if v.name in bits:
                x.append(float(bits[v.name]))
                continue
            w = services.log_weights(int(self.m.lo[i]), int(self.m.hi[i])) if self.m.hi[i] > self.m.lo[i] else []
            names = ["%s[%d]" % (v.name, k) for k in range(len(w))]
            if any(n not in bits for n in names) or "%s[%d]" % (v.name, len(w)) in bits:
                off, wt = self.reader(bits)
                return [off[k] + sum(a for n, a in wt[k].items() if bits[n]) for k in range(len(off))]
            x.append(self.m.lo[i] + sum(a * bits[n] for n, a in zip(names, w)))
        return x

    def reader(self, names):
        """How the code under test reads bits back: per variable, offset and weight of every bit."""
        import dimod
        import numpy as np
        from railway_solvers.railway_solvers import convert_to_bqm
        if self._reader is None:
            names = sorted(names)
            with core.quiet():
                _, _, interp = convert_to_bqm(self.prob, {f: 1.0 for f in FAMS + ("objective",)})
                rows = np.vstack([np.zeros((1, len(names)), dtype=np.int8), np.eye(len(names), dtype=np.int8)])
                back = interp(dimod.SampleSet.from_samples((rows, names), "BINARY", list(range(len(rows)))))
            plans = [self.vector(d.sample) for d in back.data()]
            off = plans[0]
            wt = [{n: p[k] - off[k] for n, p in zip(names, plans[1:]) if p[k] != off[k]} for k in range(len(off))]
            self._reader = off, wt
        return self._reader

    def rows(self, call):
        """Plans of all rows a service returned."""
        if call["service"] == "hybrid_cqm":
            return [self.vector(r) for r in call["rows"]]
        return [self.decode(r) for r in call["rows"]]


class Runner:
    def __init__(self, spec, o, on_call, on_instance=None):
        self.spec, self.o = spec, o
        self.on_call, self.on_instance = on_call, on_instance
        self.rail = ref.Rail(spec["world"], 1)

    def run(self):
        o, spec = self.o, self.spec
        self.clock = C.SimClock()
        try:
            self.prep = model.Prepared(spec["world"], 1)
        except Exception as e:
            if not core.from_repo(e):
                raise
            o.counters["preparing failed"] += 1
            return
        for inst in spec["inst"]:
            dist = {no: float(d) for no, d in inst["dist"] if no in self.rail.trains}
            try:
                dmax = self.limit(dist, inst["dmax"])
                pr = self.prep.problem(dist, dmax, "Integer")
            except Exception as e:
                if not core.from_repo(e):
                    raise
                o.counters["building failed"] += 1
                continue
            I = Instance(pr, self.rail, dist, dmax)
            o.event("instance", sorted(dist.items()), dmax, len(I.m.vars), len(I.m.cons))
            if not I.m.vars:
                o.counters["problem without variables"] += 1
                continue
            if self.on_instance:
                self.on_instance(self, I, inst)
            for call in inst["calls"]:
                self.one(I, call)

    def limit(self, dist, dmax):
        """Delay limit; 'tight': the one at which a turnover can only just be met."""
        if dmax != "tight":
            return dmax
        m = self.prep.problem(dist, 500, "Integer").model
        tight = sorted({int(b) for (terms, b), n in zip(m.cons, m.names)
                        if n.startswith("circulation") and len(terms) == 2 and b == int(b) and 0 < b < 100})
        if tight:
            self.o.counters["turnover just met"] += 1
        return tight[-1] if tight else 5

    def one(self, I, c):
        """One run of the real solving path; hands the outcome to the oracle."""
        o = self.o
        hub = services.SimHub(c["seed"], c["conf"], self.clock, lambda: I.m)
        rec, err = self.solve(I, c, hub)
        for k in hub.calls:
            if k["fault"] is None:
                o.counters[k["service"] + " answered"] += 1
            else:
                o.faults["%s %s" % (k["service"], k["fault"])] += 1
            if k.get("step"):
                o.faults["wall clock stepped"] += 1
            for kind in k.get("kinds") or ():
                (o.faults if kind in services.BAD else o.counters)["answer: " + kind] += 1
            o.sim_minutes += (k["end"] - k["start"]) / 60.0 if "end" in k else 0.0
            o.order(k["service"], k["fault"], tuple(k.get("kinds") or ()),
                    tuple(sorted(range(len(k["rows"] or ())), key=lambda i: (k["energies"][i], i))) if k["rows"] else ())
        o.event("call", c["method"], err and type(err).__name__, rec and rec.get("feasible"),
                rec and round(float(rec.get("objective", 0)), 6), [k["fault"] for k in hub.calls])
        if err is not None and not hub.calls:
            # conversion stopped before anything was sent
            o.counters["conversion stopped: " + core.describe(err)[:60]] += 1
        self.on_call(self, I, c, hub, rec, err)

    def solve(self, I, c, hub):
        import helpers as h
        rec = err = None
        with hub_installed(hub), self.clock.installed(), core.quiet():
            try:
                rec = h.solve_on_quantum(I.prob, c["method"], c["pdict"] if c["method"] != "cqm" else {}, c["min_t"])
            except core.HarnessError:
                raise
            except Exception as e:
                err = e
        if err is not None and not core.from_repo(err):
            raise err
        return core.record(rec), err


def solvable(m):
    lo, hi = list(m.lo), list(m.hi)
    return m.propagate(lo, hi, range(len(m.cons))) and m.solve(first=True, node_limit=1000)[1] is not None


# -- reduction -------------------------------------------------------------------

def shrink(spec):
    inst = spec["inst"]
    if len(inst) > 1:
        for i in range(len(inst)):
            yield dict(spec, inst=[inst[i]])
    for i, x in enumerate(inst):
        if len(x["calls"]) > 1:
            for k in range(len(x["calls"])):
                y = dict(x, calls=[x["calls"][k]])
                yield dict(spec, inst=inst[:i] + [y] + inst[i + 1:])
        if x["dist"]:
            yield dict(spec, inst=inst[:i] + [dict(x, dist=[])] + inst[i + 1:])
            for k in range(len(x["dist"])):
                yield dict(spec, inst=inst[:i] + [dict(x, dist=x["dist"][:k] + x["dist"][k + 1:])] + inst[i + 1:])
        for k, c in enumerate(x["calls"]):
            for field, small in (("rows", 1), ("p_dup", 0.0), ("p_noise", 0.0), ("kinds", ["zero"]), ("kinds", ["rand"]), ("slack", ["exact"])):
                if c["conf"].get(field) != small and field in c["conf"]:
                    y = copy.deepcopy(x)
                    y["calls"][k]["conf"][field] = small
                    yield dict(spec, inst=inst[:i] + [y] + inst[i + 1:])
    trains = spec["world"]["trains"]
    if len(trains) > 1:
        for i in range(len(trains)):
            yield dict(spec, world=dict(spec["world"], trains=trains[:i] + trains[i + 1:]))
