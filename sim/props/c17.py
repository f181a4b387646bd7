from .. import clock, core, drivers, qrun, services
from . import c15
from .c09 import ASSUMPTIONS, COMPONENTS  # noqa: F401

ID = "C17"
PLAN = {"quick": {"runs": 400, "guard": 700}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"duration compared": 2, "clock stepped during a call": 1, "parameters compared": 2, "duration of a script compared": 0.3, "request to the linear solver": 0.1, "penalty compared": 0.05}
RULE = "one interleaving = service, kind of every answer in arrival order, their order by energy"


def conf(rng):
    return {"steps": rng.choice([0.0, 0.6, 1.0]), "rows": 2, "faults": rng.choice([{}, {}, {"down": 0.2}])}


def gen(rng, index, tier):
    if index % 2:
        # a script
        kind = "ko" if index % 12 == 11 else rng.choice(["real", "wisla"])
        j = c15.gen_job(rng, [kind])
        j["lp"] = rng.random() < 0.4
        j = c15.possible(dict(j, publish=False))
        spec = {"script": j, "conf": dict({"kinds": ["opt", "feas", "rand"], "rows": 2}, steps=rng.choice([0.0, 0.6, 1.0]),
                                          faults=rng.choice([{}, {"limit_plan": 0.3}]) if j["lp"] else {})}
        return c15.with_worlds(rng, spec, [kind])
    spec = qrun.gen(rng, conf=conf, n_calls=4)
    for i in spec["inst"]:
        i["direct"] = [{"method": rng.choice(qrun.METHODS), "seed": rng.randrange(1 << 30), "reads": rng.choice([1, 7, 50, 1000]),
                        "sweeps": rng.choice([1, 10, 333, 4000]), "beta": [rng.choice([0.001, 5]), rng.choice([10, 100])],
                        "anneal": rng.choice([20, 250, 1000]), "chain": rng.choice([2, 4, 7.5]), "min_t": rng.choice([5, 6, 10, 30])}
                       for _ in range(2)]
    return spec


def execute(spec, o):
    if "script" in spec:
        return script(spec, o)
    qrun.Runner(spec, o, told, direct).run()


def limit(o, where, call, requested):
    """Time limit the hybrid service worked with."""
    got = call["params"].get("time_limit")
    if got is None or abs(float(got) - float(requested)) > 1e-9:
        o.fail("time limit", "%s: the service received %s, requested and recorded %s" % (where, got, requested))


def told(run, I, c, hub, rec, err):
    o = run.o
    if not hub.calls or rec is None:
        if rec is not None:
            o.fail("record without a call", str(c["method"]))
        return
    call = hub.calls[-1]
    where = "%s, call %d of the run" % (c["method"], call["k"])
    o.evaluations += 1
    o.nontrivial = True
    took = call["end"] - call["start"]
    o.counters["duration compared"] += 1
    if call.get("step"):
        o.counters["clock stepped during a call"] += 1
    if len(hub.calls) != 1:
        o.fail("number of calls", "%s: %d calls for one record" % (where, len(hub.calls)))
    if abs(float(rec["comp_time_seconds"]) - took) > 1e-5:
        o.fail("duration", "%s: recorded %s s, took %s s, wall clock stepped by %s s"
               % (where, rec["comp_time_seconds"], took, call.get("step", 0)))
    told_by(o, where, c["method"], c["min_t"], rec, call)
    if c["method"] in ("bqm", "cqm"):
        limit(o, where, call, c["min_t"])


def told_by(o, where, method, min_t, rec, call):
    """Information and properties of a record against the call."""
    info = rec["info"]
    if not isinstance(info, dict) or info.get("token") != call["token"]:
        o.fail("information of another call", "%s: %s instead of %s" % (where, info, call["token"]))
    pr = rec["properties"]
    p = call["params"]
    o.counters["parameters compared"] += 1
    if method == "sim":
        for k in ("beta_range", "num_sweeps", "num_reads"):
            if tuple_(pr[k]) != tuple_(p[k]):
                o.fail("parameters of the annealing", "%s: %s recorded %s, received %s" % (where, k, pr[k], p[k]))
    elif method in ("bqm", "cqm"):
        if pr.get("minimum_time_limit_s") != min_t:
            o.fail("recorded time limit", "%s: %s instead of %s" % (where, pr.get("minimum_time_limit_s"), min_t))
        if pr.get("category") != "hybrid":
            o.fail("properties", "%s: %s" % (where, pr))


def tuple_(x):
    return tuple(x) if isinstance(x, (list, tuple)) else x


def direct(run, I, inst):
    """Submission functions called with drawn parameters."""
    from railway_solvers.railway_solvers import (constrained_solver, convert_to_bqm, convert_to_cqm, hybrid_anneal, real_anneal,
                                                 sim_anneal)
    from .. import services
    o = run.o
    for d in inst.get("direct", ()):
        hub = services.SimHub(d["seed"], {"kinds": ["rand"], "rows": 1}, run.clock, lambda: I.m)
        want = {}
        m = d["method"]
        with qrun.hub_installed(hub), run.clock.installed(), core.quiet():
            try:
                if m == "cqm":
                    constrained_solver(convert_to_cqm(I.prob), d["min_t"])
                else:
                    bqm = convert_to_bqm(I.prob, {f: 1.5 for f in qrun.FAMS + ("objective",)})[0]
                    if m == "sim":
                        want = {"beta_range": tuple(d["beta"]), "num_sweeps": d["sweeps"], "num_reads": d["reads"]}
                        sim_anneal(bqm, **want)
                    elif m == "real":
                        want = {"num_reads": d["reads"], "annealing_time": d["anneal"], "chain_strength": d["chain"]}
                        real_anneal(bqm, **want)
                    else:
                        hybrid_anneal(bqm, d["min_t"])
            except Exception as e:
                if not core.from_repo(e):
                    raise
                continue
        if not hub.calls:
            continue
        got = hub.calls[-1]["params"]
        o.counters["parameters compared"] += 1
        o.evaluations += 1
        for k, v in want.items():
            if tuple_(got.get(k)) != v:
                o.fail("parameters of the annealing", "%s: %s requested %s, received %s" % (m, k, v, got.get(k)))
        if m in ("bqm", "cqm"):
            limit(o, m, hub.calls[-1], d["min_t"])


def script(spec, o):
    """Records and requests of one run of an experiment script."""
    ck = clock.SimClock()
    j = spec["script"]
    name, args = c15.command(j)
    with drivers.scratch() as d:
        drivers.lay_out(d, **{k: spec[k] for k in ("real", "real1", "ko") if k in spec})
        sim = drivers.Simulation(d, ck)
        hub = services.SimHub(j["seed"], spec["conf"], ck, None)
        p = sim.add(name, args, hub)
        sim.run()
        files = [b for n, b in drivers.results(d).items() if n != "update_tables.pkl"]
    where = " ".join([name] + args)
    o.event("script", where, [(c["service"], c["fault"], c.get("outcome"), c["params"].get("timeLimit")) for c in hub.calls],
            p.exit if isinstance(p.exit, str) else core.describe(p.exit))
    o.order("script", where, tuple((c["service"], c["fault"], c.get("outcome"), bool(c.get("step"))) for c in hub.calls))
    for call in hub.calls:
        o.sim_minutes += (call["end"] - call["start"]) / 60.0
        o.evaluations += 1
        o.nontrivial = True
        if j["lp"]:
            o.counters["request to the linear solver"] += 1
            want = (j["limit"] or None) if j["kind"] != "real" else None
            got = call["params"]["timeLimit"]
            if call["params"]["name"] != j["solver"]:
                o.fail("another solver", "%s: %s was asked" % (where, call["params"]["name"]))
                return
            if (got is None) != (want is None) or (want is not None and abs(float(got) - want) > 1e-9):
                o.fail("time limit", "%s: the solver received %s instead of %s" % (where, got, want))
                return
        elif j["method"] in ("bqm", "cqm"):
            limit(o, where, call, j["min_t"])
        if call.get("step"):
            o.counters["clock stepped during a call"] += 1
            o.faults["wall clock stepped"] += 1
    if not j["lp"]:
        if j["kind"] == "real" and j["method"] != "cqm" and not weights(o, where, j, p):
            return
    if not j["lp"] and (p.exit != "ok" or len(files) != 1):
        if p.problems and qrun.solvable(p.model()):
            o.fail("no record", "%s: %s, %d files" % (where, p.exit if isinstance(p.exit, str) else core.describe(p.exit), len(files)))
        else:
            o.counters["unsolvable problem"] += 1
        return
    if p.problems and not hub.calls:
        o.fail("solver not asked", "%s: %s" % (where, p.exit if isinstance(p.exit, str) else core.describe(p.exit)))
        return
    if p.exit != "ok" or len(files) != 1:
        o.counters["no record (C13, C14)"] += 1
        return
    data = drivers.load(files[0])
    if j["kind"] == "ko":
        recs = [data.get(k) for k in range(12)] if isinstance(data, dict) else []
    elif j["lp"]:
        return              # publishes a timetable and keeps no record
    else:
        recs = [data[k] for k in sorted(data)] if j["kind"] == "real" else [data]
    if len(recs) != len(hub.calls) or None in recs:
        o.fail("number of records", "%s: %d records of %d requests" % (where, len([r for r in recs if r is not None]), len(hub.calls)))
        return
    for k, (rec, call) in enumerate(zip(recs, hub.calls)):
        o.counters["duration of a script compared"] += 1
        took = call["end"] - call["start"]
        if abs(float(rec["comp_time_seconds"]) - took) > 1e-5:
            o.fail("duration in a script", "%s: record %d says %s s, took %s s, wall clock stepped by %s s"
                   % (where, k, rec["comp_time_seconds"], took, call.get("step", 0)))
            return
        if not j["lp"]:
            told_by(o, "%s, record %d" % (where, k), j["method"], j["min_t"], rec, call)
            if o.violations:
                return


def weights(o, where, j, p):
    """The received QUBO is that of the requested penalty (the conversion itself is C12)."""
    from railway_solvers.railway_solvers import convert_to_bqm
    want = None
    for call in p.hub.calls:
        if want is None:
            with core.quiet():
                want = flat(convert_to_bqm(p.problems[-1], dict({f: j["penalty"] for f in qrun.FAMS}, objective=1))[0])
        o.counters["penalty compared"] += 1
        got = flat(call["problem"])
        diff = [k for k in set(got) | set(want) if abs(got.get(k, 0.0) - want.get(k, 0.0)) > 1e-6]
        if diff:
            o.fail("penalty", "%s: the received problem differs from the one of this penalty in %d terms, %s is %s instead of %s"
                   % (where, len(diff), min(map(str, diff)), *[x.get(min(diff, key=str)) for x in (got, want)]))
            return False
    return True


def flat(bqm):
    d = {(): float(bqm.offset)}
    for v, a in bqm.linear.items():
        d[(v,)] = d.get((v,), 0.0) + float(a)
    for (u, v), a in bqm.quadratic.items():
        k = tuple(sorted((u, v)))
        d[k] = d.get(k, 0.0) + float(a)
    return d


def shrink(spec):
    if "script" not in spec:
        for c in qrun.shrink(spec):
            yield c
        return
    for f, v in (("runs", 1), ("penalty", 1.0), ("min_t", 5), ("limit", 0)):
        if spec["script"][f] != v:
            yield dict(spec, script=dict(spec["script"], **{f: v}))
    if spec["conf"]["faults"] or spec["conf"]["steps"]:
        yield dict(spec, conf=dict(spec["conf"], faults={}, steps=0.0))
