"""Result files at every possible end of a run."""
from .. import clock, core, drivers, services

ID = "C14"
PLAN = {"quick": {"runs": 120, "guard": 700}, "thorough": {"runs": 700, "guard": 860}}
NEEDS = {"kill point": 3, "killed": 0.8, "write failed": 0.8, "repeated after a fault": 1, "swept": 0.15}
RULE = "one interleaving = script, method, operation that was hit and the kind of fault"
LEVEL = "fault_enumeration"
COMPONENTS = {
    "real": ["the three experiment scripts with everything they import from the repository", "files in a scratch directory"],
    "simulated": ["process death and failing file operations (sim/disk.py)", "solver services, LP solver, clock", "libraries of sim/stubs"],
}
ASSUMPTIONS = ["a killed process leaves any prefix of unflushed data behind; loss of power (reordered or lost flushed writes) is not modelled",
               "renaming within a directory is atomic"]

KINDS = ("kill", "enospc", "eio")
QUANTUM = ("sim", "real", "bqm", "cqm")


def gen(rng, index, tier):
    kind = rng.choice(["wisla", "wisla", "real", "real", "ko"] if index % 8 == 0 else ["wisla", "real"])
    spec = {"kind": kind, "seed": rng.randrange(1 << 30), "old": rng.random() < 0.6, "runs": rng.choice([1, 2, 3]),
            "action": rng.choice(["solve", "solve", "publish", "lp"]), "method": rng.choice(QUANTUM),
            "faults": [[rng.choice(["kill", "kill", "enospc", "eio"]), rng.random(), rng.choice([0.0, 0.4, 1.0])] for _ in range(3)],
            "conf": {"kinds": ["opt", "feas", "rand"], "rows": 2}}
    spec["sweep"] = kind != "ko" and index % (6 if kind == "real" else 2) == 1
    if kind == "ko":
        spec["world"] = drivers.ko_world(rng)
        spec["action"] = "lp"
    elif kind == "real":
        spec["world"] = drivers.small(rng, 2)
    return spec


def command(spec, action):
    k = spec["kind"]
    script = {"ko": "solve_KO_GLC_problems.py", "real": "solve_real_problem.py", "wisla": "wisla_problems.py"}[k]
    a = {"ko": ["--case", "3"], "real": ["--case", "0"], "wisla": []}[k]
    if action == "lp":
        return script, a + ["--solve_lp", "PULP_CBC_CMD"] + ([] if k == "ko" else ["--show_timetable", "1"])
    a += ["--solve_quantum", spec["method"]]
    if k == "real":
        a += ["--runs", str(spec["runs"])]
    if action == "publish":
        a += ["--show_timetable", "1"]
    return script, a


def execute(spec, o):
    ck = clock.SimClock()

    def run(d, action, seed, faults=None, observer=None):
        sim = drivers.Simulation(d, ck, observer=observer)
        p = sim.add(*command(spec, action), services.SimHub(seed, spec["conf"], ck, None), faults=faults)
        sim.run()
        return p

    with drivers.scratch() as d:
        drivers.lay_out(d, **({"ko": spec["world"]} if spec["kind"] == "ko" else {"real": spec.get("world")}))
        act = spec["action"]
        if act == "publish":
            p = run(d, "solve", spec["seed"] + 7)
            if p.exit != "ok":
                o.counters["could not be prepared"] += 1
                return
        if spec["old"]:
            if act == "publish":
                base = drivers.results(d)
                run(d, "solve", spec["seed"] + 5)
                run(d, act, spec["seed"] + 5)
                old = drivers.results(d)
                # the published timetable is old, the stored result is not
                old.update({n: b for n, b in base.items() if "data4diagrams" not in n})
                drivers.restore(d, old)
            else:
                run(d, act, spec["seed"] + 5)
        before = drivers.results(d)

        # reference run; the state of every file is looked at before each operation
        seen = []

        def look(sim, proc, kind, what):
            if kind in ("request", "answer", "read"):
                return
            state = {}
            for n, b in drivers.results(d).items():
                cuts = {b}
                for h in sim.disk.handles:
                    if sim.disk.rel(h.path) == n and h.pos > h.flushed:
                        cuts.update((b[:h.flushed], b[:(h.flushed + h.pos) // 2]))
                state[n] = cuts
            seen.append((proc.ops, kind, what, state))

        ref = run(d, act, spec["seed"], observer=look)
        if ref.exit != "ok":
            o.counters["could not be prepared"] += 1
            return
        final = drivers.results(d)
        where = " ".join(command(spec, act)[1])
        o.nontrivial = True
        for ops, kind, what, state in seen:
            o.counters["kill point"] += 1
            o.evaluations += 1
            o.order(spec["kind"], act, spec["method"], kind, what.split("/")[-1][:3], "kill")
            for n in set(final) | set(before):
                got = state.get(n, {None})
                bad = [b for b in got if b is None and n in before or b is not None and b not in (before.get(n), final.get(n))]
                if bad:
                    o.fail("damaged by a kill", "%s %s: killed before operation %d (%s %s), %s %s"
                           % (command(spec, act)[0], where, ops, kind, what, n, describe(bad[0])))
                    o.event("final", sorted(final))
                    return
        o.event("reference", act, sorted((n, core.fingerprint(b)) for n, b in final.items()), ref.ops)

        # real faults, at every operation or at some, then the same run again
        faults = spec["faults"]
        if spec.get("sweep"):
            o.counters["swept"] += 1
            faults = [[kind, k, spec["faults"][0][2]] for k in range(ref.ops) for kind in KINDS]
        for kind, at, part in faults:
            k = at if isinstance(at, int) else int(at * ref.ops)
            drivers.restore(d, before)
            p = run(d, act, spec["seed"], faults={k: (kind, part)})
            if not p.hit:
                o.counters["operation not reached"] += 1
                continue
            o.faults["%s at %s" % (kind, p.hit[0][1])] += 1
            o.counters["killed" if kind == "kill" else "write failed"] += 1
            o.order(spec["kind"], act, spec["method"], kind, p.hit[0][1], p.hit[0][2].split("/")[-1][:3])
            left = drivers.results(d)
            o.event("fault", kind, k, part, p.hit, sorted((n, core.fingerprint(b)) for n, b in left.items()))
            for n in set(final) | set(before):
                if left.get(n) not in (before.get(n), final.get(n)):
                    o.fail("damaged by a fault", "%s %s: %s at operation %d (%s %s), %s %s"
                           % (command(spec, act)[0], where, kind, k, p.hit[0][1], p.hit[0][2], n, describe(left.get(n))))
                    return
            if kind != "kill" and p.exit == "ok" and p.hit[0][1] != "read":
                wrong = [n for n in final if left.get(n) != final[n]]
                if wrong:
                    o.fail("failed write passed over", "%s %s: %s at %s, run ended normally, %s not written"
                           % (command(spec, act)[0], where, kind, p.hit[0][1:], wrong))
                    return
            q = run(d, act, spec["seed"])
            again = drivers.results(d)
            o.counters["repeated after a fault"] += 1
            wrong = [n for n in final if drivers.plain(drivers.load(again.get(n, b""))) != drivers.plain(drivers.load(final[n]))]
            if q.exit != "ok" or wrong:
                o.fail("repeating does not repair", "%s %s: after %s at %s the run gives %s, wrong files %s"
                       % (command(spec, act)[0], where, kind, p.hit[0][1:], q.exit if q.exit == "ok" else core.describe(q.exit), wrong))
                return
        o.sim_minutes += (ck.mono - 1000.0) / 60.0


def describe(b):
    if b is None:
        return "is missing"
    x = drivers.load(b)
    return "holds %d bytes, %s" % (len(b), "unreadable (%s)" % type(x).__name__ if isinstance(x, Exception) else "neither the old nor the new result")


def shrink(spec):
    if spec.get("sweep"):
        part = spec["faults"][0][2]
        for k in range(24):
            for kind in KINDS:
                yield dict(spec, sweep=False, faults=[[kind, k, part]])
        return
    if spec["old"]:
        yield dict(spec, old=False)
    if spec["runs"] > 1:
        yield dict(spec, runs=spec["runs"] - 1)
    for i in range(len(spec["faults"])):
        yield dict(spec, faults=spec["faults"][:i] + spec["faults"][i + 1:])
    if spec["method"] != "cqm":
        yield dict(spec, method="cqm")
