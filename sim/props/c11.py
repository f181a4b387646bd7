from .. import core, qrun, services
from ..qrun import shrink  # noqa: F401
from .c09 import ASSUMPTIONS, COMPONENTS  # noqa: F401

ID = "C11"
PLAN = {"quick": {"runs": 600, "guard": 600}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"service optimum": 0.5, "assignment breaks a rule": 5, "assignment keeps all rules": 2}
RULE = "one interleaving = kind of every answer in arrival order, and their order by energy"


def conf(rng):
    return {"exact": rng.choice([False, True, "only", "only"]), "faults": {}}


def gen(rng, index, tier):
    spec = qrun.gen(rng, methods=("cqm",), conf=conf)
    for i in spec["inst"]:
        i["probe"] = rng.randrange(1 << 30)
    return spec


def execute(spec, o):
    r = qrun.Runner(spec, o, sent)
    r.run()


def sent(run, I, c, hub, rec, err):
    o = run.o
    where = "instance %s d_max %s" % (I.dist, I.dmax)
    if not hub.calls:
        o.fail("conversion fails", "%s: %s" % (where, core.describe(err)))
        return
    if err is not None:
        o.fail("answer could not be evaluated", "%s: %s" % (where, core.describe(err)))
        return
    call = hub.calls[-1]
    cqm = call["problem"]
    m = I.m
    names = [v.name for v in m.vars]
    o.evaluations += 1
    o.nontrivial = True
    if set(map(str, cqm.variables)) != set(names):
        o.fail("variables", "%s: only in one of the problems: %s" % (where, sorted(set(cqm.variables) ^ set(names))[:6]))
        return
    for i, n in enumerate(names):
        kind = str(cqm.vartype(n))
        if "BINARY" not in kind and "INTEGER" not in kind:
            o.fail("variable type", "%s: %s is %s" % (where, n, kind))
        r = (cqm.lower_bound(n), cqm.upper_bound(n))
        if r != (m.lo[i], m.hi[i]):
            o.fail("variable range", "%s: %s in %s instead of %s" % (where, n, r, (m.lo[i], m.hi[i])))
    if set(cqm.constraints) != set(I.cons):
        o.fail("rules", "%s: only in one of the problems: %s" % (where, sorted(set(cqm.constraints) ^ set(I.cons))[:6]))
        return
    rng = core.rng_for("assignments", c["seed"])
    plans = services.Plans(m, rng)
    for _ in range(14):
        kind, x = plans.draw(["feas", "near", "near", "rand", "zero"])
        at = dict(zip(names, x))
        want = I.satisfied(x)
        got = cqm.satisfied(at)
        o.counters["assignment keeps all rules" if all(want.values()) else "assignment breaks a rule"] += 1
        diff = [n for n in want if bool(got[n]) != want[n]]
        if diff:
            o.fail("satisfied rules", "%s: %s differ at %s" % (where, diff[:4], at))
            return
        e = cqm.objective.energy(at)
        if abs(e - I.objective(x)) > 1e-6:
            o.fail("objective", "%s: %s instead of %s at %s" % (where, e, I.objective(x), at))
            return
    if "service optimum" in call["kinds"]:
        status, x, val, _ = m.solve(node_limit=4000)
        if status == "limit":
            o.counters["optimum unknown"] += 1
            return
        y = call["rows"][call["kinds"].index("service optimum")]
        x = I.vector(y)
        o.counters["service optimum"] += 1
        if status == "infeasible" or not all(I.satisfied(x).values()) or I.objective(x) > val + 1e-6:
            o.fail("optimum of the service", "%s: plan %s, objective %s, optimum %s" % (where, y, I.objective(x), val))
        elif not rec["feasible"] or float(rec["objective"]) > val + 1e-6:
            o.fail("optimum of the service lost", "%s: recorded %s, optimum %s" % (where, rec["objective"], val))
