from .. import qrun, ref
from ..qrun import shrink  # noqa: F401

ID = "C09"
PLAN = {"quick": {"runs": 600, "guard": 600}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"recorded feasible": 0.5, "recorded infeasible": 0.5}
RULE = "one interleaving = service, kind of every answer in arrival order, and their order by energy"
COMPONENTS = {
    "real": ["helpers.solve_on_quantum", "conversion to QUBO/CQM, submission, interpretation and evaluation of answers",
             "preparation and model building"],
    "simulated": ["dimod, pyqubo, neal, dwave.system, PuLP (sim/stubs)", "annealer, QPU and hybrid services (sim/services.py)", "clock"],
}
ASSUMPTIONS = ["the stand-in libraries follow the documented behaviour of dimod 0.12, pyqubo 1.3, neal 0.6, dwave-system 1.17, PuLP 2.5",
               "services report true energies of the bit strings they return"]


def gen(rng, index, tier):
    return qrun.gen(rng)


def execute(spec, o):
    qrun.Runner(spec, o, verdicts).run()


def verdicts(run, I, c, hub, rec, err):
    o = run.o
    if err is not None or rec is None or not hub.calls:
        return
    call = hub.calls[-1]
    where = "%s, instance %s d_max %s" % (c["method"], I.dist, I.dmax)
    x = I.vector(rec["sample"])
    if x is None or not I.in_range(x):
        o.fail("recorded sample is no plan", "%s: %s" % (where, dict(rec["sample"])))
        return
    o.evaluations += 1
    o.nontrivial = True
    sat = I.satisfied(x)
    ok = all(sat.values())
    o.counters["recorded feasible" if rec["feasible"] else "recorded infeasible"] += 1
    if bool(rec["feasible"]) != ok:
        broken = [n for n in sat if not sat[n]]
        o.fail("feasibility verdict", "%s: recorded %s, broken rules %s, sample %s" % (where, rec["feasible"], broken[:5], dict(rec["sample"])))
    got, count = rec["feas_constraints"]
    diff = [n for n in set(got) | set(sat) if bool(got.get(n)) != bool(sat.get(n, None)) or n not in got]
    if diff:
        o.fail("list of satisfied rules", "%s: wrong for %s, sample %s" % (where, sorted(diff)[:5], dict(rec["sample"])))
    if int(count) != sum(sat.values()):
        o.fail("number of satisfied rules", "%s: %s instead of %s" % (where, count, sum(sat.values())))
    obj = I.objective(x)
    if abs(float(rec["objective"]) - obj) > 1e-6:
        o.fail("recorded objective", "%s: %s instead of %s" % (where, rec["objective"], obj))
    dep = I.departures(x)
    bad, loose = ref.judge(run.rail, I.dist, dep, I.dmax)
    if rec["feasible"] and bad:
        o.fail("unsafe plan recorded as feasible", "%s: %s" % (where, bad[0]))
    if bad:
        o.counters["recorded plan breaks a railway rule"] += 1
    match = [i for i, y in enumerate(I.rows(call)) if y == x]
    if not match:
        o.fail("recorded sample was never returned", "%s: %s" % (where, dict(rec["sample"])))
    elif not any(abs(float(rec["energy"]) - call["energies"][i]) < 1e-6 for i in match):
        o.fail("recorded energy", "%s: %s, the service said %s" % (where, rec["energy"], [call["energies"][i] for i in match]))
