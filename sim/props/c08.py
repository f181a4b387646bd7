from .. import core, qrun, ref, services
from ..qrun import shrink  # noqa: F401
from .c09 import ASSUMPTIONS, COMPONENTS  # noqa: F401

ID = "C08"
PLAN = {"quick": {"runs": 600, "guard": 600}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"plan valued": 10, "delayed at the goal": 2, "shunting train": 0.3}
RULE = "one interleaving = service, kind of every answer in arrival order, and their order by energy"


def gen(rng, index, tier):
    if index % 2:
        return qrun.gen(rng, n_calls=2, n_trains=rng.choice([3, 4, 5, 6]), numbers="related", p_pair9=rng.choice([0.3, 0.9]))
    return qrun.gen(rng, n_calls=2)


def execute(spec, o):
    qrun.Runner(spec, o, answered, plans).run()


def published(run, I, data):
    """Contributions in the published timetable."""
    import datetime
    h, p = run.prep.h, run.prep
    with core.quiet():
        sched = h.print_optimisation_results(I.prob, I.pr.timetable, p.train_set, p.taus, p.skip, I.dmax,
                                             datetime.datetime(2022, 5, 9, 16, 0), data)
    return {(j, s): d["impact_to_objective"] for j, t in sched.items() for s, d in t.items() if "impact_to_objective" in d}


def compare(run, I, x, where, values, data):
    o = run.o
    dep = I.departures(x)
    want = ref.objective(run.rail, I.dist, dep, I.dmax)
    o.evaluations += 1
    o.nontrivial = True
    o.counters["plan valued"] += 1
    E = run.rail.earliest(I.dist)
    for no in run.rail.order:
        if no in run.rail.shunt:
            o.counters["shunting train"] += 1
        if dep[no, run.rail.goal(no)] > E[no, run.rail.goal(no)] + 0.5:
            o.counters["delayed at the goal"] += 1
    for name, v in values:
        if abs(float(v) - want) > 1e-6:
            o.fail(name, "%s: %s instead of %s; weights %s" % (where, v, want, {no: run.rail.weight(no) for no in run.rail.order}))
            return
    pub = published(run, I, data)
    if abs(sum(pub.values()) - want) > 1e-6:
        own = {no: run.rail.weight(no) * (dep[no, run.rail.goal(no)] - E[no, run.rail.goal(no)]) / I.dmax for no in run.rail.order}
        o.fail("published contributions", "%s: they add up to %s instead of %s; published %s, expected per train %s"
               % (where, sum(pub.values()), want, {k: v for k, v in pub.items() if v}, {k: v for k, v in own.items() if v}))


def plans(run, I, inst):
    """Plans as left behind by the linear solver."""
    import pulp
    from railway_solvers.railway_solvers import get_objective
    m = I.m
    rng = core.rng_for("plans", inst["dmax"], repr(inst["dist"]))
    p = services.Plans(m, rng)
    for _ in range(5):
        kind, x = p.draw(["opt", "feas", "near", "rand"])
        for v, val in zip(m.vars, x):
            v.varValue = float(val)
        at = {v.name: val for v, val in zip(m.vars, x)}
        values = [("minimised value", pulp.value(I.prob.objective)), ("evaluated value", get_objective(I.prob, at))]
        compare(run, I, x, "instance %s d_max %s, %s plan" % (I.dist, I.dmax, kind), values, [])


def answered(run, I, c, hub, rec, err):
    if rec is None:
        return
    x = I.vector(rec["sample"])
    if x is None:
        return
    compare(run, I, x, "%s, instance %s d_max %s" % (c["method"], I.dist, I.dmax), [("recorded value", rec["objective"])], rec["sample"])
