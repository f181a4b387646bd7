import numpy as np

from .. import core, qrun, services
from ..qrun import shrink  # noqa: F401
from .c09 import ASSUMPTIONS, COMPONENTS  # noqa: F401

ID = "C10"
PLAN = {"quick": {"runs": 600, "guard": 600}, "thorough": {"runs": 3000, "guard": 860}}
NEEDS = {"best feasible recorded": 0.5, "least energy recorded": 0.3, "failed response": 0.2, "empty response": 0.1, "arrival permuted": 1}
RULE = "one interleaving = service, kind of every answer in arrival order, and their order by energy"


def conf(rng):
    return {"faults": rng.choice([{}, {}, {"down": 0.3, "empty": 0.3}]), "rows": rng.choice([2, 4, 8, 12]),
            "p_dup": rng.choice([0.0, 0.3, 0.6])}


def gen(rng, index, tier):
    return qrun.gen(rng, conf=conf)


def execute(spec, o):
    qrun.Runner(spec, o, best).run()


class Again(services.SimHub):
    """The same answers in another order, some twice, some worse ones appended."""

    def __init__(self, seed, clock, rows, infeasible_only):
        super().__init__(seed, {}, clock, None)
        self.fixed = rows

    def _answer(self, service, problem, params, vartype):
        import dimod
        rng, call = self.begin(service, problem, params)
        rows = [dict(r) for r in self.fixed]
        rows += [dict(rng.choice(self.fixed)) for _ in range(rng.choice([0, 1, 4]))]
        rng.shuffle(rows)
        names = list(problem.variables)
        en = [(problem.energy(r) if vartype == "BINARY" else problem.objective.energy(r)) for r in rows]
        call["rows"], call["energies"], call["kinds"] = rows, en, ["again"] * len(rows)
        return dimod.SampleSet.from_samples((np.array([[r[n] for n in names] for r in rows]), names), vartype, en,
                                            info=self.info(rng, call))

    def _bqm(self, service, bqm, params):
        return self._answer(service, bqm, params, "BINARY")

    def hybrid_cqm(self, cqm, properties, params):
        return self._answer("hybrid_cqm", cqm, params, "INTEGER")


def best(run, I, c, hub, rec, err):
    o = run.o
    if not hub.calls:
        return
    call = hub.calls[-1]
    where = "%s, instance %s d_max %s" % (c["method"], I.dist, I.dmax)
    if call["fault"]:
        o.counters["failed response" if call["fault"] == "down" else "empty response"] += 1
        o.evaluations += 1
        if rec is not None:
            o.fail("record of a failed response", "%s (%s): %s" % (where, call["fault"], rec))
        return
    if err is not None:
        o.fail("answers could not be evaluated", "%s: %s" % (where, core.describe(err)))
        return
    q = quality(o, I, call, rec, where)
    if q is None:
        return
    again = Again(c["seed"], run.clock, call["rows"], False)
    rec2, err2 = run.solve(I, c, again)
    if err2 is not None:
        o.fail("answers could not be evaluated", "%s, permuted: %s" % (where, core.describe(err2)))
        return
    o.counters["arrival permuted"] += 1
    q2 = quality(o, I, again.calls[-1], rec2, where + ", permuted")
    if q2 is not None and (q[0] != q2[0] or abs(q[1] - q2[1]) > 1e-6):
        o.fail("quality depends on arrival order", "%s: %s and %s" % (where, q, q2))


def quality(o, I, call, rec, where):
    """(feasible, objective or energy) of the record; compared with the best the service returned."""
    rows = I.rows(call)
    if any(y is None for y in rows):
        raise core.HarnessError("row without a variable")
    good = [I.objective(y) for y in rows if all(I.satisfied(y).values())]
    x = I.vector(rec["sample"])
    o.evaluations += 1
    o.nontrivial = True
    if x is None:
        o.fail("recorded sample is no plan", where)
        return None
    if good:
        o.counters["best feasible recorded"] += 1
        if not all(I.satisfied(x).values()):
            o.fail("infeasible answer kept although a feasible one came", "%s: objectives of feasible ones %s" % (where, sorted(good)[:4]))
            return None
        if I.objective(x) > min(good) + 1e-6:
            o.fail("worse answer kept", "%s: %s instead of %s" % (where, I.objective(x), min(good)))
            return None
        return True, I.objective(x)
    o.counters["least energy recorded"] += 1
    if rec["feasible"]:
        o.fail("no feasible answer came but one is recorded", where)
        return None
    e = [call["energies"][i] for i, y in enumerate(rows) if y == x]
    if not e or min(e) > min(call["energies"]) + 1e-6:
        o.fail("answer of higher energy kept", "%s: %s instead of %s" % (where, e, min(call["energies"])))
        return None
    if abs(float(rec["energy"]) - min(call["energies"])) > 1e-6:
        o.fail("recorded energy", "%s: %s instead of %s" % (where, rec["energy"], min(call["energies"])))
        return None
    return False, min(call["energies"])
