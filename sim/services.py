"""Simulated solver services: answers, latency and failures are decided by a seed.

`SimHub` replaces the hub of the stub libraries.  Every request is logged; what
comes back is composed from plans of the dispatching problem (optimal, feasible,
nearly feasible, arbitrary) in a seeded order, with duplicates, ties, bit noise
and wrong slack bits, or the request fails.
"""
import math

import numpy as np

from . import core

KINDS = ("opt", "feas", "near", "rand", "zero", "dup", "tie")
BAD = ("near", "rand", "zero", "dup", "noise")     # counted as faults


class ServiceDown(Exception):
    """Connection lost, request rejected, or time-out at the remote side."""


def log_weights(lo, hi):
    """Weights of the bits of a log-encoded integer."""
    d = int(math.floor(math.log2(hi - lo)))
    return [2 ** i for i in range(d)] + [hi - lo - (2 ** d - 1)]


def to_bits(value, weights, rng=None):
    """Bits with sum(weights * bits) == value; one of several codes if there are several."""
    bits = [0] * len(weights)
    top = weights[-1]
    low = sum(weights[:-1])
    if value > low or (rng is not None and value >= top and value - top <= low and rng.random() < 0.3):
        bits[-1] = 1
        value -= top
    for i in range(len(weights) - 1):
        bits[i] = (value >> i) & 1
    return bits


class Plans:
    """Assignments of the variables of a dispatching problem (own exact model)."""

    def __init__(self, model, rng):
        self.m, self.rng = model, rng
        self._opt = None

    def whole(self, x):
        return [float(round(v)) for v in x]

    def optimum(self):
        if self._opt is None:
            status, x, val, _ = self.m.solve(node_limit=4000)
            self._opt = (status, None if x is None else self.whole(x), val)
        return self._opt

    def feasible(self):
        m, rng = self.m, self.rng
        lo, hi = list(m.lo), list(m.hi)
        for i in range(len(lo)):
            if not m.isbin[i] and rng.random() < 0.4:
                lo[i] = min(hi[i], lo[i] + rng.choice([0, 1, 2, 5, 9]))
        if not m.propagate(lo, hi, range(len(m.cons))):
            return None
        pick = [i for i in range(len(lo)) if m.isbin[i]]
        rng.shuffle(pick)
        for i in pick[:6]:
            if hi[i] - lo[i] < 0.5:
                continue
            v = float(rng.random() < 0.5)
            for val in (v, 1.0 - v):
                l2, h2 = list(lo), list(hi)
                l2[i] = h2[i] = val
                if m.propagate(l2, h2, list(m.watch[i])):
                    lo, hi = l2, h2
                    break
        _, x, _, _ = m.solve(lo, hi, first=True, node_limit=500)
        return None if x is None else self.whole(x)

    def near(self, x):
        m, rng = self.m, self.rng
        y = list(x)
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.randrange(len(y))
            if m.isbin[i]:
                y[i] = 1.0 - y[i]
            else:
                y[i] = min(m.hi[i], max(m.lo[i], y[i] + rng.choice([-2, -1, -1, 1, 1, 3])))
        return y

    def random(self):
        m, rng = self.m, self.rng
        small = rng.random() < 0.5
        return [float(rng.randint(0, 1)) if m.isbin[i] else
                float(rng.randint(int(m.lo[i]), int(min(m.hi[i], m.lo[i] + 3) if small else m.hi[i]))) for i in range(len(m.vars))]

    def draw(self, kinds):
        """One plan; returns (kind, x)."""
        k = self.rng.choice(kinds)
        x = None
        if k == "opt":
            x = self.optimum()[1]
        elif k in ("feas", "near"):
            x = self.feasible()
            if x is not None and k == "near":
                x = self.near(x)
        elif k == "zero":
            x = [float(v) for v in self.m.lo]
        if x is None:
            k, x = "rand", self.random()
        return k, x


def slack_need(terms, b, x):
    return sum(a * x[i] for i, a in terms) - b


class Answers:
    """Composes one response of a service."""

    def __init__(self, rng, conf):
        self.rng, self.conf = rng, conf

    def plans(self, model):
        p = Plans(model, self.rng)
        n = self.rng.randint(1, self.conf.get("rows", 8))
        rows = []
        for _ in range(n):
            if rows and self.rng.random() < self.conf.get("p_dup", 0.2):
                rows.append(("dup", list(self.rng.choice(rows)[1])))
            else:
                rows.append(p.draw(self.conf["kinds"]))
        return rows

    def bits(self, bqm, model, x, slack):
        """Bit string of a plan; slack bits exact, minimal, random, or noisy."""
        rng = self.rng
        names = list(bqm.variables)
        val = {}
        groups = {}
        for n in names:
            if n.endswith("]") and "[" in n:
                base, ix = n[:-1].rsplit("[", 1)
                groups.setdefault(base, []).append((int(ix), n))
            else:
                groups.setdefault(n, []).append((None, n))
        byname = {v.name: i for i, v in enumerate(model.vars)}
        cons = {c: k for k, c in enumerate(model.names)}
        for base, g in groups.items():
            g.sort(key=lambda t: -1 if t[0] is None else t[0])
            if base in byname:
                i = byname[base]
                if g[0][0] is None:
                    val[base] = int(x[i])
                    continue
                lo, hi = int(model.lo[i]), int(model.hi[i])
                w = log_weights(lo, hi)
                code = to_bits(int(x[i]) - lo, w, rng)
                if len(w) != len(g):    # another encoding than expected
                    code = [rng.randint(0, 1) for _ in g]
                for (ix, n), bit in zip(g, code):
                    val[n] = bit
            elif base in cons:
                terms, b = model.cons[cons[base]]
                ub = int(round(sum(a * (model.hi[i] if a > 0 else model.lo[i]) for i, a in terms) - b))
                need = int(round(slack_need(terms, b, x)))
                w = log_weights(0, ub) if ub > 0 else []
                s = min(max(need, 0), ub)
                if slack == "random" or (slack == "noisy" and rng.random() < 0.2):
                    s = rng.randint(0, max(ub, 0))
                code = to_bits(s, w, rng) if len(w) == len(g) else [rng.randint(0, 1) for _ in g]
                for (ix, n), bit in zip(g, code):
                    val[n] = bit
            else:
                for _, n in g:
                    val[n] = rng.randint(0, 1)
        return names, [val[n] for n in names]


class SimHub:
    """Hub of one simulated process (or of several, with a shared clock)."""

    def __init__(self, seed, conf, clock, current_model):
        self.seed, self.conf, self.clock = seed, conf, clock
        self.current_model = current_model      # () -> exact model of the dispatching problem being solved
        self.calls = []

    # -- common ---------------------------------------------------------------
    def begin(self, service, problem, params):
        k = len(self.calls)
        rng = core.rng_for("service", self.seed, k)
        fault = None
        lat = rng.choice([0.25, 1.5, 5.0, 17.0, 60.5])
        call = {"k": k, "service": service, "params": dict(params), "problem": problem, "latency": lat, "fault": None,
                "token": "request-%s-%d" % (self.seed, k), "start": self.clock.mono, "rows": None}
        self.calls.append(call)
        faults = self.conf.get("faults", {})
        x = rng.random()
        for name, p in faults.items():
            x -= p
            if x < 0:
                fault = name
                break
        call["fault"] = fault
        half = lat / 2
        self.clock.sleep(half)
        if self.conf.get("steps") and rng.random() < self.conf["steps"]:
            call["step"] = rng.choice([-3600.0, -30.0, -1.0, 0.5, 45.0, 7200.0])
            self.clock.step(call["step"])
        self.clock.sleep(lat - half)
        call["end"] = self.clock.mono
        if fault == "down":
            raise ServiceDown("simulated loss of the service, request %d" % k)
        return rng, call

    def info(self, rng, call):
        return {"token": call["token"], "timing": {"qpu_access_time": round(call["latency"] * 1e6)},
                "run_time": round(call["latency"] * 1e6), "qpu_access_time": round(call["latency"] * 1e3) + call["k"]}

    # -- annealers ---------------------------------------------------------------
    def _bqm(self, service, bqm, params):
        import dimod
        rng, call = self.begin(service, bqm, params)
        if call["fault"] == "empty":
            call["rows"] = []
            return dimod.SampleSet.from_samples((np.empty((0, len(list(bqm.variables))), dtype=np.int8), list(bqm.variables)),
                                                "BINARY", [], info=self.info(rng, call))
        a = Answers(rng, self.conf)
        model = self.current_model()
        rows, kinds, names = [], [], None
        for kind, x in a.plans(model):
            names, b = a.bits(bqm, model, x, rng.choice(self.conf.get("slack", ["exact", "noisy", "random"])))
            if rng.random() < self.conf.get("p_noise", 0.2):
                kind = "noise"
                for _ in range(rng.choice([1, 2, len(b) // 4 or 1])):
                    i = rng.randrange(len(b))
                    b[i] ^= 1
            rows.append(b)
            kinds.append(kind)
        order = list(range(len(rows)))
        rng.shuffle(order)
        rows, kinds = [rows[i] for i in order], [kinds[i] for i in order]
        en = [bqm.energy(dict(zip(names, r))) for r in rows]
        call["rows"] = [dict(zip(names, r)) for r in rows]
        call["energies"], call["kinds"] = en, kinds
        vec = {}
        if service == "qpu":
            vec["chain_break_fraction"] = [rng.choice([0.0, 0.1, 0.5]) for _ in rows]
        return dimod.SampleSet.from_samples((np.array(rows, dtype=np.int8), names), "BINARY", en, info=self.info(rng, call),
                                            num_occurrences=[rng.choice([1, 1, 3]) for _ in rows], **vec)

    def neal(self, bqm, params):
        return self._bqm("neal", bqm, params)

    def qpu(self, bqm, params):
        return self._bqm("qpu", bqm, params)

    def hybrid_bqm(self, bqm, properties, params):
        return self._bqm("hybrid_bqm", bqm, dict(params, properties=dict(properties)))

    # -- constrained hybrid ---------------------------------------------------------
    def hybrid_cqm(self, cqm, properties, params):
        import dimod
        rng, call = self.begin("hybrid_cqm", cqm, dict(params, properties=dict(properties)))
        names = list(cqm.variables)
        if call["fault"] == "empty":
            call["rows"] = []
            return dimod.SampleSet.from_samples((np.empty((0, len(names))), names), "INTEGER", [], info=self.info(rng, call))
        a = Answers(rng, self.conf)
        model = self.current_model()
        rows, kinds = [], []
        for kind, x in a.plans(model):
            at = {v.name: x[i] for i, v in enumerate(model.vars)}
            rows.append([at.get(n, 0.0) for n in names])
            kinds.append(kind)
        if self.conf.get("exact"):
            y = exact_cqm(cqm)
            if y is not None:
                rows = [y] if self.conf["exact"] == "only" else rows + [y]
                kinds = (["service optimum"] if self.conf["exact"] == "only" else kinds + ["service optimum"])
        order = list(range(len(rows)))
        rng.shuffle(order)
        rows, kinds = [rows[i] for i in order], [kinds[i] for i in order]
        dicts = [dict(zip(names, r)) for r in rows]
        en = [cqm.objective.energy(d) for d in dicts]
        sat = [cqm.satisfied(d) for d in dicts]
        call["rows"], call["energies"], call["kinds"] = dicts, en, kinds
        return dimod.SampleSet.from_samples(
            (np.array(rows, dtype=rng.choice([np.float64, np.int64])), names), "INTEGER", en, info=self.info(rng, call),
            is_feasible=[all(s.values()) for s in sat], is_satisfied=[list(s.values()) for s in sat])

    # -- linear solver -------------------------------------------------------------------
    def lp(self, solver, prob):
        """External solver binary: sets values and status as PuLP does after reading the solution file."""
        from pulp import PulpSolverError, _exact, constants as const
        rng, call = self.begin("lp", prob, {"timeLimit": solver.timeLimit, "name": solver.name})
        m = _exact.Model(prob)
        call["model"] = m
        outcome = call["fault"] or "optimal"
        status, x, val, _ = m.solve(node_limit=self.conf.get("nodes", 3000))
        if status == "infeasible":
            outcome = outcome if outcome in ("crash", "limit_none") else "infeasible"
        elif x is None:
            outcome = outcome if outcome == "crash" else "limit_none"
        elif status == "limit" and outcome == "optimal":
            outcome = "limit_plan"
        elif outcome == "limit_plan":
            y = Plans(m, rng).feasible()
            x = y if y is not None else x
        call["outcome"] = outcome
        if outcome == "crash":
            raise PulpSolverError("PuLP: Error while executing %s" % solver.name)
        if outcome == "infeasible":
            # the solution file of an infeasible problem holds whatever the solver had last
            for i, v in enumerate(m.vars):
                v.varValue = rng.choice([0.0, float(m.lo[i]), 1.0, 0.5, float(rng.randint(0, 50))])
            if rng.random() < 0.5:
                for v in m.vars:
                    v.varValue = 0.0
            prob.assignStatus(const.LpStatusInfeasible, const.LpSolutionInfeasible)
            return prob.status
        if outcome == "limit_none":
            for v in m.vars:
                v.varValue = None if self.conf.get("none_values", rng.random() < 0.5) else 0.0
            prob.assignStatus(const.LpStatusNotSolved, const.LpSolutionNoSolutionFound)
            return prob.status
        noise = self.conf.get("noise", 0.0)
        call["x"] = [float(round(v)) if m.isint[i] else float(v) for i, v in enumerate(x)]
        for i, v in enumerate(m.vars):
            v.varValue = call["x"][i]
            if noise:
                v.varValue += rng.choice([0.0, noise, -noise, noise / 7])
                if m.lo[i] == m.hi[i]:
                    v.varValue = call["x"][i]
        if outcome == "limit_plan":
            prob.assignStatus(const.LpStatusOptimal, const.LpSolutionIntegerFeasible)
        else:
            prob.assignStatus(const.LpStatusOptimal, const.LpSolutionOptimal)
        return prob.status


def cqm_model(cqm):
    """Exact model of a received constrained model (linear constraints)."""
    from pulp import _exact, constants as const

    class V:
        pass

    class P:
        pass

    p = P()
    vs = []
    by = {}
    for n in cqm.variables:
        v = V()
        v.name = n
        v.lowBound, v.upBound = cqm.lower_bound(n), cqm.upper_bound(n)
        v.cat = const.LpInteger
        vs.append(v)
        by[n] = v
    p.variables = lambda: vs
    p.sense = 1

    class C:
        def __init__(self, lin, constant, sense=None):
            self.lin, self.constant, self.sense = lin, constant, sense

        def items(self):
            return [(by[n], a) for n, a in self.lin.items() if a]

    sense = {"<=": const.LpConstraintLE, ">=": const.LpConstraintGE, "==": const.LpConstraintEQ}
    p.constraints = {n: C(c.lhs.linear, c.lhs.offset - c.rhs, sense[c.sense]) for n, c in cqm.constraints.items()}
    p.objective = C(cqm.objective.linear, cqm.objective.offset)
    return _exact.Model(p)


def exact_cqm(cqm):
    m = cqm_model(cqm)
    status, x, _, _ = m.solve(node_limit=4000)
    if x is None or status != "optimal":
        return None
    at = {v.name: float(round(x[i])) for i, v in enumerate(m.vars)}
    return [at[n] for n in cqm.variables]
