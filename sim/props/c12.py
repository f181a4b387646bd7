from .. import core, qrun, services
from ..qrun import shrink  # noqa: F401
from .c09 import ASSUMPTIONS, COMPONENTS  # noqa: F401

ID = "C12"
PLAN = {"quick": {"runs": 600, "guard": 600}, "thorough": {"runs": 2500, "guard": 860}}
NEEDS = {"plan keeps all rules": 2, "plan breaks a rule": 5, "row read back": 3}
RULE = "one interleaving = service, kind of every answer in arrival order, and their order by energy"


def gen(rng, index, tier):
    if index % 5 == 4:
        return qrun.gen(rng, methods=("sim", "real", "bqm"), n_calls=2, dmax=("tight", 10), p_pair9=0.9)
    return qrun.gen(rng, methods=("sim", "real", "bqm"), n_calls=2)


def execute(spec, o):
    qrun.Runner(spec, o, sent).run()


def least(bqm, fixed):
    """Least energy over the free bits, exactly, one connected part after another."""
    lin, off = {}, bqm.offset
    for v, a in bqm.linear.items():
        if v in fixed:
            off += a * fixed[v]
        else:
            lin[v] = a
    near = {v: {} for v in lin}
    for (u, v), a in bqm.quadratic.items():
        if u in fixed and v in fixed:
            off += a * fixed[u] * fixed[v]
        elif u in fixed:
            lin[v] += a * fixed[u]
        elif v in fixed:
            lin[u] += a * fixed[v]
        else:
            near[u][v] = near[u].get(v, 0.0) + a
            near[v][u] = near[v].get(u, 0.0) + a
    seen = set()
    for v in lin:
        if v in seen:
            continue
        part, todo = [], [v]
        seen.add(v)
        while todo:
            u = todo.pop()
            part.append(u)
            for t in near[u]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        if len(part) > 13:
            return None
        part.sort()
        best = cur = 0.0
        on = set()
        for g in range(1, 1 << len(part)):          # Gray code: one bit changes at a time
            u = part[(g & -g).bit_length() - 1]
            d = lin[u] + sum(near[u][t] for t in on if t in near[u])
            if u in on:
                on.discard(u)
                cur -= d
            else:
                on.add(u)
                cur += d
            if cur < best:
                best = cur
        off += best
    return off


def code(off, wt, x):
    """Bits of a plan for the given way of reading them back, or None."""
    fixed = {}
    for k, v in enumerate(x):
        reach = {0: ()}
        for n, a in sorted(wt[k].items()):
            for s, bits in list(reach.items()):
                reach.setdefault(round(s + a), bits + (n,))
        want = round(v - off[k])
        if want not in reach:
            return k
        for n in wt[k]:
            fixed[n] = 1 if n in reach[want] else 0
    return fixed


def weight(pdict, name):
    return pdict[next(f for f in qrun.FAMS if name.startswith(f + "_"))]


def sent(run, I, c, hub, rec, err):
    o = run.o
    where = "%s, instance %s d_max %s" % (c["method"], I.dist, I.dmax)
    m = I.m
    if not hub.calls:
        if qrun.solvable(m):
            o.fail("conversion fails", "%s: %s" % (where, core.describe(err)))
        else:
            o.counters["unsolvable problem not converted"] += 1
        return
    if err is not None:
        o.fail("answer could not be read back", "%s: %s" % (where, core.describe(err)))
        return
    call = hub.calls[-1]
    bqm = call["problem"]
    off, wt = I.reader(list(bqm.variables))
    owner = {}
    for k, w in enumerate(wt):
        for n in w:
            owner.setdefault(n, []).append(k)
    for n, ks in owner.items():
        if len(ks) > 1:
            o.fail("bit shared by variables", "%s: %s" % (where, n))
            return
    o.evaluations += 1
    o.nontrivial = True
    rng = core.rng_for("plans", c["seed"])
    plans = services.Plans(m, rng)
    p = c["pdict"]
    for _ in range(8):
        kind, x = plans.draw(["feas", "feas", "near", "near", "rand", "zero"])
        at = {v.name: x[i] for i, v in enumerate(m.vars)}
        fixed = code(off, wt, x)
        if isinstance(fixed, int):
            o.fail("value cannot be encoded", "%s: %s = %s" % (where, m.vars[fixed].name, x[fixed]))
            return
        got = least(bqm, fixed)
        if got is None:
            o.counters["too many auxiliary bits"] += 1
            continue
        broken = {n: -I.value(n, x) for n in I.cons if I.value(n, x) < -1e-9}
        o.counters["plan breaks a rule" if broken else "plan keeps all rules"] += 1
        want = p["objective"] * I.objective(x) + sum(weight(p, n) * v * v for n, v in broken.items())
        if abs(got - want) > 1e-6 * max(1.0, abs(want)):
            o.fail("energy", "%s: least energy %s, expected %s (violations %s) at %s" % (where, got, want, broken, at))
            return
    readback(run, I, c, call, where, off, wt)


def readback(run, I, c, call, where, off, wt):
    """Every row of the answer, read back by the code under test."""
    import dimod
    import numpy as np
    from railway_solvers.railway_solvers import convert_to_bqm
    o = run.o
    with core.quiet():
        bqm, _, interp = convert_to_bqm(I.prob, c["pdict"])
        names = list(bqm.variables)
        rng = core.rng_for("rows", c["seed"])
        rows = [[r[n] for n in names] for r in call["rows"]]
        rows += [[rng.randint(0, 1) for _ in names] for _ in range(3)]
        rng.shuffle(rows)
        en = [bqm.energy(dict(zip(names, r))) for r in rows]
        back = interp(dimod.SampleSet.from_samples((np.array(rows, dtype=np.int8), names), "BINARY", en))
    got = sorted((round(float(d.energy), 6), tuple(I.vector(d.sample))) for d in back.data())
    want = sorted((round(float(e), 6), tuple(I.decode(dict(zip(names, r))))) for r, e in zip(rows, en))
    o.counters["row read back"] += len(rows)
    if len(got) != len(want):
        o.fail("rows lost", "%s: %d rows read back, %d answered" % (where, len(got), len(want)))
        return
    for g, w in zip(got, want):
        if abs(g[0] - w[0]) > 1e-5 or any(abs(a - b) > 1e-6 for a, b in zip(g[1], w[1])):
            o.fail("read back", "%s: plan with energy %s, expected energy %s; plans equal: %s" % (where, g[0], w[0], g[1] == w[1]))
            return
