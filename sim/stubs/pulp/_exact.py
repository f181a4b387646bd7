"""Exact branch and bound for the problems the code under test builds.

Stands for the external LP/MIP solver.  Handles bounded variables, arbitrary
linear constraints over 0/1 order variables, and difference constraints on the
remaining variables, for which componentwise least solutions are optimal when
all objective coefficients are non-negative.
"""
import math

from simhooks import Unsupported
from . import constants as const

EPS = 1e-7


class Model:
    """Flat form: variables 0..n-1, constraints sum a_i x_i >= b."""

    def __init__(self, prob):
        vs = prob.variables()
        self.vars = vs
        self.index = {id(v): i for i, v in enumerate(vs)}
        self.lo = [float("-inf") if v.lowBound is None else float(v.lowBound) for v in vs]
        self.hi = [float("inf") if v.upBound is None else float(v.upBound) for v in vs]
        self.isint = [v.cat == const.LpInteger for v in vs]
        self.isbin = [self.isint[i] and self.lo[i] == 0 and self.hi[i] == 1 for i in range(len(vs))]
        self.cons = []
        self.names = []
        for name, c in prob.constraints.items():
            terms = [(self.index[id(v)], float(x)) for v, x in c.items()]
            b = -float(c.constant)
            if c.sense in (const.LpConstraintGE, const.LpConstraintEQ):
                self.cons.append((terms, b))
                self.names.append(name)
            if c.sense in (const.LpConstraintLE, const.LpConstraintEQ):
                self.cons.append(([(i, -x) for i, x in terms], -b))
                self.names.append(name)
        self.obj = [0.0] * len(vs)
        self.obj0 = 0.0
        if prob.objective is not None:
            self.obj0 = float(prob.objective.constant)
            for v, x in prob.objective.items():
                self.obj[self.index[id(v)]] += float(x) * prob.sense
        self.watch = [[] for _ in vs]
        for k, (terms, b) in enumerate(self.cons):
            for i, _ in terms:
                self.watch[i].append(k)

    def propagate(self, lo, hi, queue):
        """Bound propagation to a fixpoint; False on conflict."""
        cons = self.cons
        isint = self.isint
        inq = set(queue)
        queue = list(queue)
        head = 0
        guard = 0
        while head < len(queue):
            k = queue[head]
            head += 1
            inq.discard(k)
            guard += 1
            if guard > 2000000:
                raise Unsupported("propagation does not converge")
            terms, b = cons[k]
            mx = 0.0
            for i, a in terms:
                mx += a * (hi[i] if a > 0 else lo[i])
            if mx < b - EPS:
                return False
            if mx == float("inf"):
                continue
            for i, a in terms:
                if a > 0:
                    new = (b - (mx - a * hi[i])) / a
                    if isint[i]:
                        new = math.ceil(new - EPS)
                    if new > lo[i] + (0 if isint[i] else EPS):
                        if new > hi[i] + EPS:
                            return False
                        lo[i] = new
                        for m in self.watch[i]:
                            if m not in inq:
                                inq.add(m)
                                queue.append(m)
                else:
                    new = (b - (mx - a * lo[i])) / a
                    if isint[i]:
                        new = math.floor(new + EPS)
                    if new < hi[i] - (0 if isint[i] else EPS):
                        if new < lo[i] - EPS:
                            return False
                        hi[i] = new
                        for m in self.watch[i]:
                            if m not in inq:
                                inq.add(m)
                                queue.append(m)
            if head > 10000:
                queue = queue[head:]
                head = 0
        return True

    def feasible_at_least(self, lo, hi):
        """Are all constraints satisfied at x = lo?  Returns violated index or None."""
        for k, (terms, b) in enumerate(self.cons):
            s = 0.0
            for i, a in terms:
                s += a * lo[i]
            if s < b - 1e-6:
                return k
        return None

    def solve(self, lo=None, hi=None, first=False, node_limit=None):
        """Minimise; returns (status, x, objective, nodes).

        status: 'optimal', 'infeasible', 'limit' (x may be None).
        With first=True the first feasible point is returned.
        """
        lo = list(self.lo if lo is None else lo)
        hi = list(self.hi if hi is None else hi)
        best = None
        best_obj = float("inf")
        nodes = 0
        if any(lo[i] > hi[i] + EPS for i in range(len(lo))):
            return "infeasible", None, None, 0
        stack = [(lo, hi, list(range(len(self.cons))))]
        while stack:
            lo, hi, queue = stack.pop()
            nodes += 1
            if node_limit is not None and nodes > node_limit:
                return "limit", best, (best_obj if best else None), nodes
            if not self.propagate(lo, hi, queue):
                continue
            bound = sum(c * (lo[i] if c > 0 else hi[i]) for i, c in enumerate(self.obj) if c)
            if bound >= best_obj - 1e-9:
                continue
            # branch on an undecided 0/1 variable of a constraint violated at the least point
            x = lo
            cand = None
            viol = None
            for k, (terms, b) in enumerate(self.cons):
                s = 0.0
                for i, a in terms:
                    s += a * x[i]
                if s < b - 1e-6:
                    viol = k
                    for i, a in terms:
                        if self.isbin[i] and hi[i] - lo[i] > 0.5:
                            cand = i
                            break
                    if cand is not None:
                        break
            if viol is None:
                if any(c < 0 and hi[i] > lo[i] + EPS for i, c in enumerate(self.obj)):
                    raise Unsupported("objective with negative coefficients")
                best, best_obj = list(x), bound
                if first:
                    return "optimal", best, best_obj + self.obj0, nodes
                continue
            if cand is None:
                # not a difference system: branch on any undecided 0/1 variable, then on integers
                for i in range(len(lo)):
                    if self.isbin[i] and hi[i] - lo[i] > 0.5:
                        cand = i
                        break
            if cand is None:
                for i, a in self.cons[viol][0]:
                    if self.isint[i] and hi[i] - lo[i] > 0.5:
                        cand = i
                        break
            if cand is None:
                raise Unsupported("linear system outside the supported class")
            if self.isbin[cand]:
                for val in (1.0, 0.0):
                    l2, h2 = list(lo), list(hi)
                    l2[cand] = h2[cand] = val
                    stack.append((l2, h2, list(self.watch[cand])))
            else:
                mid = math.floor((lo[cand] + hi[cand]) / 2)
                l2, h2 = list(lo), list(hi)
                l2[cand] = mid + 1
                stack.append((l2, h2, list(self.watch[cand])))
                l3, h3 = list(lo), list(hi)
                h3[cand] = mid
                stack.append((l3, h3, list(self.watch[cand])))
        if best is None:
            return "infeasible", None, None, nodes
        return "optimal", best, best_obj + self.obj0, nodes


def solve_problem(prob, node_limit=None):
    """Solve and assign values and statuses as a healthy solver would."""
    m = Model(prob)
    status, x, _, nodes = m.solve(node_limit=node_limit)
    if x is not None:
        for v, val in zip(m.vars, x):
            v.varValue = float(val)
    if status == "optimal":
        prob.assignStatus(const.LpStatusOptimal, const.LpSolutionOptimal)
    elif status == "infeasible":
        for v in m.vars:
            v.varValue = 0.0
        prob.assignStatus(const.LpStatusInfeasible, const.LpSolutionInfeasible)
    elif x is not None:
        prob.assignStatus(const.LpStatusOptimal, const.LpSolutionIntegerFeasible)
    else:
        for v in m.vars:
            v.varValue = 0.0
        prob.assignStatus(const.LpStatusNotSolved, const.LpSolutionNoSolutionFound)
    return prob.status
