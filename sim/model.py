"""The prepared dispatching problem of the real code, seen from outside."""
import os
import re
import shutil
import tempfile

from . import core, ref, world as W

FAMILY = [("minimal_span", "headway"), ("single_line", "single"), ("track_occupation", "track"),
          ("switch", "switch"), ("minimal_stay", "causal"), ("circulation", "causal")]
PROP_OF = {"headway": "C01", "single": "C02", "track": "C03", "switch": "C04", "causal": "C05"}

_MANGLE = str.maketrans("-+[] ->/", "________")


def var_name(no, s):
    return ("Delays_%s_%s" % (no, s)).translate(_MANGLE)


def family(cname):
    for p, f in FAMILY:
        if cname.startswith(p):
            return f
    return "other"


class scratch:
    """A private directory, removed afterwards."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-sim-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Prepared:
    """World prepared by the real code through its files."""

    def __init__(self, world, r, directory=None):
        import helpers as h
        import data_formatting.data_formatting as df
        self.world = world
        self.h, self.df = h, df
        with scratch() as d, core.quiet():
            if "shipped" in world:
                p_csv, p_net, p_st = W.shipped_paths(world["shipped"], core.REPO)
            else:
                p_csv, p_net, p_st = W.write_files(world, d)
            self.data_paths = h.load_data_paths(p_net)
            self.stations = h.load_important_stations(p_st)
            self.train_dict = h.build_timetables(p_csv, False, self.stations, self.data_paths)
            self.skip = df.get_skip_stations(self.train_dict)
            self.taus = h.make_taus(self.train_dict, self.stations, r)
            self.timetable = h.make_timetable(self.train_dict, self.stations, self.skip, world["tref"], self.taus)
            self.train_set = h.make_train_set(self.train_dict, self.stations, self.data_paths, self.skip)

    def disturbed(self, dist):
        tt = dict(self.timetable)
        ic = tt["initial_conditions"]
        for no in self.train_set["J"]:
            if dist.get(no):
                ic = self.df.add_delay(ic, no, dist[no])
        tt["initial_conditions"] = ic
        return tt

    def disturbed_exactly(self, dist):
        """Disturbance without relying on the code's own injection (own property)."""
        tt = dict(self.timetable)
        ic = dict(tt["initial_conditions"])
        for no, path in self.train_set["Paths"].items():
            k = "%s_%s" % (no, path[0])
            if dist.get(no):
                ic[k] = ic[k] + dist[no]
        tt["initial_conditions"] = ic
        return tt

    def problem(self, dist, d_max, cat):
        from railway_solvers.railway_solvers import create_linear_problem
        tt = self.disturbed_exactly(dist)
        with core.quiet():
            prob = create_linear_problem(self.train_set, tt, d_max, cat)
        return Problem(self, tt, prob, d_max)


class Problem:
    def __init__(self, prep, timetable, prob, d_max):
        from pulp import _exact
        self.prep, self.timetable, self.prob, self.d_max = prep, timetable, prob, d_max
        self.model = _exact.Model(prob)
        self.names = [v.name for v in self.model.vars]
        self.where = {n: i for i, n in enumerate(self.names)}

    def earliest(self, no, s):
        from railway_solvers.railway_solvers import earliest_dep_time
        return float(earliest_dep_time(self.prep.train_set["Paths"], self.timetable, no, s))

    def delay_vars(self, rail):
        """(no, s) -> index for the departures the problem decides."""
        out = {}
        for no, T in rail.trains.items():
            for s in T.leaves:
                i = self.where.get(var_name(no, s))
                if i is not None:
                    out[no, s] = i
        return out

    def bounds(self, rail, dep):
        lo, hi = list(self.model.lo), list(self.model.hi)
        dv = self.delay_vars(rail)
        for (no, s), t in dep.items():
            # a departure that no rule and no weight refers to has no variable; the limits still hold
            if (no, s) not in dv and not -ref.TOL <= t - self.earliest(no, s) <= self.d_max + ref.TOL:
                return None
        for (no, s), i in dv.items():
            d = dep[no, s] - self.earliest(no, s)
            if d < lo[i] - ref.TOL or d > hi[i] + ref.TOL:
                return None
            d = min(max(d, lo[i]), hi[i])
            lo[i] = hi[i] = d
        return lo, hi

    def accepts(self, rail, dep):
        """Is there an order of the trains with which the departures are a feasible plan?"""
        b = self.bounds(rail, dep)
        if b is None:
            return False
        status, x, _, _ = self.model.solve(b[0], b[1], first=True, node_limit=20000)
        if status == "limit":
            raise core.HarnessError("acceptance search exceeded its node limit")
        return x is not None

    def blame(self, rail, dep):
        """Families whose removal makes a rejected history acceptable."""
        b = self.bounds(rail, dep)
        if b is None:
            return ["causal"]
        out = []
        m = self.model
        cons, names, watch = m.cons, m.names, m.watch
        try:
            for fam in ("headway", "single", "track", "switch", "causal"):
                keep = [k for k in range(len(cons)) if family(names[k]) != fam]
                m.cons = [cons[k] for k in keep]
                m.names = [names[k] for k in keep]
                m.watch = [[] for _ in m.vars]
                for k, (terms, _) in enumerate(m.cons):
                    for i, _ in terms:
                        m.watch[i].append(k)
                status, x, _, _ = m.solve(b[0], b[1], first=True, node_limit=20000)
                if x is not None:
                    out.append(fam)
        finally:
            m.cons, m.names, m.watch = cons, names, watch
        return out or ["several"]

    def departures(self, rail, x):
        """Plan of a solution vector; departures without a variable happen as early as possible."""
        dv = self.delay_vars(rail)
        dep = {}
        for no, T in rail.trains.items():
            for s in T.leaves:
                i = dv.get((no, s))
                e = self.earliest(no, s)
                dep[no, s] = e + (x[i] if i is not None else 0.0)
        return dep

    def free_departures(self, rail):
        dv = self.delay_vars(rail)
        return [(no, s) for no, T in rail.trains.items() for s in T.leaves if (no, s) not in dv]
