"""The experiment scripts as simulated processes in a scratch directory."""
import io
import os
import pickle
import shutil
import sys

import greenlet

from . import core, disk as D, fresh, model, world as W
from .fresh import OWN, Finder as _Finder, _codes


def _script(name):
    path = os.path.join(core.REPO, name)
    if path not in _codes:
        with D._open(path, "rb") as f:
            _codes[path] = compile(f.read(), path, "exec", dont_inherit=True)
    return _codes[path]


class Router:
    """Hub of the stub libraries: requests go to the service of the running process."""

    def __init__(self, sim):
        self.sim = sim

    def __getattr__(self, name):
        p = self.sim.disk.current
        if p is None:
            raise core.HarnessError("service call outside a simulated process")
        f = getattr(p.hub, name)

        def call(*a, **k):
            if p.dead:
                raise D.SimKilled()
            p.calls += 1
            self.sim.point(p, "request", name)
            try:
                return f(*a, **k)
            finally:
                self.sim.point(p, "answer", name)
        return call


class Process:
    def __init__(self, pid, script, argv, hub, faults=None):
        self.pid, self.script, self.argv, self.hub = pid, script, argv, hub
        self.faults = dict(faults or {})    # operation number -> (kind, fraction)
        self.dead = False
        self.ops = self.calls = 0
        self.hit = []
        self.exit = None                    # "ok", "killed" or the exception
        self.modules = {}
        self.problems = []                  # linear problems created by the process
        hub.current_model = self.model
        self.namespace = {"__name__": "__main__", "__file__": script, "__builtins__": __builtins__}
        self.out = io.StringIO()            # what it prints
        self.cwd = ""                       # directory it runs in
        self.drawing = [None]               # current figure
        self.figures = []                   # (file name, calls of each of its axes)
        self.keep, self.kept = (), {}       # names of the script's variables wanted afterwards

    def model(self):
        """Exact model of the problem the process is solving."""
        from pulp import _exact
        return _exact.Model(self.problems[-1])

    def body(self):
        try:
            exec(_script(self.script), self.namespace)
            self.exit = "ok"
        except D.SimKilled:
            self.exit = "killed"
        except core.HarnessError:
            raise
        except SystemExit as e:
            self.exit = "ok" if not e.code else e
        except Exception as e:
            self.exit = "killed" if self.dead else e
        if self.dead:
            self.exit = "killed"
        self.kept = {k: self.namespace[k] for k in self.keep if k in self.namespace}
        self.namespace = None


class Simulation:
    """Several processes in one directory; a seeded scheduler switches between their operations."""

    def __init__(self, root, clock, rng=None, observer=None):
        self.clock, self.rng, self.observer = clock, rng, observer
        self.disk = D.Disk(root, self.point)
        self.procs = []
        self.schedule = []
        self.main = None
        self.loaded = None      # called with name and module after a repository module was executed

    def add(self, *a, **k):
        p = Process(1000 + len(self.procs), *a, **k)
        self.procs.append(p)
        return p

    def point(self, proc, kind, what):
        if self.observer is not None:
            self.observer(self, proc, kind, what)
        if self.rng is not None and len(self.procs) > 1 and greenlet.getcurrent() is not self.main:
            self.schedule.append((proc.pid - 1000, kind))
            self.main.switch()

    def created(self, prob):
        if self.disk.current is not None:
            self.disk.current.problems.append(prob)

    def figure(self, name, axes):
        if self.disk.current is not None:
            self.disk.current.figures.append((name, axes))

    def run(self):
        import simhooks
        self.main = greenlet.getcurrent()
        old_hub, old_argv, old_cwd, old_path = simhooks.hub, sys.argv, os.getcwd(), list(sys.path)
        saved = {n: m for n, m in sys.modules.items() if n.split(".")[0] in OWN}
        sys.meta_path.insert(0, _Finder)
        _Finder.loaded = self.loaded
        simhooks.hub = Router(self)
        old_created = simhooks.created
        simhooks.created = self.created
        old_figure, simhooks.figure = simhooks.figure, self.figure
        os.chdir(self.disk.root)
        out = [None]
        try:
            with core.quiet() as out[0], self.disk.installed(), self.clock.installed():
                lets = [greenlet.greenlet(p.body) for p in self.procs]
                alive = list(range(len(lets)))
                while alive:
                    i = alive[0] if self.rng is None or len(alive) == 1 else self.rng.choice(alive)
                    p = self.procs[i]
                    for n in [n for n in sys.modules if n.split(".")[0] in OWN]:
                        del sys.modules[n]
                    sys.modules.update(p.modules)
                    sys.argv = [p.script] + list(p.argv)
                    sys.path[:] = [os.path.join(core.REPO, os.path.dirname(p.script))] + old_path if os.path.dirname(p.script) else old_path
                    sys.stdout = p.out
                    os.chdir(os.path.join(self.disk.root, p.cwd))
                    self.disk.current = p
                    simhooks.drawing = p.drawing
                    lets[i].switch()
                    self.disk.current = None
                    p.modules = {n: m for n, m in sys.modules.items() if n.split(".")[0] in OWN}
                    if lets[i].dead:
                        alive.remove(i)
        finally:
            self.disk.current = None
            simhooks.hub, sys.argv, simhooks.created, simhooks.figure = old_hub, old_argv, old_created, old_figure
            os.chdir(old_cwd)
            sys.path[:] = old_path
            sys.meta_path.remove(_Finder)
            _Finder.loaded = None
            for n in [n for n in sys.modules if n.split(".")[0] in OWN]:
                del sys.modules[n]
            sys.modules.update(saved)
        for p in self.procs:
            p.modules = {}
            if isinstance(p.exit, BaseException) and not core.from_repo(p.exit):
                raise p.exit
        return self


# -- directories -------------------------------------------------------------------

REAL_FILES = {0: ("", ""), 4: ("_Gt", "_Gt"), 6: ("_1track", ""), 7: ("_1track_Gt", "_Gt")}
OUT_DIRS = ("solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC", "data/KO_GLC")


def lay_out(root, real=None, real1=None, ko=None, everywhere=False):
    """Directory of the experiments: input files under the names the scripts expect.

    real: world of cases 0-5; real1: world of cases 6-9; ko: world of the third KO_GLC case, or of all of them (everywhere).
    """
    for d in OUT_DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    net = []
    for w in (real, real1, ko):
        if w is not None:
            net += [r for r in w["net"] if r not in net]
    j = os.path.join
    for w, csv, npz in ((real, "data/trains_schedules.csv", "data/important_stations.npz"),
                        (real, "data/trains_schedules_Gt.csv", "data/important_stations_Gt.npz"),
                        (real1, "data/trains_schedules_1track.csv", None),
                        (real1, "data/trains_schedules_1track_Gt.csv", None),
                        (ko if everywhere else None, "data/KO_GLC/trains_schedules_KO_GLC.csv", "data/KO_GLC/important_stations_KO_GLC.npz"),
                        (ko if everywhere else None, "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv", None),
                        (ko, "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv", "data/KO_GLC/important_stations_KO_GLC_R.npz")):
        if w is None:
            continue
        with D._open(j(root, csv), "w", encoding="utf-8") as f:
            f.write(W.csv_text(W.csv_rows(w)))
        if npz:
            both = w["stations"] + (real1["stations"] if w is real and real1 is not None else [])
            W.np.savez(j(root, npz), {n: list(b) for n, b in both})
    if net:
        W.write_ods(j(root, "data/network_paths.ods"), W.NET_HEADER, W.net_rows({"net": net}))


def results(root):
    """Result files: relative path -> bytes."""
    out = {}
    for base, _, files in os.walk(root):
        if os.path.relpath(base, root).split(os.sep)[0] == "data":
            continue
        for n in files:
            p = os.path.join(base, n)
            with D._open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def restore(root, files):
    """Put the result files back to a recorded state."""
    for p in list(results(root)):
        D._remove(os.path.join(root, p))
    for p, b in files.items():
        with D._open(os.path.join(root, p), "wb") as f:
            f.write(b)


def load(data):
    """Contents of a result file, or the error it gives."""
    try:
        return core.record(pickle.loads(data))
    except Exception as e:
        return e


def plain(x, digits=6, drop=()):
    """Comparable form of a result: containers, numbers and text only."""
    import datetime
    import numpy as np
    if isinstance(x, dict) or hasattr(x, "keys"):
        return ("dict", tuple(sorted(((repr(k), plain(x[k], digits, drop)) for k in x.keys() if k not in drop))))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(plain(v, digits, drop) for v in x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return round(float(x), digits) + 0.0 if x == x else "nan"
    if x is None or isinstance(x, (str, datetime.datetime, datetime.timedelta)):
        return repr(x)
    if hasattr(x, "to_dict"):
        return ("frame", plain(x.to_dict("list"), digits, drop)) if hasattr(x, "columns") else ("series", plain(x.to_dict(), digits, drop))
    return repr(x)


scratch = model.scratch


# -- worlds ---------------------------------------------------------------------------

KO_TRAINS = [2, 4602, 101, 1, 3, 5, 9, 103, 10, 4606, 4, 102, 4604, 6401, 6403]


def merge(worlds, numbers, tref):
    """Several small railways side by side, trains renumbered."""
    out = {"stations": [], "net": [], "trains": [], "tref": tref}
    numbers = list(numbers)
    for k, w in enumerate(worlds):
        def b(x):
            return x.replace('"', '"P%d' % k, 1)
        out["stations"] += [["P%d%s" % (k, n), [b(x) for x in bl]] for n, bl in w["stations"]]
        out["net"] += [[b(r[0]), b(r[1])] + list(r[2:]) for r in w["net"]]
        for t in w["trains"]:
            t = dict(t, no=numbers.pop(0), rows=[[b(r[0])] + list(r[1:]) for r in t["rows"]])
            out["trains"].append(t)
    return out


def small(rng, n_trains=None, tref="16:00", **over):
    o = dict(n_stations=rng.choice([2, 2, 3]), n_trains=n_trains or rng.choice([2, 3]), tracks=rng.choice([1, 2]),
             max_blocks=rng.choice([1, 2]), window=rng.choice([5, 10, 20]), p_outer=rng.choice([0.0, 0.3]), same_od=0.6)
    o.update(over)
    w = W.generate(rng, W.draw_options(rng, **o))
    w["tref"] = tref
    return w


def ko_world(rng):
    """Railway with the trains that the third KO_GLC series disturbs."""
    parts, left = [], len(KO_TRAINS)
    while left:
        n = min(left, rng.choice([1, 2, 3]))
        w = small(rng, n, p_special=0.0, p_pair9=0.0, n_stations=2, numbers="plain")
        w["trains"] = w["trains"][:left]
        left -= len(w["trains"])
        parts.append(w)
    numbers = KO_TRAINS[:]
    rng.shuffle(numbers)
    return merge(parts, numbers, "14:00")
