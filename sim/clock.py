"""The only clock the code under test sees during a simulation."""
import contextlib
import sys
import time
import timeit

from . import core


class SimClock:
    """Real elapsed time (`mono`) and a wall clock that may be stepped."""

    def __init__(self, start=1.7e9):
        self.mono = 1000.0
        self.offset = start
        self.cpu = 10.0
        self.steps = 0

    def sleep(self, seconds):
        """Time passes outside the process (remote call, other programs)."""
        self.mono += seconds

    def work(self, seconds):
        """Time passes while the process computes."""
        self.mono += seconds
        self.cpu += seconds

    def step(self, seconds):
        """The wall clock is set forward or back."""
        self.offset += seconds
        self.steps += 1

    @contextlib.contextmanager
    def installed(self):
        names = ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns",
                 "process_time_ns", "sleep")
        old = {n: getattr(time, n) for n in names if hasattr(time, n)}
        new = {
            "time": lambda: self.offset + self.mono,
            "monotonic": lambda: self.mono,
            "perf_counter": lambda: self.mono - 500.0,
            "process_time": lambda: self.cpu,
            "time_ns": lambda: int((self.offset + self.mono) * 1e9),
            "monotonic_ns": lambda: int(self.mono * 1e9),
            "perf_counter_ns": lambda: int((self.mono - 500.0) * 1e9),
            "process_time_ns": lambda: int(self.cpu * 1e9),
            "sleep": self.sleep,
        }
        for n in old:
            setattr(time, n, new[n])
        bound = self._bound(old, new)
        for m, name, f, g in bound:
            setattr(m, name, g)
        try:
            yield self
        finally:
            for n, f in old.items():
                setattr(time, n, f)
            for m, name, f, g in bound:
                setattr(m, name, f)

    @staticmethod
    def _bound(old, new):
        """Names of clock functions imported into modules of the code under test."""
        by_id = {id(f): n for n, f in old.items()}
        out = []
        for m in list(sys.modules.values()):
            path = getattr(m, "__file__", None) or ""
            if not path.startswith(core.REPO + "/") and m is not timeit:
                continue
            for name, f in list(vars(m).items()):
                if id(f) in by_id:
                    out.append((m, name, f, new[by_id[id(f)]]))
        return out
