"""Stand-in: keeps what is drawn instead of drawing it.

A figure is handed to `simhooks.figure` when it is saved: its file name and, for each
of its axes, the drawing calls in order.
"""
import simhooks

from . import rcParams  # noqa: F401


class _Any:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Axes:
    def __init__(self):
        self.calls = []

    def get_xaxis(self):
        return _Any()

    get_yaxis = get_xaxis

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: self.calls.append((name, a, k))


class Figure(_Any):
    def __init__(self, n):
        self.axes = [Axes() for _ in range(n)]


def _figure():
    if simhooks.drawing[0] is None:
        simhooks.drawing[0] = Figure(1)
    return simhooks.drawing[0]


def subplots(nrows=1, ncols=1, **k):
    f = simhooks.drawing[0] = Figure(nrows * ncols)
    return f, (f.axes[0] if len(f.axes) == 1 else tuple(f.axes))


def figure(*a, **k):
    f = simhooks.drawing[0] = Figure(1)
    return f


def savefig(name, *a, **k):
    simhooks.figure(str(name), [list(x.calls) for x in _figure().axes])


def clf():
    simhooks.drawing[0] = None


def close(*a):
    simhooks.drawing[0] = None


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    return getattr(_figure().axes[-1], name)
