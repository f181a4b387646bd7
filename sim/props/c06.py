from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C06"
WEIGHTS = {"headway": 1, "single": 1, "track": 1, "switch": 1, "causal": 1, "seq": 4, "disp": 2, "opt": 1}
NEEDS = {"safe histories": 5, "optimum compared": 3, "conflict-free timetables": 0.1}   # per run, on average


def opts(rng):
    return {}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
