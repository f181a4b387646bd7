from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C04"
WEIGHTS = {"switch": 8, "seq": 1, "disp": 1, "points": 2, "opt": 0.3}
NEEDS = {"unsafe by switch alone": 1.5, "safe at switch boundary": 1.5}   # per run, on average


def opts(rng):
    return {"tracks": rng.choice([2, 3]), "switch_pool": rng.choice([2, 4, 8, 16])}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
