from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C03"
WEIGHTS = {"track": 8, "seq": 1, "disp": 1, "points": 2, "opt": 0.3}
NEEDS = {"unsafe by track alone": 1.5, "safe at track boundary": 1.5}   # per run, on average


def opts(rng):
    return {"tracks": rng.choice([1, 1, 2]), "switch_pool": rng.choice([4, 8, 16])}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
