from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C01"
WEIGHTS = {"headway": 8, "seq": 1, "disp": 1, "points": 2, "opt": 0.3}
NEEDS = {"unsafe by headway alone": 3, "safe at headway boundary": 3}   # per run, on average


def opts(rng):
    return {"tracks": rng.choice([2, 3, 3]), "p_zero_blocks": 0.0, "same_od": rng.choice([0.4, 0.8]),
            "max_blocks": rng.choice([1, 2, 3, 5, 7]), "switch_pool": rng.choice([4, 8, 16])}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
