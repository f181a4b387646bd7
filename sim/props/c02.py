from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C02"
WEIGHTS = {"single": 8, "seq": 1, "disp": 1, "points": 2, "opt": 0.3}
NEEDS = {"unsafe by single alone": 1.5, "safe at single boundary": 1.5}   # per run, on average


def opts(rng):
    return {"tracks": rng.choice([1, 2, 3]), "p_single": rng.choice([0.5, 1.0]), "p_wrong_track": rng.choice([0.0, 0.4]),
            "switch_pool": rng.choice([4, 8, 16]), "same_od": rng.choice([0.0, 0.6])}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
