from .. import railrun
from ..railrun import ASSUMPTIONS, COMPONENTS, PLAN, RULE, shrink  # noqa: F401

ID = "C05"
WEIGHTS = {"causal": 8, "seq": 2, "disp": 1, "points": 2, "opt": 0.3}
NEEDS = {"unsafe by causal alone": 3, "safe histories": 3}   # per run, on average


def opts(rng):
    return {"p_pair9": rng.choice([0.0, 0.5, 0.9]), "p_turn_mid": rng.choice([0.0, 0.4]), "p_mixed_speed": rng.choice([0.0, 0.3]),
            "n_stations": rng.choice([2, 3, 4, 5])}


def gen(rng, index, tier):
    return railrun.gen_indexed(rng, index, tier, opts, WEIGHTS)


def execute(spec, o):
    railrun.Runner(spec, o, ID).run()
