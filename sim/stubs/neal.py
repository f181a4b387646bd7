"""Stub of dwave-neal: the sampler hands the request to the simulation hub."""
import random

import numpy as np

import simhooks


class SimulatedAnnealingSampler:
    properties = {}
    parameters = {}

    def sample(self, bqm, beta_range=None, num_reads=None, num_sweeps=None, num_sweeps_per_beta=1,
               beta_schedule_type="geometric", seed=None, interrupt_function=None, beta_schedule=None,
               initial_states=None, initial_states_generator="random", randomize_order=False,
               proposal_acceptance_criteria="Metropolis", **kwargs):
        if beta_schedule_type not in ("linear", "geometric", "custom"):
            raise ValueError("unknown beta schedule")
        return simhooks.hub.neal(bqm, {
            "beta_range": beta_range, "num_reads": num_reads if num_reads is not None else 1,
            "num_sweeps": num_sweeps if num_sweeps is not None else 1000,
            "beta_schedule_type": beta_schedule_type, "seed": seed,
        })

    def sample_qubo(self, Q, **params):
        import dimod
        return self.sample(dimod.BinaryQuadraticModel.from_qubo(Q), **params)


Neal = SimulatedAnnealingSampler


class Compiled:
    """Fast energy deltas of a binary quadratic model."""

    def __init__(self, bqm):
        self.names = list(bqm.variables)
        ix = {v: i for i, v in enumerate(self.names)}
        self.h = [float(bqm.linear[v]) for v in self.names]
        self.adj = [[] for _ in self.names]
        for (u, v), b in bqm.quadratic.items():
            self.adj[ix[u]].append((ix[v], float(b)))
            self.adj[ix[v]].append((ix[u], float(b)))
        self.offset = float(bqm.offset)

    def energy(self, x):
        e = self.offset
        for i, xi in enumerate(x):
            if xi:
                e += self.h[i]
                for j, b in self.adj[i]:
                    if j > i and x[j]:
                        e += b
        return e

    def descend(self, x, rng, sweeps, beta0=0.001, beta1=10.0, flips=True):
        import math
        n = len(x)
        f = list(self.h)
        for i in range(n):
            if x[i]:
                for j, b in self.adj[i]:
                    f[j] += b
        for s in range(sweeps):
            beta = beta0 * (beta1 / beta0) ** (s / max(1, sweeps - 1))
            for i in range(n):
                d = -f[i] if x[i] else f[i]
                if d <= 0 or rng.random() < math.exp(-min(700.0, beta * d)):
                    sg = -1 if x[i] else 1
                    x[i] ^= 1
                    for j, b in self.adj[i]:
                        f[j] += sg * b
        return x


def _anneal(bqm, params, seed=0):
    import dimod
    rng = random.Random(seed)
    c = Compiled(bqm)
    rows, en = [], []
    br = params.get("beta_range") or (0.001, 10)
    for _ in range(params["num_reads"]):
        x = [rng.randint(0, 1) for _ in c.names]
        c.descend(x, rng, params["num_sweeps"], br[0], br[1])
        rows.append(x)
        en.append(c.energy(x))
    return dimod.SampleSet.from_samples((np.array(rows, dtype=np.int8), c.names), "BINARY", en, info={"beta_range": params.get("beta_range"), "beta_schedule_type": params.get("beta_schedule_type")})
