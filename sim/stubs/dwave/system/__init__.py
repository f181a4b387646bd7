"""Stub of dwave.system: remote services answered by the simulation hub."""
import numpy as np

import simhooks


class DWaveSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {"chip_id": "SIM", "num_qubits": 5760}
        self.parameters = {}

    def sample(self, bqm, **kw):
        return simhooks.hub.qpu(bqm, kw)


class EmbeddingComposite:
    def __init__(self, child, **kw):
        self.child = child
        self.properties = {"child_properties": child.properties}

    def sample(self, bqm, chain_strength=None, chain_break_method=None, chain_break_fraction=True,
               embedding_parameters=None, return_embedding=None, warnings=None, **parameters):
        return simhooks.hub.qpu(bqm, dict(parameters, chain_strength=chain_strength))


AutoEmbeddingComposite = EmbeddingComposite


class LeapHybridSampler:
    def __init__(self, **config):
        self.properties = {
            "minimum_time_limit": [[1, 3.0], [1024, 3.0], [4096, 10.0], [10000, 40.0]],
            "maximum_time_limit_hrs": 24.0, "category": "hybrid",
        }

    def min_time_limit(self, bqm):
        """Minimal time in seconds, interpolated from the table of the solver."""
        table = self.properties["minimum_time_limit"]
        return float(np.interp(len(bqm.variables), [x for x, _ in table], [y for _, y in table]))

    def sample(self, bqm, time_limit=None, **kwargs):
        if time_limit is None:
            time_limit = self.min_time_limit(bqm)
        if time_limit < self.min_time_limit(bqm):
            raise ValueError("time limit for problem size must be at least %s" % self.min_time_limit(bqm))
        return simhooks.hub.hybrid_bqm(bqm, self.properties, dict(kwargs, time_limit=time_limit))


class LeapHybridCQMSampler:
    def __init__(self, **config):
        self.properties = {
            "minimum_time_limit_s": 5, "maximum_time_limit_hrs": 24.0,
            "num_variables_multiplier": 0.000157411458, "category": "hybrid",
        }

    def min_time_limit(self, cqm):
        return self.properties["minimum_time_limit_s"]

    def sample_cqm(self, cqm, time_limit=None, label=None, **kwargs):
        if time_limit is None:
            time_limit = self.min_time_limit(cqm)
        if time_limit < self.min_time_limit(cqm):
            raise ValueError("time_limit must be at least %s" % self.min_time_limit(cqm))
        return simhooks.hub.hybrid_cqm(cqm, self.properties, {"time_limit": time_limit})
