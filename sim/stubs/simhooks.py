"""Meeting point of the stub libraries and the simulation.

The stub libraries never decide anything themselves: every request that would
leave the process (LP solver binary, annealer, hybrid service) is handed to
`hub`, which the simulation replaces.  Without a simulation the defaults below
answer deterministically and without faults.
"""


class Unsupported(Exception):
    """A library feature that the stub does not model (harness limitation)."""


class Hub:
    def lp(self, solver, prob):
        from pulp import _exact
        return _exact.solve_problem(prob)

    def neal(self, bqm, params):
        import neal
        return neal._anneal(bqm, params)

    def qpu(self, bqm, params):
        import neal
        return neal._anneal(bqm, dict(params, num_sweeps=10))

    def hybrid_bqm(self, bqm, properties, params):
        import neal
        return neal._anneal(bqm, {"num_reads": 1, "num_sweeps": 100})

    def hybrid_cqm(self, cqm, properties, params):
        raise Unsupported("no simulated CQM service installed")


hub = Hub()


def created(prob):
    """Called for every new linear problem."""


drawing = [None]        # current figure of the running process


def figure(name, axes):
    """Called for every figure that is saved."""
