"""Stub of PuLP: modelling is real, solving is handed to the simulation hub."""
import simhooks
from . import constants
from .constants import *  # noqa: F401,F403
from .constants import PulpError  # noqa: F401
from .pulp import (  # noqa: F401
    LpAffineExpression, LpConstraint, LpElement, LpProblem, LpVariable, lpDot, lpSum,
    value, valueOrDefault,
)
from . import pulp  # noqa: F401

__version__ = VERSION = "2.6.0"


class PulpSolverError(PulpError):
    pass


class LpSolver:
    name = "LpSolver"

    def __init__(self, mip=True, msg=True, options=None, timeLimit=None, *args, **kwargs):
        self.mip = mip
        self.msg = msg
        self.options = options or []
        self.timeLimit = timeLimit
        self.optionsDict = dict(kwargs)

    def available(self):
        return True

    def actualSolve(self, lp, **kwargs):
        return simhooks.hub.lp(self, lp)

    def solve(self, lp):
        return lp.solve(self)


class LpSolver_CMD(LpSolver):
    def __init__(self, path=None, keepFiles=False, mip=True, msg=True, options=None, timeLimit=None, **kwargs):
        super().__init__(mip=mip, msg=msg, options=options, timeLimit=timeLimit, **kwargs)
        self.path = path
        self.keepFiles = keepFiles


def _cmd(cls_name):
    def init(self, path=None, timeLimit=None, mip=True, msg=True, options=None, keepFiles=False, **kwargs):
        LpSolver_CMD.__init__(self, path, keepFiles, mip, msg, options, timeLimit, **kwargs)
    return type(cls_name, (LpSolver_CMD,), {"name": cls_name, "__init__": init})


COIN_CMD = _cmd("COIN_CMD")
PULP_CBC_CMD = _cmd("PULP_CBC_CMD")
CPLEX_CMD = _cmd("CPLEX_CMD")
CPLEX_PY = _cmd("CPLEX_PY")
GUROBI_CMD = _cmd("GUROBI_CMD")
GUROBI = _cmd("GUROBI")
GLPK_CMD = _cmd("GLPK_CMD")
SCIP_CMD = _cmd("SCIP_CMD")
HiGHS_CMD = _cmd("HiGHS_CMD")
_all_solvers = {c.name: c for c in (COIN_CMD, PULP_CBC_CMD, CPLEX_CMD, CPLEX_PY, GUROBI_CMD, GUROBI, GLPK_CMD, SCIP_CMD, HiGHS_CMD)}
LpSolverDefault = PULP_CBC_CMD()


def getSolver(solver, *args, **kwargs):
    if solver not in _all_solvers:
        raise PulpSolverError("The solver %s does not exist in PuLP.\nPossible options are: \n%s" % (solver, list(_all_solvers)))
    return _all_solvers[solver](*args, **kwargs)


def listSolvers(onlyAvailable=False):
    return list(_all_solvers)
