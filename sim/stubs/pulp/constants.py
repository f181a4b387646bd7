"""Constants of PuLP (2.x)."""
LpStatusNotSolved = 0
LpStatusOptimal = 1
LpStatusInfeasible = -1
LpStatusUnbounded = -2
LpStatusUndefined = -3
LpStatus = {0: "Not Solved", 1: "Optimal", -1: "Infeasible", -2: "Unbounded", -3: "Undefined"}
LpSolutionNoSolutionFound = 0
LpSolutionOptimal = 1
LpSolutionIntegerFeasible = 2
LpSolutionInfeasible = -1
LpSolutionUnbounded = -2
LpSolution = {
    0: "No Solution Found", 1: "Optimal Solution Found", 2: "Solution Found",
    -1: "No Solution Exists", -2: "Solution is Unbounded",
}
LpStatusToSolution = {0: -1, 1: 1, -1: -1, -2: -2, -3: -1}
LpMinimize = 1
LpMaximize = -1
LpSenses = {LpMaximize: "Maximize", LpMinimize: "Minimize"}
LpSensesMPS = {LpMaximize: "MAX", LpMinimize: "MIN"}
LpContinuous = "Continuous"
LpInteger = "Integer"
LpBinary = "Binary"
LpCategories = {LpContinuous: "Continuous", LpInteger: "Integer", LpBinary: "Binary"}
LpConstraintLE = -1
LpConstraintEQ = 0
LpConstraintGE = 1
LpConstraintSenses = {LpConstraintEQ: "=", LpConstraintLE: "<=", LpConstraintGE: ">="}
EPS = 1e-7


class PulpError(Exception):
    """Pulp Exception Class"""
