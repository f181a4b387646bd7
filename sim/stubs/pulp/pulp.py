"""Stub of the modelling half of PuLP 2.x (the half the code under test uses)."""
import warnings
from collections import OrderedDict

import simhooks

from . import constants as const
from .constants import *  # noqa: F401,F403

_ILLEGAL = "-+[] ->/"
_TRANS = str.maketrans(_ILLEGAL, "_" * len(_ILLEGAL))


def _num(x):
    return isinstance(x, (int, float)) or (hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0)


class LpElement:
    illegal_chars = _ILLEGAL
    trans = _TRANS

    def __init__(self, name):
        self.name = name
        self.hash = id(self)
        self.modified = True

    @property
    def name(self):
        return self.__name

    @name.setter
    def name(self, name):
        self.__name = None if name is None else str(name).translate(_TRANS)

    def setName(self, name):
        self.name = name

    def getName(self):
        return self.name

    def __hash__(self):
        return self.hash

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __neg__(self):
        return -LpAffineExpression(self)

    def __pos__(self):
        return self

    def __bool__(self):
        return True

    def __add__(self, other):
        return LpAffineExpression(self) + other

    def __radd__(self, other):
        return LpAffineExpression(self) + other

    def __sub__(self, other):
        return LpAffineExpression(self) - other

    def __rsub__(self, other):
        return other - LpAffineExpression(self)

    def __mul__(self, other):
        return LpAffineExpression(self) * other

    def __rmul__(self, other):
        return LpAffineExpression(self) * other

    def __truediv__(self, other):
        return LpAffineExpression(self) / other

    __div__ = __truediv__

    def __le__(self, other):
        return LpAffineExpression(self) <= other

    def __ge__(self, other):
        return LpAffineExpression(self) >= other

    def __eq__(self, other):
        return LpAffineExpression(self) == other

    def __ne__(self, other):
        if isinstance(other, LpVariable):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            return True if not other.isAtomic() else self is not other.atom()
        return True


class LpVariable(LpElement):
    def __init__(self, name, lowBound=None, upBound=None, cat=const.LpContinuous, e=None):
        LpElement.__init__(self, name)
        self._lowbound_original = self.lowBound = lowBound
        self._upbound_original = self.upBound = upBound
        self.cat = cat
        self.varValue = None
        self.dj = None
        if cat == const.LpBinary:
            self._lowbound_original = self.lowBound = 0
            self._upbound_original = self.upBound = 1
            self.cat = const.LpInteger

    __hash__ = LpElement.__hash__

    @classmethod
    def matrix(cls, name, indices=None, lowBound=None, upBound=None, cat=const.LpContinuous, indexStart=[], indexs=None):
        if indices is None:
            indices = indexs
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index = indices[0]
        indices = indices[1:]
        if len(indices) == 0:
            return [cls(name % tuple(indexStart + [i]), lowBound, upBound, cat) for i in index]
        return [cls.matrix(name, indices, lowBound, upBound, cat, indexStart + [i]) for i in index]

    @classmethod
    def dicts(cls, name, indices=None, lowBound=None, upBound=None, cat=const.LpContinuous, indexStart=[], indexs=None):
        if indices is None:
            indices = indexs
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index = indices[0]
        indices = indices[1:]
        d = {}
        if len(indices) == 0:
            for i in index:
                d[i] = cls(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
        else:
            for i in index:
                d[i] = cls.dicts(name, indices, lowBound, upBound, cat, indexStart + [i])
        return d

    @classmethod
    def dict(cls, name, indices, lowBound=None, upBound=None, cat=const.LpContinuous):
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        lists = [()]
        for ix in indices:
            lists = [a + (b,) for a in lists for b in ix]
        d = {}
        for i in lists:
            d[i if len(indices) > 1 else i[0]] = cls(name % i, lowBound, upBound, cat)
        return d

    def getLb(self):
        return self.lowBound

    def getUb(self):
        return self.upBound

    def bounds(self, low, up):
        self.lowBound = low
        self.upBound = up

    def positive(self):
        self.bounds(0, None)

    def value(self):
        return self.varValue

    def valueOrDefault(self):
        if self.varValue is not None:
            return self.varValue
        return self.lowBound or 0

    def round(self, epsInt=1e-5, eps=1e-7):
        if self.varValue is not None:
            if self.upBound is not None and self.varValue > self.upBound and self.varValue <= self.upBound + eps:
                self.varValue = self.upBound
            elif self.lowBound is not None and self.varValue < self.lowBound and self.varValue >= self.lowBound - eps:
                self.varValue = self.lowBound
            if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) <= epsInt:
                self.varValue = round(self.varValue)

    def roundedValue(self, eps=1e-5):
        if self.cat == const.LpInteger and self.varValue is not None and abs(self.varValue - round(self.varValue)) <= eps:
            return round(self.varValue)
        return self.varValue

    def valid(self, eps):
        if self.varValue is None:
            return False
        if self.upBound is not None and self.varValue > self.upBound + eps:
            return False
        if self.lowBound is not None and self.varValue < self.lowBound - eps:
            return False
        if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) > eps:
            return False
        return True

    def fixValue(self):
        if self.varValue is not None:
            self.bounds(self.varValue, self.varValue)

    def setInitialValue(self, val, check=True):
        self.varValue = val
        return True

    def isBinary(self):
        return self.cat == const.LpInteger and self.lowBound == 0 and self.upBound == 1

    def isInteger(self):
        return self.cat == const.LpInteger

    def isFree(self):
        return self.lowBound is None and self.upBound is None

    def isConstant(self):
        return self.lowBound is not None and self.upBound == self.lowBound

    def isPositive(self):
        return self.lowBound == 0 and self.upBound is None

    def __ne__(self, other):
        if isinstance(other, LpElement):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            return True if not other.isAtomic() else self is not other.atom()
        return True


class LpAffineExpression(OrderedDict):
    trans = _TRANS

    @property
    def name(self):
        return self.__name

    @name.setter
    def name(self, name):
        self.__name = None if name is None else str(name).translate(_TRANS)

    def setName(self, name):
        self.name = name

    def __init__(self, e=None, constant=0, name=None):
        self.name = name
        if e is None:
            e = {}
        if isinstance(e, LpAffineExpression):
            self.constant = e.constant
            super().__init__(list(e.items()))
        elif isinstance(e, dict):
            self.constant = constant
            super().__init__(list(e.items()))
        elif isinstance(e, LpElement):
            self.constant = 0
            super().__init__([(e, 1)])
        elif hasattr(e, "__iter__"):
            self.constant = constant
            super().__init__(e)
        else:
            self.constant = e
            super().__init__()

    def isAtomic(self):
        return len(self) == 1 and self.constant == 0 and list(self.values())[0] == 1

    def isNumericalConstant(self):
        return len(self) == 0

    def atom(self):
        return list(self.keys())[0]

    def __bool__(self):
        return (float(self.constant) != 0.0) or len(self) > 0

    def value(self):
        s = self.constant
        for v, x in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * x
        return s

    def valueOrDefault(self):
        s = self.constant
        for v, x in self.items():
            s += v.valueOrDefault() * x
        return s

    def addterm(self, key, value):
        if key in self:
            value += self[key]
            if value:
                self[key] = value
            else:
                del self[key]
        elif value:
            self[key] = value

    def emptyCopy(self):
        return LpAffineExpression()

    def copy(self):
        return LpAffineExpression(self)

    def sorted_keys(self):
        return sorted(self.keys(), key=lambda v: v.name)

    def __str__(self):
        s = ""
        for v in self.sorted_keys():
            val = self[v]
            sign = "-" if val < 0 else ("+" if s else "")
            mag = "" if abs(val) == 1 else "%s*" % abs(val)
            s += (" %s " % sign if s else sign) + mag + str(v)
        if self.constant or not s:
            s += (" %s %s" % ("-" if self.constant < 0 else "+", abs(self.constant))) if s else str(self.constant)
        return s

    def __repr__(self):
        return str(self)

    def addInPlace(self, other, sign=1):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, sign)
        elif isinstance(other, LpAffineExpression):
            self.constant += other.constant * sign
            for v, x in other.items():
                self.addterm(v, x * sign)
        elif isinstance(other, dict):
            for e in other.values():
                self.addInPlace(e, sign)
        elif isinstance(other, list) or hasattr(other, "__iter__") and not _num(other):
            for e in other:
                self.addInPlace(e, sign)
        else:
            self.constant += other * sign
        return self

    def subInPlace(self, other):
        return self.addInPlace(other, -1)

    def __neg__(self):
        e = self.emptyCopy()
        e.constant = -self.constant
        for v, x in self.items():
            e[v] = -x
        return e

    def __pos__(self):
        return self

    def __add__(self, other):
        return self.copy().addInPlace(other)

    def __radd__(self, other):
        return self.copy().addInPlace(other)

    def __iadd__(self, other):
        return self.addInPlace(other)

    def __sub__(self, other):
        return self.copy().subInPlace(other)

    def __rsub__(self, other):
        return (-self).addInPlace(other)

    def __isub__(self, other):
        return self.subInPlace(other)

    def __mul__(self, other):
        e = self.emptyCopy()
        if isinstance(other, LpAffineExpression):
            e.constant = self.constant * other.constant
            if len(other):
                if len(self):
                    raise TypeError("Non-constant expressions cannot be multiplied")
                c = self.constant
                if c != 0:
                    for v, x in other.items():
                        e[v] = c * x
            else:
                c = other.constant
                if c != 0:
                    for v, x in self.items():
                        e[v] = c * x
        elif isinstance(other, LpVariable):
            return self * LpAffineExpression(other)
        else:
            if other != 0:
                e.constant = self.constant * other
                for v, x in self.items():
                    e[v] = other * x
        return e

    def __rmul__(self, other):
        return self * other

    def __truediv__(self, other):
        if isinstance(other, (LpAffineExpression, LpVariable)):
            if len(other):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            other = other.constant
        e = self.emptyCopy()
        e.constant = self.constant / other
        for v, x in self.items():
            e[v] = x / other
        return e

    __div__ = __truediv__

    def __le__(self, other):
        return LpConstraint(self - other, const.LpConstraintLE)

    def __ge__(self, other):
        return LpConstraint(self - other, const.LpConstraintGE)

    def __eq__(self, other):
        return LpConstraint(self - other, const.LpConstraintEQ)

    def __ne__(self, other):
        return not (self is other)

    def __hash__(self):
        return id(self)

    def toDict(self):
        return [{"name": k.name, "value": v} for k, v in self.items()]

    to_dict = toDict


class LpConstraint(LpAffineExpression):
    def __init__(self, e=None, sense=const.LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e, name=name)
        if rhs is not None:
            self.constant -= rhs
        self.sense = sense
        self.pi = None
        self.slack = None
        self.modified = True

    def getLb(self):
        if self.sense in (const.LpConstraintGE, const.LpConstraintEQ):
            return -self.constant
        return None

    def getUb(self):
        if self.sense in (const.LpConstraintLE, const.LpConstraintEQ):
            return -self.constant
        return None

    def changeRHS(self, RHS):
        self.constant = -RHS
        self.modified = True

    def copy(self):
        return LpConstraint(self, self.sense)

    def emptyCopy(self):
        return LpConstraint(sense=self.sense)

    def addInPlace(self, other, sign=1):
        if isinstance(other, LpConstraint):
            if not (self.sense * other.sense >= 0):
                sign = -sign
                LpAffineExpression.addInPlace(self, other, -1)
            else:
                LpAffineExpression.addInPlace(self, other, sign)
            self.sense |= other.sense
        else:
            LpAffineExpression.addInPlace(self, other, sign)
        return self

    def valid(self, eps=0):
        val = self.value()
        if self.sense == const.LpConstraintEQ:
            return abs(val) <= eps
        return val * self.sense >= -eps

    def __str__(self):
        e = LpAffineExpression(list(self.items()))
        return "%s %s %s" % (e, const.LpConstraintSenses[self.sense], -self.constant)

    __hash__ = LpAffineExpression.__hash__

    def __eq__(self, other):
        return self is other


class LpProblem:
    def __init__(self, name="NoName", sense=const.LpMinimize):
        if " " in name:
            warnings.warn("Spaces are not permitted in the name. Converted to '_'")
            name = name.replace(" ", "_")
        self.objective = None
        self.constraints = OrderedDict()
        self.name = name
        self.sense = sense
        self.sos1 = {}
        self.sos2 = {}
        self.status = const.LpStatusNotSolved
        self.sol_status = const.LpSolutionNoSolutionFound
        self.noOverlap = 1
        self.solver = None
        self.solutionTime = 0
        self.solutionCpuTime = 0
        self.lastUnused = 0
        self.dummyVar = None
        self._variables = []
        self._variable_ids = {}
        simhooks.created(self)

    def __repr__(self):
        return "%s:\n%s %s" % (self.name, const.LpSenses[self.sense], self.objective)

    def addVariable(self, variable):
        if variable.hash not in self._variable_ids:
            self._variables.append(variable)
            self._variable_ids[variable.hash] = variable

    def addVariables(self, variables):
        for v in variables:
            self.addVariable(v)

    def variables(self):
        if self.objective:
            self.addVariables(list(self.objective.keys()))
        for c in self.constraints.values():
            self.addVariables(list(c.keys()))
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def variablesDict(self):
        return {v.name: v for v in self.variables()}

    def isMIP(self):
        return 1 if any(v.cat == const.LpInteger for v in self.variables()) else 0

    def unusedConstraintName(self):
        self.lastUnused += 1
        while 1:
            s = "_C%d" % self.lastUnused
            if s not in self.constraints:
                break
            self.lastUnused += 1
        return s

    def valid(self, eps=0):
        return all(v.valid(eps) for v in self.variables()) and all(c.valid(eps) for c in self.constraints.values())

    def infeasibilityGap(self, mip=1):
        gap = 0
        for c in self.constraints.values():
            if not c.valid(0):
                gap = max(abs(c.value()), gap)
        return gap

    def addConstraint(self, constraint, name=None):
        if not isinstance(constraint, LpConstraint):
            raise TypeError("Can only add LpConstraint objects")
        if name:
            constraint.name = name
        if constraint.name:
            name = constraint.name
        else:
            name = self.unusedConstraintName()
        if not len(constraint):
            if not constraint.valid():
                raise ValueError("Cannot add false constraints: %s" % name)
        if name in self.constraints:
            if self.noOverlap:
                raise const.PulpError("overlapping constraint names: " + name)
            print("Warning: overlapping constraint names:", name)
        self.constraints[name] = constraint
        self.addVariables(list(constraint.keys()))

    def setObjective(self, obj):
        if isinstance(obj, LpVariable):
            obj = obj + 0.0
        self.objective = obj

    def __iadd__(self, other):
        if isinstance(other, tuple):
            other, name = other
        else:
            name = None
        if other is True:
            return self
        if other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        if isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = other
            if name is not None:
                self.objective.name = name
        elif isinstance(other, LpVariable) or isinstance(other, (int, float)):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = LpAffineExpression(other)
            self.objective.name = name
        else:
            raise TypeError("Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects")
        return self

    def coefficients(self, translation=None):
        return [(v.name, n, x) for n, c in self.constraints.items() for v, x in c.items()]

    def numVariables(self):
        return len(self._variable_ids)

    def numConstraints(self):
        return len(self.constraints)

    def getSense(self):
        return self.sense

    def assignVarsVals(self, values):
        variables = self.variablesDict()
        for name in values:
            if name != "__dummy":
                variables[name].varValue = values[name]

    def assignStatus(self, status, sol_status=None):
        if status not in const.LpStatus:
            raise const.PulpError("Invalid status code: " + str(status))
        self.status = status
        if sol_status is None:
            sol_status = const.LpStatusToSolution.get(status, const.LpSolutionNoSolutionFound)
        self.sol_status = sol_status
        return True

    def roundSolution(self, epsInt=1e-5, eps=1e-7):
        for v in self.variables():
            v.round(epsInt, eps)

    def solve(self, solver=None, **kwargs):
        if not solver:
            solver = self.solver
        if not solver:
            from . import LpSolverDefault
            solver = LpSolverDefault
        status = solver.actualSolve(self, **kwargs)
        self.solver = solver
        return status

    def copy(self):
        p = LpProblem(self.name, self.sense)
        if self.objective is not None:
            p.objective = self.objective.copy()
        for n, c in self.constraints.items():
            p.constraints[n] = c.copy()
        return p


def lpSum(vector):
    return LpAffineExpression().addInPlace(vector)


def lpDot(v1, v2):
    if not hasattr(v1, "__iter__") and not hasattr(v2, "__iter__"):
        return v1 * v2
    return lpSum([a * b for a, b in zip(v1, v2)])


def value(x):
    return x if _num(x) else x.value()


def valueOrDefault(x):
    return x if _num(x) else x.valueOrDefault()
