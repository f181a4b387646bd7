"""Stub of dimod: quadratic models, constrained models, sample sets."""
import collections
import math
from collections import namedtuple
from collections.abc import Mapping

import numpy as np

from simhooks import Unsupported  # noqa: F401

__version__ = "0.10.17"
BINARY = "BINARY"
SPIN = "SPIN"
INTEGER = "INTEGER"


def _isnum(x):
    return isinstance(x, (int, float, np.number))


class Vartype:
    BINARY = BINARY
    SPIN = SPIN
    INTEGER = INTEGER


class Comparison:
    """lhs (model) <sense> rhs (number)"""

    def __init__(self, lhs, rhs, sense):
        self.lhs = lhs
        self.rhs = rhs
        self.sense = sense

    def __repr__(self):
        return "%s %s %s" % (self.lhs, self.sense, self.rhs)

    def __bool__(self):
        return True


class Le(Comparison):
    pass


class Ge(Comparison):
    pass


class Eq(Comparison):
    pass


class QuadraticModel:
    def __init__(self):
        self.linear = {}
        self.quadratic = {}
        self.offset = 0.0
        self._vinfo = {}  # name -> (vartype, lb, ub)

    # construction ---------------------------------------------------------
    def _new(self):
        return QuadraticModel()

    def copy(self):
        o = QuadraticModel.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.linear = dict(self.linear)
        o.quadratic = dict(self.quadratic)
        o._vinfo = dict(self._vinfo)
        return o

    def add_variable_info(self, v, vartype, lb, ub):
        if v in self._vinfo and self._vinfo[v][0] != vartype:
            raise TypeError("given variable %r has a different vartype" % (v,))
        if v in self._vinfo and self._vinfo[v] != (vartype, lb, ub):
            raise ValueError("the variable %r has conflicting bounds" % (v,))
        if v not in self._vinfo:
            self._vinfo[v] = (vartype, lb, ub)
            self.linear.setdefault(v, 0.0)

    def add_linear(self, v, bias):
        self.linear[v] = self.linear.get(v, 0.0) + bias

    def add_quadratic(self, u, v, bias):
        if u == v:
            if self._vinfo[u][0] == BINARY:
                self.add_linear(u, bias)
                return
            raise Unsupported("squared integer in stub model")
        k = (u, v) if (v, u) not in self.quadratic else (v, u)
        self.quadratic[k] = self.quadratic.get(k, 0.0) + bias

    @property
    def variables(self):
        return list(self._vinfo)

    @property
    def num_variables(self):
        return len(self._vinfo)

    @property
    def num_interactions(self):
        return len(self.quadratic)

    def __len__(self):
        return len(self._vinfo)

    def __iter__(self):
        raise TypeError("'%s' object is not iterable" % type(self).__name__)

    def vartype(self, v):
        return self._vinfo[v][0]

    def lower_bound(self, v):
        return self._vinfo[v][1]

    def upper_bound(self, v):
        return self._vinfo[v][2]

    def is_linear(self):
        return not any(self.quadratic.values())

    def energy(self, sample):
        e = self.offset
        for v, b in self.linear.items():
            if b:
                e += b * sample[v]
        for (u, v), b in self.quadratic.items():
            e += b * sample[u] * sample[v]
        return e

    def energies(self, samples):
        arr, labels = as_samples(samples)
        return np.array([self.energy(dict(zip(labels, row))) for row in arr.tolist()])

    # arithmetic -----------------------------------------------------------
    def _merge(self, other, factor):
        r = self.copy() if type(self) is type(other) else _generic(self)
        for v, (t, lb, ub) in other._vinfo.items():
            r.add_variable_info(v, t, lb, ub)
        for v, b in other.linear.items():
            r.add_linear(v, factor * b)
        for (u, v), b in other.quadratic.items():
            r.add_quadratic(u, v, factor * b)
        r.offset = r.offset + factor * other.offset
        return r

    def __add__(self, other):
        if isinstance(other, QuadraticModel):
            return self._merge(other, 1)
        if _isnum(other):
            r = self.copy()
            r.offset = r.offset + other
            return r
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, QuadraticModel):
            return self._merge(other, -1)
        if _isnum(other):
            return self + (-other)
        return NotImplemented

    def __rsub__(self, other):
        return (-self) + other

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, other):
        if _isnum(other):
            r = self.copy()
            r.linear = {v: b * other for v, b in r.linear.items()}
            r.quadratic = {k: b * other for k, b in r.quadratic.items()}
            r.offset = r.offset * other
            return r
        if isinstance(other, QuadraticModel):
            if self.quadratic or other.quadratic:
                raise TypeError("cannot multiply models of degree > 1")
            r = (self if type(self) is type(other) else _generic(self))._empty()
            for m in (self, other):
                for v, i in m._vinfo.items():
                    r.add_variable_info(v, *i)
            for u, a in self.linear.items():
                for v, b in other.linear.items():
                    if a and b:
                        r.add_quadratic(u, v, a * b)
                r.add_linear(u, a * other.offset)
            for v, b in other.linear.items():
                r.add_linear(v, b * self.offset)
            r.offset = self.offset * other.offset
            return r
        return NotImplemented

    __rmul__ = __mul__

    def _empty(self):
        o = self.copy()
        o.linear, o.quadratic, o._vinfo, o.offset = {}, {}, {}, 0.0
        return o

    def __truediv__(self, other):
        return self * (1.0 / other)

    def __pow__(self, n):
        if n == 2:
            return self * self
        return NotImplemented

    def __le__(self, other):
        return Le(self, other, "<=") if _isnum(other) else Le(self - other, 0, "<=")

    def __ge__(self, other):
        return Ge(self, other, ">=") if _isnum(other) else Ge(self - other, 0, ">=")

    def __eq__(self, other):
        if _isnum(other):
            return Eq(self, other, "==")
        return self.is_equal(other)

    def __ne__(self, other):
        return not self.is_equal(other)

    def is_equal(self, other):
        if not isinstance(other, QuadraticModel) or set(self._vinfo) != set(other._vinfo):
            return False
        if self.offset != other.offset or any(self.linear[v] != other.linear[v] for v in self.linear):
            return False
        q1 = {frozenset(k): b for k, b in self.quadratic.items()}
        q2 = {frozenset(k): b for k, b in other.quadratic.items()}
        return q1 == q2

    __hash__ = None


def _generic(m):
    o = QuadraticModel()
    o.linear, o.quadratic, o.offset, o._vinfo = dict(m.linear), dict(m.quadratic), m.offset, dict(m._vinfo)
    return o


class BinaryQuadraticModel(QuadraticModel):
    def __init__(self, *args, vartype=None):
        super().__init__()
        args = list(args)
        if args and isinstance(args[-1], str):
            vartype = args.pop()
        self._vartype = vartype or BINARY
        if len(args) >= 1 and isinstance(args[0], Mapping):
            for v, b in args[0].items():
                self._var(v)
                self.add_linear(v, float(b))
        if len(args) >= 2:
            for (u, v), b in dict(args[1]).items():
                self._var(u)
                self._var(v)
                self.add_quadratic(u, v, float(b))
        if len(args) >= 3:
            self.offset = float(args[2])

    def _var(self, v):
        if v not in self._vinfo:
            self._vinfo[v] = (self._vartype, 0, 1) if self._vartype == BINARY else (SPIN, -1, 1)
            self.linear[v] = 0.0

    def vartype_of(self):
        return self._vartype

    @property
    def vartype(self):
        return self._vartype

    def energy(self, sample):
        return QuadraticModel.energy(self, sample)

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        b = cls({}, {}, offset, BINARY)
        for (u, v), x in Q.items():
            b._var(u)
            b._var(v)
            if u == v:
                b.add_linear(u, x)
            else:
                b.add_quadratic(u, v, x)
        return b

    def to_qubo(self):
        q = {(v, v): b for v, b in self.linear.items()}
        q.update(self.quadratic)
        return q, self.offset

    def to_ising(self):
        h = {v: 0.0 for v in self._vinfo}
        J = {}
        off = self.offset
        for v, b in self.linear.items():
            h[v] += b / 2
            off += b / 2
        for (u, v), b in self.quadratic.items():
            J[(u, v)] = b / 4
            h[u] += b / 4
            h[v] += b / 4
            off += b / 4
        return h, J, off


BQM = DictBQM = AdjVectorBQM = BinaryQuadraticModel
QM = QuadraticModel


def Binary(label, bias=1, dtype=None):
    b = BinaryQuadraticModel({}, {}, 0.0, BINARY)
    b._var(label)
    b.add_linear(label, bias)
    return b


def Integer(label, bias=1, dtype=None, *, lower_bound=0, upper_bound=2 ** 53 - 1):
    q = QuadraticModel()
    if lower_bound > upper_bound:
        raise ValueError("lower_bound exceeds upper_bound")
    q.add_variable_info(label, INTEGER, lower_bound, upper_bound)
    q.add_linear(label, bias)
    return q


def Binaries(labels):
    return (Binary(v) for v in labels)


def quicksum(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return 0 if r is None else r


class ConstrainedQuadraticModel:
    def __init__(self):
        self.constraints = collections.OrderedDict()
        self.objective = QuadraticModel()
        self._vinfo = {}

    @property
    def variables(self):
        return list(self._vinfo)

    def _reg(self, m):
        for v, i in m._vinfo.items():
            if v in self._vinfo and self._vinfo[v] != i:
                raise ValueError("conflicting type or bounds of variable %r" % (v,))
            self._vinfo[v] = i

    def vartype(self, v):
        return self._vinfo[v][0]

    def lower_bound(self, v):
        return self._vinfo[v][1]

    def upper_bound(self, v):
        return self._vinfo[v][2]

    def add_variable(self, *a, **k):
        raise Unsupported("add_variable")

    def set_objective(self, objective):
        if _isnum(objective):
            raise TypeError("objective must be a model")
        self._reg(objective)
        self.objective = _generic(objective)

    def add_constraint(self, data, sense=None, rhs=0, label=None, copy=True, weight=None, penalty="linear"):
        if isinstance(data, Comparison):
            lhs, sense, rhs = data.lhs, data.sense, data.rhs
        elif isinstance(data, QuadraticModel):
            lhs = data
            if sense is None:
                raise ValueError("sense required")
        else:
            raise TypeError("unexpected data format")
        return self._add(lhs, sense, rhs, label)

    def add_constraint_from_comparison(self, comp, label=None, copy=True, weight=None, penalty="linear"):
        return self._add(comp.lhs, comp.sense, comp.rhs, label)

    def add_constraint_from_model(self, qm, sense, rhs=0, label=None, copy=True, weight=None, penalty="linear"):
        return self._add(qm, sense, rhs, label)

    def _add(self, lhs, sense, rhs, label):
        if label is None:
            label = "c%d" % len(self.constraints)
            while label in self.constraints:
                label += "_"
        if label in self.constraints:
            raise ValueError("a constraint with that label already exists")
        self._reg(lhs)
        # dimod keeps the constant on the right hand side
        lhs = _generic(lhs)
        rhs = rhs - lhs.offset
        lhs.offset = 0.0
        self.constraints[label] = {"<=": Le, ">=": Ge, "==": Eq}[str(sense)](lhs, rhs, str(sense))
        return label

    def satisfied(self, sample, atol=1e-6):
        """label -> bool"""
        r = {}
        for n, c in self.constraints.items():
            e = c.lhs.energy(sample)
            if c.sense == "==":
                r[n] = abs(e - c.rhs) <= atol
            elif c.sense == "<=":
                r[n] = e <= c.rhs + atol
            else:
                r[n] = e >= c.rhs - atol
        return r

    def check_feasible(self, sample, rtol=1e-6, atol=1e-8):
        return all(self.satisfied(sample).values())

    def num_biases(self):
        return sum(len(c.lhs.linear) for c in self.constraints.values())


CQM = ConstrainedQuadraticModel


def as_samples(samples_like, dtype=None, copy=False, order="C", labels_type=list):
    if isinstance(samples_like, SampleSet):
        return samples_like.record["sample"], list(samples_like.variables)
    if isinstance(samples_like, tuple) and len(samples_like) == 2:
        arr, labels = samples_like
        arr = np.asarray(arr, dtype=dtype)
        if arr.ndim < 2:
            arr = arr.reshape(1, -1) if arr.size else arr.reshape(0, len(labels))
        return arr, list(labels)
    if isinstance(samples_like, Mapping):
        samples_like = [samples_like]
    rows = list(samples_like)
    if not rows:
        return np.empty((0, 0), dtype=np.int8), []
    if isinstance(rows[0], Mapping):
        labels = list(rows[0])
        for r in rows:
            if set(r) != set(labels):
                raise ValueError("mismatched labels in samples")
        arr = np.array([[r[v] for v in labels] for r in rows], dtype=dtype)
        if arr.size == 0:
            arr = arr.reshape(len(rows), len(labels))
        return arr, labels
    arr = np.array(rows, dtype=dtype)
    if arr.ndim == 1:
        arr = arr.reshape(1, -1)
    return arr, list(range(arr.shape[1]))


class SampleView(Mapping):
    __slots__ = ("_row", "_index")

    def __init__(self, row, index):
        self._row = row
        self._index = index

    def __getitem__(self, v):
        return self._row[self._index[v]]

    def __iter__(self):
        return iter(self._index)

    def __len__(self):
        return len(self._index)

    def __repr__(self):
        return repr(dict(self))


class SampleSet:
    def __init__(self, record, variables, info, vartype, sort_labels=True):
        self._record = record
        self._variables = list(variables)
        self._index = {v: i for i, v in enumerate(self._variables)}
        self._info = dict(info)
        self._vartype = vartype

    @classmethod
    def from_samples(cls, samples_like, vartype, energy, info=None, num_occurrences=None,
                     aggregate_samples=False, sort_labels=True, **vectors):
        arr, labels = as_samples(samples_like)
        arr = np.asarray(arr)
        energy = np.asarray(energy, dtype=float).reshape(-1)
        if len(energy) != len(arr):
            if energy.size == 1:
                energy = np.repeat(energy, len(arr))
            else:
                raise ValueError("energy and samples have different lengths")
        if sort_labels and labels:
            try:
                order = sorted(range(len(labels)), key=lambda i: labels[i])
            except TypeError:
                order = list(range(len(labels)))
            arr = arr[:, order] if arr.size else arr
            labels = [labels[i] for i in order]
        occ = np.ones(len(arr), dtype=int) if num_occurrences is None else np.asarray(num_occurrences, dtype=int)
        rec = {"sample": arr, "energy": energy, "num_occurrences": occ}
        for k, v in vectors.items():
            rec[k] = np.asarray(v)
        s = cls(rec, labels, info or {}, vartype)
        return s.aggregate() if aggregate_samples else s

    @property
    def record(self):
        return _Record(self._record)

    @property
    def variables(self):
        return self._variables

    @property
    def info(self):
        return self._info

    @property
    def vartype(self):
        return self._vartype

    @property
    def first(self):
        try:
            return next(self.data(sorted_by="energy", name="Sample"))
        except StopIteration:
            raise ValueError("%s is empty" % type(self).__name__)

    def __len__(self):
        return len(self._record["sample"])

    def _order(self, sorted_by, reverse=False):
        n = len(self)
        if sorted_by is None:
            o = list(range(n))
        else:
            key = self._record[sorted_by].tolist()
            o = sorted(range(n), key=lambda i: key[i])
        return o[::-1] if reverse else o

    def data(self, fields=None, sorted_by="energy", name="Sample", reverse=False, sample_dict_cast=True, index=False):
        names = list(self._record) if fields is None else list(fields)
        T = namedtuple(name, names + (["idx"] if index else [])) if name else None
        for i in self._order(sorted_by, reverse):
            vals = []
            for f in names:
                if f == "sample":
                    v = SampleView(self._record["sample"][i], self._index)
                    vals.append(dict(v) if sample_dict_cast else v)
                else:
                    vals.append(self._record[f][i])
            if index:
                vals.append(i)
            yield T(*vals) if T else tuple(vals)

    def samples(self, n=None, sorted_by="energy"):
        o = self._order(sorted_by)
        if n is not None:
            o = o[:n]
        return [SampleView(self._record["sample"][i], self._index) for i in o]

    def __iter__(self):
        return iter(self.samples(sorted_by=None))

    def _take(self, idx):
        return type(self)({k: v[idx] for k, v in self._record.items()}, self._variables, self._info, self._vartype)

    def aggregate(self):
        seen = collections.OrderedDict()
        for i, row in enumerate(self._record["sample"].tolist()):
            seen.setdefault(tuple(row), []).append(i)
        s = self._take([v[0] for v in seen.values()])
        s._record["num_occurrences"] = np.array([int(sum(self._record["num_occurrences"][i] for i in v)) for v in seen.values()])
        return s

    def truncate(self, n, sorted_by="energy"):
        return self._take(self._order(sorted_by)[:n])

    def slice(self, *a, sorted_by="energy"):
        return self._take(self._order(sorted_by)[slice(*a)])

    def filter(self, pred):
        return self._take([i for i, d in enumerate(self.data(sorted_by=None)) if pred(d)])

    def lowest(self, rtol=1e-5, atol=1e-8):
        e = self._record["energy"]
        m = e.min()
        return self._take([i for i in range(len(e)) if abs(e[i] - m) <= atol + rtol * abs(m)])

    def copy(self):
        return self._take(list(range(len(self))))

    def resolve(self):
        return self

    def done(self):
        return True

    def __getstate__(self):
        return self.__dict__

    def __repr__(self):
        return "SampleSet(%r, %r)" % (self._record["energy"], self._variables)


class _Record(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __len__(self):
        return len(self["sample"])


def concatenate(samplesets, defaults=None):
    samplesets = list(samplesets)
    rec = {k: np.concatenate([s._record[k] for s in samplesets]) for k in samplesets[0]._record}
    return SampleSet(rec, samplesets[0].variables, samplesets[0].info, samplesets[0].vartype)


def _log_weights(ub):
    d = int(math.floor(math.log2(ub)))
    w = [2 ** i for i in range(d)]
    w.append(ub - 2 ** d + 1)
    return w


def cqm_to_bqm(cqm, lagrange_multiplier=None, *args, **kw):
    """Penalty model with binary encoded integers and slacks (for fidelity tests)."""
    bqm = BinaryQuadraticModel({}, {}, 0.0, BINARY)
    enc = {}
    for v, (t, lb, ub) in cqm._vinfo.items():
        if t == BINARY:
            enc[v] = ([(v, 1)], 0)
        else:
            enc[v] = ([((v, i), w) for i, w in enumerate(_log_weights(int(ub - lb)))], lb)

    def expand(m):
        lin, off = {}, m.offset
        for v, b in m.linear.items():
            off += b * enc[v][1]
            for u, w in enc[v][0]:
                lin[u] = lin.get(u, 0.0) + b * w
        return lin, off

    if lagrange_multiplier is None:
        b = [abs(x) for x in expand(cqm.objective)[0].values()]
        lagrange_multiplier = 10 * max(b) if b and max(b) else 1

    lin, off = expand(cqm.objective)
    for u, b in lin.items():
        bqm._var(u)
        bqm.add_linear(u, b)
    bqm.offset += off
    for n, c in cqm.constraints.items():
        lin, off = expand(c.lhs)
        off -= c.rhs
        if c.sense != "==":
            if c.sense == ">=":
                lin, off = {u: -b for u, b in lin.items()}, -off
            lo = sum(min(b, 0) for b in lin.values()) + off
            ub = int(-lo)
            if ub > 0:
                for i, w in enumerate(_log_weights(ub)):
                    lin[("slack", n, i)] = w
        terms = list(lin.items())
        for u, _ in terms:
            bqm._var(u)
        L = lagrange_multiplier
        for i, (u, a) in enumerate(terms):
            bqm.add_linear(u, L * (a * a + 2 * a * off))
            for w, b in terms[i + 1:]:
                bqm.add_quadratic(u, w, L * 2 * a * b)
        bqm.offset += L * off * off
    return bqm, (lambda s: s)


from . import sampleset, constrained  # noqa: E402,F401
