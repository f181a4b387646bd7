"""Stub of pyqubo: polynomials with placeholders, log encoded integers, decoding."""
import math

import numpy as np


def _isnum(x):
    return isinstance(x, (int, float, np.number))


class Base:
    """Polynomial: {monomial (sorted tuple of names): {placeholder monomial: coefficient}}"""

    def __init__(self, terms=None, subh=None):
        self.terms = terms if terms is not None else {}
        self.subh = subh if subh is not None else {}

    @staticmethod
    def _lift(x):
        if isinstance(x, Base):
            return x
        if _isnum(x):
            return Base({(): {(): float(x)}})
        return None

    def __add__(self, other):
        o = Base._lift(other)
        if o is None:
            return NotImplemented
        t = {m: dict(c) for m, c in self.terms.items()}
        for m, c in o.terms.items():
            d = t.setdefault(m, {})
            for p, x in c.items():
                d[p] = d.get(p, 0.0) + x
        s = dict(self.subh)
        s.update(o.subh)
        return Base(t, s)

    __radd__ = __add__

    def __iadd__(self, other):
        o = Base._lift(other)
        if o is None:
            return NotImplemented
        if type(self) is not Base:
            return self + other
        r = Base(self.terms, self.subh)
        for m, c in o.terms.items():
            d = r.terms.get(m)
            if d is None:
                r.terms[m] = dict(c)
            else:
                d = r.terms[m] = dict(d)
                for p, x in c.items():
                    d[p] = d.get(p, 0.0) + x
        r.subh = dict(self.subh)
        r.subh.update(o.subh)
        # expressions are values: keep the operand intact
        return r

    def __neg__(self):
        return self * -1

    def __sub__(self, other):
        o = Base._lift(other)
        if o is None:
            return NotImplemented
        return self + o * -1

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        o = Base._lift(other)
        if o is None:
            return NotImplemented
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = tuple(sorted(set(m1 + m2)))
                if len(m) > 2:
                    raise NotImplementedError("stub supports quadratic polynomials only")
                d = t.setdefault(m, {})
                for p1, x1 in c1.items():
                    for p2, x2 in c2.items():
                        p = tuple(sorted(p1 + p2))
                        d[p] = d.get(p, 0.0) + x1 * x2
        s = dict(self.subh)
        s.update(o.subh)
        return Base(t, s)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self * (1.0 / other)

    def __pow__(self, n):
        if not isinstance(n, int) or n < 1:
            raise ValueError("`exponent` should be positive")
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def compile(self, strength=5.0):
        return Model(self)


class Binary(Base):
    def __init__(self, label):
        super().__init__({(label,): {(): 1.0}})
        self.label = label


class Placeholder(Base):
    def __init__(self, label):
        super().__init__({(): {(label,): 1.0}})
        self.label = label


class Num(Base):
    def __init__(self, value):
        super().__init__({(): {(): float(value)}})


def SubH(expr, label, as_penalty=False):
    s = dict(expr.subh)
    s[label] = Base(expr.terms)
    return Base(expr.terms, s)


def Constraint(expr, label, condition=None):
    return SubH(expr, label)


class LogEncInteger(Base):
    def __init__(self, label, value_range):
        lower, upper = value_range
        assert upper > lower, "upper value should be larger than lower value"
        assert isinstance(lower, int)
        assert isinstance(upper, int)
        n = int(math.floor(math.log2(upper - lower))) + 1
        d = n - 1
        t = {(): {(): float(lower)}}
        for i in range(d):
            t[("%s[%d]" % (label, i),)] = {(): float(2 ** i)}
        t[("%s[%d]" % (label, d),)] = {(): float(upper - lower - (2 ** d - 1))}
        super().__init__(t)
        self.subh = {label: Base(t)}
        self.label = label
        self.value_range = (lower, upper)


class DecodedSample:
    def __init__(self, sample, energy, subh):
        self.sample = sample
        self.energy = energy
        self.subh = subh

    def constraints(self, only_broken=False):
        return {}


class Model:
    def __init__(self, expr):
        self._expr = expr
        names = set()
        for m in expr.terms:
            names.update(m)
        self.variables = sorted(names)

    def _feed(self, c, feed):
        s = 0.0
        for p, x in c.items():
            for name in p:
                x = x * feed[name]
            s += x
        return s

    def _poly(self, feed_dict):
        feed = feed_dict or {}
        lin, quad, off = {v: 0.0 for v in self.variables}, {}, 0.0
        for m, c in self._expr.terms.items():
            try:
                x = self._feed(c, feed)
            except KeyError as e:
                raise ValueError("The feed_dict does not contain placeholder %s" % e)
            if len(m) == 0:
                off += x
            elif len(m) == 1:
                lin[m[0]] += x
            else:
                quad[m] = quad.get(m, 0.0) + x
        return lin, quad, off

    def to_bqm(self, index_label=False, feed_dict=None):
        import dimod
        lin, quad, off = self._poly(feed_dict)
        quad = {k: b for k, b in quad.items() if b != 0.0}
        return dimod.BinaryQuadraticModel(lin, quad, off, "BINARY")

    def to_qubo(self, index_label=False, feed_dict=None):
        lin, quad, off = self._poly(feed_dict)
        q = {(v, v): b for v, b in lin.items() if b != 0.0}
        q.update({k: b for k, b in quad.items() if b != 0.0})
        return q, off

    def decode_sample(self, sample, vartype, index_label=False, feed_dict=None):
        if vartype == "SPIN":
            sample = {v: (x + 1) // 2 for v, x in sample.items()}
        sample = {v: sample[v] for v in self.variables}
        subh = {label: self._value(e.terms, sample, feed_dict) for label, e in self._expr.subh.items()}
        return DecodedSample(sample, self._value(self._expr.terms, sample, feed_dict), subh)

    def decode_sampleset(self, sampleset, feed_dict=None):
        return [self.decode_sample(dict(s), "BINARY", feed_dict=feed_dict) for s in sampleset.samples(sorted_by=None)]

    def _value(self, terms, sample, feed_dict):
        e = 0.0
        for m, c in terms.items():
            on = True
            for v in m:
                if not sample[v]:
                    on = False
                    break
            if on:
                e += self._feed(c, feed_dict or {})
        return e
