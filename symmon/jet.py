"""Second-order truncated Taylor arithmetic with numpy broadcasting.

Jet = value, sparse gradient {i: array}, sparse Hessian {(i, j): array, i <= j}.
Independent of sympy: this is the derivative oracle.  ``Track.m`` records the
largest intermediate magnitude, from which comparisons take their tolerance.
"""
import numpy as np


class Track(object):
    m = 1.0
    slack = 0.0     # how far rounding of the arguments moves the result

    @classmethod
    def reset(cls):
        cls.m = 1.0
        cls.slack = 0.0

    @classmethod
    def see(cls, arr):
        with np.errstate(all='ignore'):
            a = np.max(np.abs(arr)) if np.size(arr) else 0.0
        if not np.isfinite(a):
            cls.m = np.inf
        elif a > cls.m:
            cls.m = float(a)
        return arr


class Jet(object):
    __array_priority__ = 1000
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g=None, h=None):
        self.v = Track.see(np.asarray(v, dtype=float))
        self.g = g or {}
        self.h = h or {}
        for a in self.g.values():
            Track.see(a)
        for a in self.h.values():
            Track.see(a)

    @staticmethod
    def seed(value, i):
        return Jet(value, {i: np.asarray(1.0)})

    @staticmethod
    def wrap(x):
        return x if isinstance(x, Jet) else Jet(x)

    def __neg__(self):
        return Jet(-self.v, {i: -a for i, a in self.g.items()}, {k: -a for k, a in self.h.items()})

    def __add__(self, o):
        o = Jet.wrap(o)
        g = dict(self.g)
        for i, a in o.g.items():
            g[i] = g[i] + a if i in g else a
        h = dict(self.h)
        for k, a in o.h.items():
            h[k] = h[k] + a if k in h else a
        return Jet(self.v + o.v, g, h)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-Jet.wrap(o))

    def __rsub__(self, o):
        return Jet.wrap(o) - self

    def __mul__(self, o):
        o = Jet.wrap(o)
        g, h = {}, {}
        for i, a in self.g.items():
            g[i] = a * o.v
        for i, a in o.g.items():
            g[i] = g[i] + self.v * a if i in g else self.v * a
        for k, a in self.h.items():
            h[k] = a * o.v
        for k, a in o.h.items():
            h[k] = h[k] + self.v * a if k in h else self.v * a
        for i, a in self.g.items():
            for j, b in o.g.items():
                k = (min(i, j), max(i, j))
                t = 2 * a * b if i == j else a * b
                h[k] = h[k] + t if k in h else t
        return Jet(self.v * o.v, g, h)
    __rmul__ = __mul__

    def lift(self, f, d1, d2):
        """Composition with a scalar function with given value and derivatives."""
        g = {i: d1 * a for i, a in self.g.items()}
        h = {k: d1 * a for k, a in self.h.items()}
        items = sorted(self.g.items())
        for x, (i, a) in enumerate(items):
            for j, b in items[x:]:
                t = d2 * a * b
                h[(i, j)] = h[(i, j)] + t if (i, j) in h else t
        return Jet(f, g, h)

    def reciprocal(self):
        return self.lift(1 / self.v, -1 / self.v ** 2, 2 / self.v ** 3)

    def __truediv__(self, o):
        return self * Jet.wrap(o).reciprocal()

    def __rtruediv__(self, o):
        return Jet.wrap(o) * self.reciprocal()

    def __pow__(self, n):
        if isinstance(n, Jet):
            return fn('exp', n * fn('log', self))
        v = self.v
        return self.lift(v ** n, n * v ** (n - 1) if n != 0 else 0 * v,
                         n * (n - 1) * v ** (n - 2) if n not in (0, 1) else 0 * v)

    def __rpow__(self, base):
        return fn('exp', self * np.log(base))

    # -- dense views ------------------------------------------------------------
    def grad(self, n):
        shape = np.shape(self.v)
        out = np.zeros((n,) + shape)
        for i, a in self.g.items():
            out[i] = a
        return out

    def hess(self, n):
        shape = np.shape(self.v)
        out = np.zeros((n, n) + shape)
        for (i, j), a in self.h.items():
            out[i, j] = a
            out[j, i] = a
        return out

    def sum(self):
        """Sum over all elements (scalar jet); the value's shape broadcasts all."""
        shape = np.shape(self.v)
        s = lambda a: np.sum(np.broadcast_to(a, shape))
        return Jet(s(self.v), {i: s(a) for i, a in self.g.items()}, {k: s(a) for k, a in self.h.items()})

    def broadcast(self, shape):
        b = lambda a: np.broadcast_to(a, shape)
        return Jet(b(self.v), {i: b(a) for i, a in self.g.items()}, {k: b(a) for k, a in self.h.items()})


FUNCS = {
    'sin': (np.sin, np.cos, lambda v: -np.sin(v)),
    'cos': (np.cos, lambda v: -np.sin(v), lambda v: -np.cos(v)),
    'exp': (np.exp, np.exp, np.exp),
    'log': (np.log, lambda v: 1 / v, lambda v: -1 / v ** 2),
    'sqrt': (np.sqrt, lambda v: 0.5 / np.sqrt(v), lambda v: -0.25 * v ** -1.5),
    'tanh': (np.tanh, lambda v: 1 - np.tanh(v) ** 2, lambda v: -2 * np.tanh(v) * (1 - np.tanh(v) ** 2)),
    'atan': (np.arctan, lambda v: 1 / (1 + v ** 2), lambda v: -2 * v / (1 + v ** 2) ** 2),
    'sinh': (np.sinh, np.cosh, np.sinh),
    'cosh': (np.cosh, np.sinh, np.cosh),
}


def fn(name, x):
    f, d1, d2 = FUNCS[name]
    if isinstance(x, Jet):
        return x.lift(f(x.v), d1(x.v), d2(x.v))
    return Track.see(f(x))
