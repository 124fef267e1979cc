"""Concrete counterpart of the symbolic context, free of solver code."""

import math

TOL = 1e-6


class PathAbort(BaseException):
    """Ends the current path (assumption violated)."""


def same_concrete(x, y, tol):
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1., abs(x), abs(y))


def pairs(a, b):
    import numpy as np
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        aa = np.array(a, dtype=object)
        bb = np.array(b, dtype=object)
        aa, bb = np.broadcast_arrays(aa, bb)
        return list(zip(aa.ravel().tolist(), bb.ravel().tolist()))
    return [(a, b)]


class ConcreteCheckFailed(Exception):
    pass


class ConcreteCtx:
    """The same interface on concrete values, for replays on the plain code."""
    symbolic = False

    def __init__(self, values, factor=0.5):
        self.values = dict(values)
        self.factor = factor
        self.failures = []
        self.obs = []
        self.labels = {}
        self.missing = []

    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, lo if lo is not None else (hi if hi is not None else 0.)))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    double = real

    def const(self, x):
        return float(x)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('{}{}'.format(name, i), lo, hi) for i in range(n)]

    def vec(self, name, n, lo=None, hi=None):
        import numpy as np
        return np.array([
            self.real(
                '{}{}'.format(name, i),
                lo[i] if isinstance(lo, (list, tuple)) else lo,
                hi[i] if isinstance(hi, (list, tuple)) else hi
            ) for i in range(n)
        ])

    def array(self, values):
        import numpy as np
        return np.array(values, dtype=float)

    def sqrt(self, x):
        return math.sqrt(x)

    def boolean(self, name):
        return bool(self._get(name, False))

    lazy_bool = boolean

    def choice(self, name, n):
        if n <= 0:
            raise PathAbort('empty choice')
        return min(int(self._get(name, 0)), n - 1)

    def integer(self, name, lo, hi):
        return lo + self.choice(name, hi - lo + 1)

    def assume(self, cond):
        if not cond:
            raise PathAbort('assumption')

    def close(self, a, b, tol=TOL):
        return all(same_concrete(x, y, tol * self.factor) for x, y in pairs(a, b))

    def le(self, a, b, tol=TOL):
        return all(float(x) <= float(y) + tol * self.factor for x, y in pairs(a, b))

    def all(self, conds):
        return all(bool(c) for c in list(conds))

    def any(self, conds):
        return any(bool(c) for c in list(conds))

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def abs(self, a):
        return abs(a)

    def floor_term(self, a):
        return math.floor(a)

    def is_true(self, cond):
        return bool(cond)

    def count(self, conds):
        return float(sum(1 for c in conds if c))

    def check(self, label, cond, detail=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.failures.append((label, str(detail)))
            raise ConcreteCheckFailed(label)

    def fail(self, label, detail=''):
        self.check(label, False, detail)

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def observe(self, label, value):
        self.obs.append((label, value))
