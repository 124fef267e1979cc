"""
Symbolic IEEE 754 double-precision operands (SMT theory of floating-point
numbers, round to nearest even).

Additions, subtractions, multiplications and comparisons are exact semantics.
The remainder and the division are expressed by contracts which every correct
implementation of fmod / division fulfills; candidate counterexamples are
asked for with the exact definitions of both, and then replayed.
"""
import math

import z3

from . import core
from .core import Sym, SymBool, EngineLimit, wrap_bool

SORT = z3.Float64()
RNE = z3.RNE()
ZERO = z3.FPVal(0., SORT)


def fp_term(v):
    if isinstance(v, FSym):
        return v.t
    if isinstance(v, (Sym, SymBool)):
        raise EngineLimit('real operand in floating-point arithmetic')
    return z3.FPVal(float(v), SORT)


def fp_wrap(t):
    t = z3.simplify(t)
    v = fp_value(t)
    return FSym(t) if v is None else v


def fp_value(t):
    """float of a numeral"""
    if not z3.is_fp_value(t):
        return None
    if t.isNaN():
        return math.nan
    if t.isInf():
        return -math.inf if t.isNegative() else math.inf
    bits = z3.simplify(z3.fpToIEEEBV(t)).as_long()
    import struct
    return struct.unpack('<d', struct.pack('<Q', bits))[0]


def fresh(name):
    return z3.FP('{}!{}'.format(name, next(core.ENGINE.counter)), SORT)


def _number(other):
    return isinstance(other, FSym) or (core.is_number(other) and not isinstance(other, complex))


def _op(fct, swap=False):
    def method(self, other):
        if not _number(other):
            return NotImplemented
        a, b = fp_term(self), fp_term(other)
        if swap:
            a, b = b, a
        return fp_wrap(fct(RNE, a, b))
    return method


_REL = {'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'eq': z3.fpEQ, 'ne': z3.fpNEQ}


def divide(a, b):
    """a / b for finite a and non-zero, finite b"""
    if fp_value(b) == 1:
        return fp_wrap(a)
    e = core.ENGINE
    if e.branch(z3.fpEQ(b, ZERO)):
        raise EngineLimit('division by zero')
    n = fp_value(b)
    if e.fp == 'exact':
        return fp_wrap(z3.fpDiv(RNE, a, b))
    if n is not None and math.frexp(n)[0] in (0.5, -0.5) or (fp_value(a) is not None and n is not None):
        return fp_wrap(z3.fpDiv(RNE, a, b))
    key = ('fp', a.get_id(), b.get_id())
    if key in e.quot_cache:
        return fp_wrap(e.quot_cache[key][0])
    q = fresh('quot')
    e.quot_cache[key] = (q, a, b)
    aa, ab, aq = z3.fpAbs(a), z3.fpAbs(b), z3.fpAbs(q)
    one = z3.FPVal(1., SORT)
    e.add(z3.And(
        z3.Not(z3.fpIsNaN(q)),
        z3.Or(z3.fpIsZero(q), z3.fpIsNegative(q) == z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b))),
        z3.fpIsZero(a) == z3.And(z3.fpIsZero(q), z3.fpIsZero(a)),
        z3.Implies(z3.fpLEQ(aa, ab), z3.fpLEQ(aq, one)),
        z3.Implies(z3.fpGEQ(aa, ab), z3.fpGEQ(aq, one)),
    ))
    e.strong.append(q == z3.fpDiv(RNE, a, b))
    return fp_wrap(q)


def fmod(a, b):
    """C's fmod for b > 0 and finite a (term)"""
    e = core.ENGINE
    if fp_value(a) is not None and fp_value(b) is not None:
        return z3.FPVal(math.fmod(fp_value(a), fp_value(b)), SORT)
    key = ('fp', a.get_id(), b.get_id())
    if key in e.floor_cache:
        return e.floor_cache[key][0]
    m = fresh('fmod')
    e.floor_cache[key] = (m, a, b)
    e.add(z3.And(
        z3.fpLT(z3.fpAbs(m), b),
        z3.Or(z3.fpIsZero(m), z3.fpIsNegative(m) == z3.fpIsNegative(a)),
        z3.Implies(z3.fpLT(z3.fpAbs(a), b), z3.fpEQ(m, a)),
        z3.fpLEQ(z3.fpAbs(m), z3.fpAbs(a)),
    ))
    n = fresh('count')
    e.strong.append(z3.And(
        z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), n), n), z3.fpLEQ(z3.fpAbs(n), z3.FPVal(64., SORT)),
        z3.fpEQ(m, z3.fpFMA(RNE, z3.fpNeg(n), b, a)),
    ))
    return m


class FSym(Sym):
    """A symbolic double-precision number."""
    __slots__ = ()

    __add__ = _op(z3.fpAdd)
    __radd__ = _op(z3.fpAdd, swap=True)
    __sub__ = _op(z3.fpSub)
    __rsub__ = _op(z3.fpSub, swap=True)
    __mul__ = _op(z3.fpMul)
    __rmul__ = _op(z3.fpMul, swap=True)

    def __truediv__(self, other):
        if not _number(other):
            return NotImplemented
        return divide(self.t, fp_term(other))

    def __rtruediv__(self, other):
        if not _number(other):
            return NotImplemented
        return divide(fp_term(other), self.t)

    def __mod__(self, other):
        """numpy's remainder"""
        if not _number(other):
            return NotImplemented
        e = core.ENGINE
        b = fp_term(other)
        if not e.branch(z3.fpGT(b, ZERO)):
            raise EngineLimit('remainder of a non-positive number')
        m = fmod(self.t, b)
        if e.branch(z3.fpIsZero(m)):
            return 0.
        if e.branch(z3.fpLT(m, ZERO)):
            return fp_wrap(z3.fpAdd(RNE, m, b))
        return fp_wrap(m)

    def __rmod__(self, other):
        if not _number(other):
            return NotImplemented
        return FSym(fp_term(other)) % self

    def __floordiv__(self, other):
        raise EngineLimit('floor division of floating-point numbers')

    __rfloordiv__ = __floordiv__
    __divmod__ = __rdivmod__ = __floordiv__

    def __pow__(self, other):
        if core.is_number(other) and other == 2:
            return self * self
        if core.is_number(other) and other == 1:
            return self
        raise EngineLimit('power of a floating-point number')

    def __neg__(self):
        return fp_wrap(z3.fpNeg(self.t))

    def __abs__(self):
        return fp_wrap(z3.fpAbs(self.t))

    def sqrt(self):
        r = fp_wrap(z3.fpSqrt(RNE, self.t))
        return r if isinstance(r, Sym) else float(r)

    def _cmp(self, other, op):
        if not _number(other):
            return NotImplemented
        return wrap_bool(z3.simplify(_REL[op](self.t, fp_term(other))))

    def __eq__(self, other):
        return self._cmp(other, 'eq')

    def __ne__(self, other):
        return self._cmp(other, 'ne')

    __hash__ = Sym.__hash__

    def _integer(self, make, guess):
        t = self.t

        def constraint(v):
            lo, hi, strict_lo, strict_hi = make(v)
            lo, hi = z3.FPVal(float(lo), SORT), z3.FPVal(float(hi), SORT)
            return z3.And(
                (z3.fpGT if strict_lo else z3.fpGEQ)(t, lo), (z3.fpLT if strict_hi else z3.fpLEQ)(t, hi)
            )

        return core.ENGINE.concretize(constraint, lambda m: guess(fp_value(m.eval(t, model_completion=True))))

    def __int__(self):
        def make(v):
            if v > 0:
                return v, v + 1, False, True
            if v < 0:
                return v - 1, v, True, False
            return -1, 1, True, True
        return self._integer(make, int)

    __trunc__ = __int__

    def __floor__(self):
        return self._integer(lambda v: (v, v + 1, False, True), math.floor)

    def __ceil__(self):
        return self._integer(lambda v: (v - 1, v, True, False), math.ceil)

    def floor(self):
        return float(math.floor(self))

    def ceil(self):
        return float(math.ceil(self))

    def trunc(self):
        return float(int(self))

    def rint(self):
        return fp_wrap(z3.fpRoundToIntegral(RNE, self.t))

    def __round__(self, ndigits=None):
        raise EngineLimit('round of a floating-point number')

    def __float__(self):
        raise EngineLimit('float() of a symbolic value')

    def __reduce__(self):
        raise EngineLimit('pickle')


