"""
Symbolic execution engine.

The code under test is executed by CPython itself, unchanged, on values of
class ``Sym`` (a real-valued z3 term). Whenever control flow depends on a
symbolic condition (``bool(SymBool)``, ``int(Sym)``) the engine decides with
z3 which outcomes are feasible under the current path condition, follows one
and later re-executes the harness for the other (depth-first, by replaying the
recorded decisions). ``Ctx.check`` asks z3 whether the negated assertion is
satisfiable together with the path condition.

Number semantics: exact real arithmetic for everything that involves a symbolic
operand, IEEE double arithmetic (CPython/numpy itself) between concrete values.
"""

import math
import sys
import signal
import threading
import time
import itertools
import numbers
from fractions import Fraction

import z3

from .concrete import TOL, same_concrete as _same_concrete, pairs as _pairs
from . import concrete as _concrete

z3.set_param('smt.random_seed', 0)


class EngineLimit(Exception):
    """The engine cannot execute this operation symbolically."""

    def __init__(self, *args):
        super().__init__(*args)
        if ENGINE is not None:
            ENGINE.limit = str(args[0]) if args else 'limit'


class _Control(BaseException):
    """
    Steers the exploration. Code under test may not swallow it: the engine
    remembers it and raises it again at its next operation.
    """

    def __init__(self, *args):
        super().__init__(*args)
        if ENGINE is not None and ENGINE.pending is None:
            ENGINE.pending = self


class PathAbort(_Control, _concrete.PathAbort):
    """Ends the current path (assumption violated)."""


class BudgetExceeded(_Control):
    """Paths / time of a case used up."""


class PathTimeout(_Control):
    """A single path takes too long (endless loop in the code under test?)."""


def _on_alarm(_signum, _frame):
    raise PathTimeout('path does not end')


class StopExploration(_Control):
    """Enough violations found."""


ENGINE = None  # the active Engine, or None in concrete mode

_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def active():
    return ENGINE is not None


def _frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    return Fraction(float(v))


_CONST_CACHE = {}


def _const(v):
    """z3 numeral for a finite python number."""
    if type(v) is not Fraction:
        try:
            key = float(v)
            hit = _CONST_CACHE.get(key)
            if hit is not None and not isinstance(v, int):
                return hit
        except OverflowError:
            key = None
        f = _frac(v)
        c = z3.RealVal(str(f))
        if key is not None and len(_CONST_CACHE) < 100000 and Fraction(key) == f:
            _CONST_CACHE[key] = c
        return c
    return z3.RealVal(str(v))


def is_number(v):
    if isinstance(v, numbers.Number):
        return True
    import numpy as np
    return isinstance(v, (np.number, np.bool_))


def _numeral(t):
    """Fraction if t is a numeral, else None."""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def wrap(t):
    """A z3 real term as python value (concrete if it is a numeral)."""
    n = _numeral(t)
    if n is not None:
        if n.denominator == 1 and abs(n.numerator) < 2**53:
            return float(n.numerator)
        f = float(n)
        if Fraction(f) == n:
            return f
        return Sym(t)
    return Sym(t)


def term(v):
    """z3 real term of a python value; only finite numbers."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    import numpy as np
    if isinstance(v, np.ndarray) and v.shape == ():
        return term(v.item())
    return _const(v)


def wrap_bool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    return _TRUE if bool(v) else _FALSE


class SymBool:
    """A symbolic truth value. Python control flow on it forks the path."""
    __slots__ = ('t', 'far')

    def __init__(self, t, far=None):
        self.t = t
        self.far = far  # implies not t, with a margin (for models that survive rounding)

    def __bool__(self):
        return ENGINE.branch(self.t)

    def __and__(self, other):
        return wrap_bool(z3.simplify(z3.And(self.t, bool_term(other))))

    __rand__ = __and__

    def __or__(self, other):
        return wrap_bool(z3.simplify(z3.Or(self.t, bool_term(other))))

    __ror__ = __or__

    def __invert__(self):
        return wrap_bool(z3.simplify(z3.Not(self.t)))

    def __eq__(self, other):
        if isinstance(other, (SymBool, bool)) or is_number(other):
            return wrap_bool(z3.simplify(self.t == bool_term(other)))
        return NotImplemented

    def __ne__(self, other):
        if isinstance(other, (SymBool, bool)) or is_number(other):
            return wrap_bool(z3.simplify(self.t != bool_term(other)))
        return NotImplemented

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SymBool({})'.format(self.t)


def _special(v):
    """Is v a concrete infinity or nan?"""
    return isinstance(v, float) and not math.isfinite(v)


def _conv(other):
    """Normalize the other operand: Sym, python float special, or number."""
    if isinstance(other, (Sym, SymBool)):
        return other
    if isinstance(other, (bool, int, Fraction)):
        return other
    if isinstance(other, float):
        return float(other)
    if is_number(other):
        if isinstance(other, numbers.Integral):
            return int(other)
        return float(other)
    return None


class Sym:
    """A symbolic real number."""
    __slots__ = ('t', 'sq')

    def __init__(self, t, sq=None):
        self.t = t
        self.sq = sq  # radicand, if this is the square root of a term

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            return o
        if not isinstance(o, (Sym, SymBool)) and o == 0:
            return self
        return wrap(z3.simplify(self.t + term(o)))

    __radd__ = __add__

    def __sub__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            return -o
        if not isinstance(o, (Sym, SymBool)) and o == 0:
            return self
        return wrap(z3.simplify(self.t - term(o)))

    def __rsub__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            return o
        return wrap(z3.simplify(term(o) - self.t))

    def __mul__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            return _scaled_special(self, o)
        if not isinstance(o, (Sym, SymBool)):
            if o == 1:
                return self
            if o == 0:
                return 0.
        if isinstance(o, Sym) and o.sq is not None and o.t.eq(self.t):
            return wrap(o.sq)
        return wrap(z3.simplify(self.t * term(o)))

    __rmul__ = __mul__

    def __truediv__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            return float('nan') if math.isnan(o) else 0.
        if isinstance(o, Sym):
            if o == 0:
                return _div_zero(self)
            return wrap(z3.simplify(ENGINE.quotient(self.t, o.t)))
        f = _frac(o)
        if f == 0:
            return _div_zero(self)
        if f == 1:
            return self
        return wrap(z3.simplify(self.t * _const(1 / f)))

    def __rtruediv__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if self == 0:
            return _div_zero(o)
        if _special(o):
            return _scaled_special(self, o)
        if o == 0:
            return 0.
        return wrap(z3.simplify(ENGINE.quotient(term(o), self.t)))

    def __floordiv__(self, other):
        q = self / other
        if isinstance(q, Sym):
            return float(ENGINE.floor(q))
        return math.floor(q) if math.isfinite(q) else q

    def __rfloordiv__(self, other):
        q = other / self
        if isinstance(q, Sym):
            return float(ENGINE.floor(q))
        return math.floor(q) if math.isfinite(q) else q

    def __mod__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, other):
        m = self % other
        return (self - m) / other, m

    def __pow__(self, other):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if isinstance(o, Sym):
            raise EngineLimit('symbolic exponent')
        if float(o).is_integer() and 0 <= o <= 8:
            res = 1.
            for _ in range(int(o)):
                res = self * res
            return res
        if o == 0.5:
            return self.sqrt()
        if o == -1:
            return 1. / self
        raise EngineLimit('exponent {}'.format(o))

    def __rpow__(self, other):
        raise EngineLimit('symbolic exponent')

    def __neg__(self):
        return wrap(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        t = self.t
        if self.sq is not None:
            return self
        return Sym(z3.If(t >= 0, t, -t))

    def sqrt(self):
        return ENGINE.sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    # -- comparisons --------------------------------------------------------
    def _cmp(self, other, op):
        o = _conv(other)
        if o is None:
            return NotImplemented
        if _special(o):
            if math.isnan(o):
                return op == 'ne'
            if op in ('lt', 'le'):
                return o > 0
            if op in ('gt', 'ge'):
                return o < 0
            return op == 'ne'
        a, b = self, o
        sa = self.sq
        if sa is not None and not isinstance(o, Sym):
            # sqrt(x) <op> constant, without the root
            c = _frac(o)
            if c < 0:
                return op in ('gt', 'ge', 'ne')
            if c == 0 and op in ('ge', 'lt'):
                return op == 'ge'
            return wrap_bool(z3.simplify(_rel(op, sa, _const(c * c))))
        if sa is not None and isinstance(o, Sym):
            if o.sq is not None:
                return wrap_bool(z3.simplify(_rel(op, sa, o.sq)))
            nonneg = o.t >= 0
            body = _rel(op, sa, o.t * o.t)
            if op in ('lt', 'le', 'eq'):
                return wrap_bool(z3.simplify(z3.And(nonneg, body)))
            return wrap_bool(z3.simplify(z3.Or(z3.Not(nonneg), body)))
        if isinstance(o, Sym) and o.sq is not None:
            return o._cmp(self, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op))
        return wrap_bool(z3.simplify(_rel(op, a.t, term(b))))

    def __lt__(self, other):
        return self._cmp(other, 'lt')

    def __le__(self, other):
        return self._cmp(other, 'le')

    def __gt__(self, other):
        return self._cmp(other, 'gt')

    def __ge__(self, other):
        return self._cmp(other, 'ge')

    def __eq__(self, other):
        if self is other:
            return True
        return self._cmp(other, 'eq')

    def __ne__(self, other):
        if self is other:
            return False
        return self._cmp(other, 'ne')

    def __hash__(self):
        return 0

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    # -- conversions --------------------------------------------------------
    def __int__(self):
        return ENGINE.trunc(self)

    __trunc__ = __int__

    def __floor__(self):
        return ENGINE.floor(self)

    def __ceil__(self):
        return -ENGINE.floor(-self)

    def __round__(self, ndigits=None):
        if ndigits is None:
            return ENGINE.round(self)
        scale = 10**ndigits
        return ENGINE.round(self * scale) / scale

    def rint(self):
        return float(ENGINE.round(self))

    def floor(self):
        return float(ENGINE.floor(self))

    def ceil(self):
        return float(-ENGINE.floor(-self))

    def trunc(self):
        return float(ENGINE.trunc(self))

    def __float__(self):
        n = ENGINE.unique_value(self.t)
        if n is not None:
            return float(n)
        raise EngineLimit('float() of a symbolic value')

    def __index__(self):
        raise TypeError('symbolic real used as an index')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'


numbers.Real.register(Sym)


def _rel(op, a, b):
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    if op == 'ge':
        return a >= b
    if op == 'eq':
        return a == b
    return a != b


def _scaled_special(sym, special):
    if math.isnan(special):
        return special
    if sym == 0:
        return float('nan')
    return special if sym > 0 else -special


def _div_zero(num):
    """numpy semantics of x / 0"""
    if isinstance(num, Sym):
        if num == 0:
            return float('nan')
        return float('inf') if num > 0 else -float('inf')
    if num == 0 or (isinstance(num, float) and math.isnan(num)):
        return float('nan')
    return math.copysign(float('inf'), num)


def _mod(a, b):
    """python / numpy remainder: a - floor(a / b) * b"""
    if _special(a):
        return float('nan')
    if _special(b):
        raise EngineLimit('remainder by infinity')
    if not isinstance(b, Sym):
        if b == 0:
            return float('nan')
        return ENGINE.mod_const(a, _frac(b))
    if b == 0:
        return float('nan')
    at, bt = term(a), b.t
    if b > 0:
        k = ENGINE.concretize(
            lambda v: z3.And(at >= v * bt, at < (v + 1) * bt),
            lambda m: math.floor(model_fraction(m, at) / model_fraction(m, bt))
        )
    else:
        k = ENGINE.concretize(
            lambda v: z3.And(at <= v * bt, at > (v + 1) * bt),
            lambda m: math.floor(model_fraction(m, at) / model_fraction(m, bt))
        )
    return a - k * b


class SqrtSym(Sym):
    """
    A square root. Comparisons use the radicand; the variable for the root
    with its defining (nonlinear) constraint exists only if it is needed.
    """
    __slots__ = ('_t', )

    def __init__(self, sq):
        self.sq = sq
        self._t = None

    @property
    def t(self):
        if self._t is None:
            self._t = ENGINE.root(self.sq)
        return self._t


class Violation:
    def __init__(self, label, model, decisions, detail=''):
        self.label = label
        self.model = model
        self.decisions = decisions
        self.detail = detail


class Stats:
    FIELDS = (
        'paths', 'aborted', 'branch_nodes', 'branch_edges', 'solver_calls', 'checks_discharged', 'checks_trivial',
        'checks_unknown', 'unknown_branches', 'fallback_calls', 'models'
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_time = 0.
        self.labels = {}
        self.observed = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_time'] = self.solver_time
        d['labels'] = dict(self.labels)
        d['observed'] = dict(self.observed)
        return d


class Engine:
    """Depth-first explorer of all feasible paths of one harness."""

    def __init__(self, *, max_paths=200000, deadline=None, max_decisions=4000, mod_ints=False, nra=False,
                 incremental_timeout=1500, fallback_timeout=20000, path_timeout=120,
                 merge=False, max_violations=3, fp=False):
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.mod_ints = mod_ints  # symbolic integer for floor(x/const) instead of forking over its value
        self.nra = nra
        self.merge = merge
        self.path_timeout = path_timeout
        self.max_violations = max_violations
        self.incremental_timeout = incremental_timeout
        self.fallback_timeout = fallback_timeout
        self.fp = fp  # floating-point operands (fpsym)
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', incremental_timeout)
        self.stack = []
        self.violations = []
        self.on_violation = None
        self.inconclusive = []
        self._memo = {}

    # -- path constraints ---------------------------------------------------
    def _start_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pos = 0
        self.inputs = {}
        self.input_order = []
        self.funcs = []
        self.counter = itertools.count()
        self.sqrt_cache = {}
        self.quot_cache = {}
        self.narrow_cache = {}
        self.floor_cache = {}
        self.strong = []  # exact definitions of results given by contracts
        self.pending = None
        self.limit = None

    def add(self, c):
        """Add a constraint to the path condition."""
        if z3.is_true(c):
            return
        if self.pos < len(self.stack):
            if self.stack[self.pos].eq(c):
                self.pos += 1
                return
            self._trim()
        self.solver.push()
        self.solver.add(c)
        self.stack.append(c)
        self.pos += 1

    def _trim(self):
        n = len(self.stack) - self.pos
        if n > 0:
            self.solver.pop(n)
            del self.stack[self.pos:]

    def alive(self):
        if self.pending is not None:
            raise self.pending

    def _solve(self, extra, want_model=False):
        """'sat' / 'unsat' / 'unknown' for path condition and extra; model."""
        self.alive()
        self._trim()
        self.stats.solver_calls += 1
        t0 = time.perf_counter()
        try:
            res = None
            if not self.nra and not self.fp:
                self.solver.push()
                try:
                    self.solver.add(extra)
                    r = self.solver.check()
                    if r == z3.sat:
                        return 'sat', (self.solver.model() if want_model else None)
                    if r == z3.unsat:
                        return 'unsat', None
                finally:
                    self.solver.pop()
            return self._fallback(extra, want_model)
        finally:
            self.stats.solver_time += time.perf_counter() - t0

    def _fallback(self, extra, want_model):
        self.stats.fallback_calls += 1
        assertions = list(self.stack) + [extra]
        if self.fp:
            return self._solve_fp(assertions, want_model)
        for mk, tmo in (
            (lambda: z3.Tactic('qfnra-nlsat').solver(), min(3000, self.fallback_timeout)),
            (lambda: z3.SolverFor('QF_NRA'), self.fallback_timeout),
            (z3.SimpleSolver, self.fallback_timeout),
        ):
            s = mk()
            s.set('timeout', tmo)
            s.add(*assertions)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                m = s.model() if want_model else None
                return 'sat', m
            if r == z3.unsat:
                return 'unsat', None
        r = cvc5_check(assertions, self.fallback_timeout)
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat' and not want_model:
            return 'sat', None
        return 'unknown', None

    def _solve_fp(self, assertions, want_model):
        s = z3.Tactic('qffp').solver()
        s.set('timeout', self.fallback_timeout)
        s.add(*assertions)
        r = s.check()
        if r == z3.sat:
            return 'sat', (s.model() if want_model else None)
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    # -- decisions ----------------------------------------------------------
    def _tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise BudgetExceeded('time')
        if len(self.decisions) > self.max_decisions:
            raise BudgetExceeded('decisions')

    def branch(self, cond):
        """Decide a boolean condition on this path."""
        if not isinstance(cond, z3.ExprRef):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            if kind != 'b':
                raise BudgetExceeded('execution is not deterministic')
            self.decisions.append(('b', val))
            if val in (0, 1):
                self.add(cond if val else z3.Not(cond))
                return bool(val)
            return val == 'T'
        self._tick()
        # T / F: implied by the path condition, 1 / 0: a real fork
        rt, _ = self._solve(cond)
        if rt == 'unsat':
            self.decisions.append(('b', 'F'))
            return False
        rf, _ = self._solve(z3.Not(cond))
        if rf == 'unsat':
            self.decisions.append(('b', 'T'))
            return True
        if 'unknown' in (rt, rf):
            self.stats.unknown_branches += 1
        self.stats.branch_nodes += 1
        self.stats.branch_edges += 2
        self.worklist.append(self.decisions + [('b', 0)])
        self.decisions.append(('b', 1))
        self.add(cond)
        return True

    def choose(self, t, values):
        """Fork over the given candidate values of an integer term."""
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            if kind != 'c':
                raise BudgetExceeded('execution is not deterministic')
            self.decisions.append(('c', v))
            self.add(t == v)
            return v
        self._tick()
        feas = [v for v in values if self._solve(t == v)[0] != 'unsat']
        if not feas:
            raise PathAbort('no feasible value')
        self.stats.branch_nodes += 1
        self.stats.branch_edges += len(feas)
        for v in reversed(feas[1:]):
            self.worklist.append(self.decisions + [('c', v)])
        self.decisions.append(('c', feas[0]))
        self.add(t == feas[0])
        return feas[0]

    def concretize(self, make, guess):
        """
        Fork over all integers v for which make(v) is feasible; guess(model)
        proposes a value.
        """
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            if kind != 'i':
                raise BudgetExceeded('execution is not deterministic')
            self.decisions.append(('i', v))
            self.add(make(v))
            return v
        self._tick()
        found = []
        excluded = []
        while True:
            r, m = self._solve(z3.And(*[z3.Not(make(v)) for v in found]) if found else _TRUE, want_model=True)
            if r == 'unsat':
                break
            if r == 'unknown' or m is None:
                if not found:
                    raise EngineLimit('cannot enumerate integer values (solver: unknown)')
                # explore those which are known to be possible
                self.inconclusive.append('cannot enumerate all integer values (solver: unknown)')
                break
            v = guess(m)
            if v in excluded:
                raise EngineLimit('integer enumeration does not progress')
            excluded.append(v)
            found.append(v)
            if len(found) > 512:
                raise EngineLimit('too many integer values')
        if not found:
            raise PathAbort('dead path')
        found.sort(key=lambda v: (abs(v), v))
        self.stats.branch_nodes += 1
        self.stats.branch_edges += len(found)
        for v in reversed(found[1:]):
            self.worklist.append(self.decisions + [('i', v)])
        self.decisions.append(('i', found[0]))
        self.add(make(found[0]))
        return found[0]

    # -- integer parts ------------------------------------------------------
    def _model_real(self, m, t):
        return model_fraction(m, t)

    def floor(self, x):
        t = x.t if isinstance(x, Sym) else _const(x)
        n = _numeral(z3.simplify(t))
        if n is not None:
            return math.floor(n)
        return self.concretize(
            lambda v: z3.And(t >= v, t < v + 1), lambda m: math.floor(self._model_real(m, t))
        )

    def trunc(self, x):
        t = x.t if isinstance(x, Sym) else _const(x)
        n = _numeral(z3.simplify(t))
        if n is not None:
            return int(n)

        def make(v):
            if v > 0:
                return z3.And(t >= v, t < v + 1)
            if v < 0:
                return z3.And(t <= v, t > v - 1)
            return z3.And(t > -1, t < 1)

        return self.concretize(make, lambda m: int(self._model_real(m, t)))

    def round(self, x):
        t = x.t
        half = z3.RealVal('1/2')

        def make(v):
            if v % 2 == 0:
                return z3.And(t >= v - half, t <= v + half)
            return z3.And(t > v - half, t < v + half)

        return self.concretize(make, lambda m: round(self._model_real(m, t)))

    def mod_const(self, a, b):
        """a % b for a constant b != 0"""
        if not isinstance(a, Sym):
            return a % float(b)
        if b < 0:
            r = self.mod_const(-a, -b)
            return -r
        q = a * (1 / b)
        if not isinstance(q, Sym):
            return a - math.floor(_numeral(z3.simplify(a.t)) / b) * b
        if self.mod_ints:
            key = (q.t.get_id(), )
            hit = self.floor_cache.get(key)
            if hit is None:
                k = z3.ToReal(z3.Int('k!{}'.format(next(self.counter))))
                self.add(z3.And(q.t >= k, q.t < k + 1))
                self.floor_cache[key] = (k, q.t)
                hit = self.floor_cache[key]
            return wrap(z3.simplify(a.t - hit[0] * _const(b)))
        k = self.floor(q)
        return a - k * b

    # -- roots and quotients --------------------------------------------------
    def sqrt(self, x):
        if not isinstance(x, Sym):
            return math.sqrt(x) if x >= 0 else float('nan')
        t = z3.simplify(x.t)
        base = _square_base(t)
        if base is not None:
            return Sym(z3.If(base >= 0, base, -base))
        if not _sum_of_squares(t) and x < 0:
            return float('nan')
        return SqrtSym(t)

    def root(self, t):
        """Variable for the square root of a non-negative term."""
        hit = self.sqrt_cache.get(t.get_id())
        if hit is None:
            y = z3.Real('sqrt!{}'.format(next(self.counter)))
            self.add(z3.And(y >= 0, y * y == t))
            hit = (y, t)
            self.sqrt_cache[t.get_id()] = hit
        return hit[0]

    def quotient(self, a, b):
        """a / b with b != 0 on this path, as a fresh variable."""
        key = (a.get_id(), b.get_id())
        hit = self.quot_cache.get(key)
        if hit is None:
            q = z3.Real('quot!{}'.format(next(self.counter)))
            self.add(q * b == a)
            hit = (q, a, b)
            self.quot_cache[key] = hit
        return hit[0]

    def narrow(self, x, bits):
        """
        x rounded to a narrower binary floating-point type with the given
        number of significant bits: values of few bits are unchanged, others
        change by at most half a unit in the last place.
        """
        if not isinstance(x, Sym):
            import numpy as np
            return float({24: np.float32, 11: np.float16}[bits](x))
        if self.fp:
            sort = {24: z3.Float32(), 11: z3.Float16()}[bits]
            return type(x)(z3.fpToFP(z3.RNE(), z3.fpToFP(z3.RNE(), x.t, sort), z3.Float64()))
        t = z3.simplify(x.t)
        if z3.is_int(t):
            t = z3.ToReal(t)
        key = (t.get_id(), bits)
        hit = self.narrow_cache.get(key)
        if hit is None:
            r = z3.Real('narrow!{}'.format(next(self.counter)))
            size = z3.If(t >= 0, t, -t)
            err = size / 2**bits + _const(Fraction(1, 2**(25 if bits == 11 else 150)))
            self.add(z3.And(
                r - t <= err, t - r <= err, z3.Implies(t >= 0, r >= 0), z3.Implies(t <= 0, r <= 0),
                z3.Implies(z3.And(size <= 8, z3.IsInt(t * 2**(bits - 4))), r == t)
            ))
            self.strong.append(z3.Implies(z3.And(64 * size >= 1, z3.Not(z3.IsInt(t * 2**(bits + 6)))), r != t))
            hit = (r, t)
            self.narrow_cache[key] = hit
        return Sym(hit[0])

    def unique_value(self, t):
        n = _numeral(z3.simplify(t))
        if n is not None:
            return n
        r, m = self._solve(_TRUE, want_model=True)
        if r != 'sat' or m is None:
            return None
        v = model_fraction(m, t)
        if self._solve(t != _const(v))[0] == 'unsat':
            return v
        return None

    # -- inputs ---------------------------------------------------------------
    def new_input(self, name, t, kind):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = (t, kind)
        self.input_order.append(name)

    # -- exploration ----------------------------------------------------------
    def report(self, ctx, label, neg, detail='', far=None):
        """A counterexample to a check."""
        models = []
        for extra, nice in ((far, True), (neg, True), (far, False), (neg, False)):
            if extra is None:
                continue
            vals = self.get_model(z3.And(neg, extra), nice=nice)
            if vals is not None and vals not in models:
                models.append(vals)
        self.violations.append(Violation(label, models, list(self.decisions), detail))
        if self.on_violation is not None:
            self.on_violation(self.violations[-1])
        if len(self.violations) >= self.max_violations:
            raise StopExploration()

    def _alarm(self, on):
        if not self.path_timeout or threading.current_thread() is not threading.main_thread():
            return
        if not on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return
        signal.signal(signal.SIGALRM, _on_alarm)
        seconds = self.path_timeout
        if self.deadline is not None:
            seconds = min(seconds, max(1., self.deadline - time.monotonic() + 5))
        signal.setitimer(signal.ITIMER_REAL, seconds)

    def explore(self, harness, on_path=None):
        """Run harness(ctx) on every feasible path."""
        global ENGINE
        self.worklist = [[]]
        completed = True
        while self.worklist:
            prefix = self.worklist.pop()
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append('path budget of {} used up'.format(self.max_paths))
                return False
            self._start_path(prefix)
            ctx = Ctx(self)
            self.ctx = ctx
            status = 'ok'
            exc = None
            ENGINE = self
            self._alarm(True)
            try:
                try:
                    harness(ctx)
                finally:
                    self._alarm(False)
            except _Control as e:
                self.pending = self.pending or e
            except (KeyboardInterrupt, SystemExit, GeneratorExit):
                ENGINE = None
                raise
            except BaseException as e:  # pylint: disable=broad-except
                status, exc = 'exception', e
            pending, self.pending = self.pending, None
            if isinstance(pending, BudgetExceeded):
                ENGINE = None
                self.inconclusive.append('budget: {}'.format(pending))
                return False
            if isinstance(pending, StopExploration):
                ENGINE = None
                return True
            if isinstance(pending, PathTimeout):
                if self.deadline is not None and time.monotonic() > self.deadline:
                    ENGINE = None
                    self.inconclusive.append('budget: time')
                    return False
                status, exc = 'exception', TimeoutError('path does not end')
            elif pending is not None:
                status, exc = 'aborted', None
            elif status == 'ok' and self.limit is not None:
                status, exc = 'exception', RuntimeError('swallowed engine limit: ' + self.limit)
            self.stats.paths += 1
            if status == 'aborted':
                self.stats.aborted += 1
            try:
                if on_path is not None and on_path(self, ctx, status, exc) is False:
                    return True
            except StopExploration:
                return True
            except BudgetExceeded as e:
                self.inconclusive.append('budget: {}'.format(e))
                return False
            finally:
                self.pending = None
                ENGINE = None
        return completed

    # -- models -----------------------------------------------------------------
    def get_model(self, extra, nice=True):
        """Concrete values of all inputs under path condition and extra."""
        if self.fp:
            return self._fp_model(extra)
        r, m = 'unknown', None
        if self.strong:
            exact = z3.And(extra, *self.strong)
            r, m = self._solve(exact, want_model=True)
            if r == 'sat' and m is not None:
                extra = exact
        if r != 'sat' or m is None:
            r, m = self._solve(extra, want_model=True)
        if r != 'sat' or m is None:
            return None
        self.stats.models += 1
        self.last_model = m
        vals = {}
        if nice:
            # make the values exactly representable where that is possible
            pinned = [extra]
            for name in self.input_order:
                t, kind = self.inputs[name]
                if kind == 'bool':
                    vals[name] = z3.is_true(m.eval(t, model_completion=True))
                    pinned.append(t if vals[name] else z3.Not(t))
                    continue
                v = model_fraction(m, t)
                if kind == 'int':
                    vals[name] = int(v)
                    pinned.append(t == int(v))
                    continue
                done = False
                for den in (1, 4, 16, 256, 65536, 2**24) + ((2**40, ) if self.strong else ()):
                    c = Fraction(round(v * den), den)
                    r2, m2 = self._solve(z3.And(*pinned, t == _const(c)), want_model=True)
                    if r2 == 'sat' and m2 is not None:
                        m = m2
                        vals[name] = float(c)
                        pinned.append(t == _const(c))
                        done = True
                        break
                if not done:
                    vals[name] = float(v)
                    # keep the exact value for the remaining ones
                    r2, m2 = self._solve(z3.And(*pinned, t == m.eval(t, model_completion=True)), want_model=True)
                    if r2 == 'sat' and m2 is not None:
                        pinned.append(t == m.eval(t, model_completion=True))
                        m = m2
        else:
            for name in self.input_order:
                t, kind = self.inputs[name]
                if kind == 'bool':
                    vals[name] = z3.is_true(m.eval(t, model_completion=True))
                else:
                    v = model_fraction(m, t)
                    vals[name] = int(v) if kind == 'int' else float(v)
        self.last_model = m
        return vals


    def _fp_model(self, extra):
        from .fpsym import fp_value
        r, m = self._solve(z3.And(extra, *self.strong), want_model=True)
        if r != 'sat' or m is None:
            return None
        self.stats.models += 1
        self.last_model = m
        vals = {}
        for name in self.input_order:
            t, kind = self.inputs[name]
            v = m.eval(t, model_completion=True)
            vals[name] = z3.is_true(v) if kind == 'bool' else fp_value(v) if kind == 'fp' else model_fraction(m, t)
            if kind == 'int':
                vals[name] = int(vals[name])
        return vals


def _sum_of_squares(t):
    """Is t syntactically a sum of non-negative multiples of squares?"""
    n = _numeral(t)
    if n is not None:
        return n >= 0
    if z3.is_add(t):
        return all(_sum_of_squares(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        e = _numeral(t.arg(1))
        return e is not None and e.denominator == 1 and e.numerator % 2 == 0
    if z3.is_mul(t):
        args = list(t.children())
        c = _numeral(args[0])
        if c is not None:
            if c < 0:
                return False
            args = args[1:]
        while args:
            if len(args) >= 2 and args[0].eq(args[1]):
                args = args[2:]
            elif _sum_of_squares(args[0]) and not z3.is_const(args[0]):
                args = args[1:]
            else:
                return False
        return True
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return _sum_of_squares(t.arg(1)) and _sum_of_squares(t.arg(2))
    return False


def _square_base(t):
    """b if t is syntactically b * b (up to a rational square), else None"""
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        if _numeral(t.arg(1)) == 2:
            return t.arg(0)
        return None
    if z3.is_mul(t):
        args = list(t.children())
        c = Fraction(1)
        if _numeral(args[0]) is not None:
            c = _numeral(args[0])
            args = args[1:]
        if c < 0:
            return None
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        root = _const(Fraction(rn, rd))
        if len(args) == 2 and args[0].eq(args[1]):
            return z3.simplify(root * args[0])
        if len(args) == 1:
            b = _square_base(args[0])
            return None if b is None else z3.simplify(root * b)
    return None


def model_fraction(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    n = _numeral(v)
    if n is not None:
        return n
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    n = _numeral(v)
    if n is not None:
        return n
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineLimit('no value in model: {}'.format(v))


def cvc5_check(assertions, timeout_ms):
    """Second opinion from cvc5, via SMT-LIB2 text."""
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    s.add(*assertions)
    text = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setLogic('QF_NIRA')
        parser = cvc5.InputParser(slv)
        lines = [l for l in text.splitlines() if not l.startswith('(set-info') and '(check-sat)' not in l]
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '\n'.join(lines), 'q')
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if '(error' in str(out):
                return 'unknown'
        r = slv.checkSat()
        if r.isSat():
            return 'sat'
        if r.isUnsat():
            return 'unsat'
    except Exception:  # pylint: disable=broad-except
        return 'unknown'
    return 'unknown'




class Ctx:
    """What a harness sees in symbolic mode."""
    symbolic = True

    def __init__(self, engine):
        self.e = engine
        self.obs = []
        self.failed = []

    # inputs
    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self.e.new_input(name, t, 'real')
        if lo is not None:
            self.e.add(t >= term(lo))
        if hi is not None:
            self.e.add(t <= term(hi))
        return Sym(t)

    def double(self, name, lo=None, hi=None):
        """A finite double-precision number (with the engine option fp)."""
        from . import fpsym
        t = z3.FP(name, fpsym.SORT)
        self.e.new_input(name, t, 'fp')
        self.e.add(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        if lo is not None:
            self.e.add(z3.fpGEQ(t, fpsym.fp_term(lo)))
        if hi is not None:
            self.e.add(z3.fpLEQ(t, fpsym.fp_term(hi)))
        return fpsym.FSym(t)

    def const(self, x):
        """A constant which hashes like symbolic numbers do (as long as it is not computed with)."""
        return Sym(_const(x))

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('{}{}'.format(name, i), lo, hi) for i in range(n)]

    def array(self, values):
        """numpy array of the given (nested) values"""
        from .npshim import SArray
        import numpy as np
        return np.array(values, dtype=object).view(SArray)

    def vec(self, name, n, lo=None, hi=None):
        """numpy vector of symbolic reals"""
        return self.array([
            self.real(
                '{}{}'.format(name, i), lo[i] if isinstance(lo, (list, tuple)) else lo,
                hi[i] if isinstance(hi, (list, tuple)) else hi
            ) for i in range(n)
        ])

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, Sym) else math.sqrt(x)

    def boolean(self, name):
        t = z3.Bool(name)
        self.e.new_input(name, t, 'bool')
        return SymBool(t)

    def choice(self, name, n):
        """A symbolic integer in range(n), enumerated by forking."""
        t = z3.Int(name)
        self.e.new_input(name, t, 'int')
        if n <= 0:
            raise PathAbort('empty choice')
        self.e.add(z3.And(t >= 0, t < n))
        return self.e.choose(t, list(range(n)))

    def integer(self, name, lo, hi):
        return lo + self.choice(name, hi - lo + 1)

    def lazy_bool(self, name):
        """A fork on a fresh boolean."""
        return bool(self.boolean(name))

    # conditions
    def assume(self, cond):
        c = bool_term(cond)
        self.e.add(z3.simplify(c))
        if self.e.pos >= len(self.e.stack) and len(self.e.decisions) >= len(self.e.prefix):
            if self.e._solve(_TRUE)[0] == 'unsat':
                raise PathAbort('assumption')

    def close(self, a, b, tol=TOL):
        """a and b (numbers or arrays) are equal up to tol"""
        return self.all([self._close1(x, y, tol) for x, y in _pairs(a, b)])

    def _close1(self, x, y, tol):
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return _same_concrete(x, y, tol)
        if _special_any(x) or _special_any(y):
            return False
        if isinstance(x, Sym) and isinstance(y, Sym) and x.sq is not None and y.sq is not None:
            if x.sq.eq(y.sq):
                return True
            d = z3.simplify(x.sq - y.sq, som=True)
            n = _numeral(d)
            if n is not None and n == 0:
                return True
            # |a - b| <= tol**2 implies |sqrt(a) - sqrt(b)| <= tol
            tt = _const(_frac(tol)**2)
            return _with_margin(z3.And(d <= tt, d >= -tt), d)
        d = z3.simplify(term(x) - term(y), som=True)
        n = _numeral(d)
        if n is not None:
            return abs(n) <= _frac(tol)
        tt = _const(tol)
        return _with_margin(z3.And(d <= tt, d >= -tt), d)

    def le(self, a, b, tol=TOL):
        return self.all([x <= y + tol for x, y in _pairs(a, b)])

    def all(self, conds):
        conds = list(conds)
        ts = [bool_term(c) for c in conds]
        res = wrap_bool(z3.simplify(z3.And(*ts))) if ts else True
        fars = [c.far for c in conds if isinstance(c, SymBool) and c.far is not None]
        if isinstance(res, SymBool) and fars:
            res.far = z3.Or(*fars)
        return res

    def any(self, conds):
        ts = [bool_term(c) for c in conds]
        return wrap_bool(z3.simplify(z3.Or(*ts))) if ts else False

    def not_(self, c):
        return wrap_bool(z3.simplify(z3.Not(bool_term(c))))

    def implies(self, a, b):
        return wrap_bool(z3.simplify(z3.Implies(bool_term(a), bool_term(b))))

    def iff(self, a, b):
        return wrap_bool(z3.simplify(bool_term(a) == bool_term(b)))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return wrap(z3.simplify(z3.If(bool_term(c), term(a), term(b))))

    def abs(self, a):
        return abs(a)

    def floor_term(self, a):
        """floor as term (symbolic integer), without forking"""
        if not isinstance(a, Sym):
            return math.floor(a)
        return Sym(z3.ToReal(z3.ToInt(a.t)))

    def is_true(self, cond):
        """Fork on cond and return a python bool."""
        return bool(cond)

    def count(self, conds):
        """Number of true conditions, as a term."""
        res = 0.
        for c in conds:
            if isinstance(c, SymBool):
                res = Sym(z3.If(c.t, z3.RealVal(1), z3.RealVal(0))) + res
            else:
                res = res + (1. if c else 0.)
        return res

    # assertions
    def check(self, label, cond, detail=''):
        e = self.e
        st = e.stats
        st.labels[label] = st.labels.get(label, 0) + 1
        c = z3.simplify(bool_term(cond))
        if z3.is_true(c):
            st.checks_trivial += 1
            return
        i = len(e.decisions)
        if i < len(e.prefix):
            # already decided when the prefix was first executed
            e.decisions.append(('k', True))
            e.add(c)
            return
        r, _ = e._solve(z3.Not(c))
        if r == 'unsat':
            st.checks_discharged += 1
        elif r == 'sat':
            e.report(self, label, z3.Not(c), detail, cond.far if isinstance(cond, SymBool) else None)
            if z3.is_false(c) or e._solve(c)[0] == 'unsat':
                raise PathAbort('violated')
        else:
            st.checks_unknown += 1
            e.inconclusive.append('solver gave up on check {!r}'.format(label))
        e.decisions.append(('k', True))
        e.add(c)

    def fail(self, label, detail=''):
        """Reaching this point is a violation."""
        self.check(label, False, detail)

    def reach(self, label):
        """A reachability witness: this point has to be reached by some path."""
        self.e.stats.labels[label] = self.e.stats.labels.get(label, 0) + 1

    def observe(self, label, value):
        self.obs.append((label, value))


def _with_margin(cond, diff):
    res = wrap_bool(z3.simplify(cond))
    if isinstance(res, SymBool):
        m = _const(Fraction(1, 16))
        res.far = z3.Or(diff > m, diff < -m)
    return res


def _special_any(x):
    return isinstance(x, float) and not math.isfinite(x)


def eval_obs(model, v):
    """Value of an observation in a model."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return eval_obs(model, v.tolist())
    if isinstance(v, (list, tuple)):
        return [eval_obs(model, x) for x in v]
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.t, model_completion=True))
    if isinstance(v, Sym) and z3.is_fp(v.t):
        from .fpsym import fp_value
        return fp_value(model.eval(v.t, model_completion=True))
    if isinstance(v, SqrtSym):
        return math.sqrt(max(0., float(model_fraction(model, v.sq))))
    if isinstance(v, Sym):
        return float(model_fraction(model, v.t))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return str(v)
