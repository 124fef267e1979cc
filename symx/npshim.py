"""
Lets numpy / scipy / math functions called by the code under test accept
symbolic numbers (instances of ``Sym`` in object arrays).

``install()`` has to run before the code under test is imported. The wrappers
change nothing unless an exploration is active, the caller is a module of the
code under test (array creation), or an argument contains a ``Sym``.
"""

import builtins
import math
import sys

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, EngineLimit, wrap, wrap_bool, term, _const, _special

TARGET = 'nodefinder'
_installed = False
ORIG = {}


def _from_target(depth=2):
    return sys._getframe(depth).f_globals.get('__name__', '').split('.')[0] == TARGET


def _merge():
    return core.ENGINE is not None and getattr(core.ENGINE, 'merge', False)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(has_sym(v, depth + 1) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)) and depth < 8:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, (zip, map, range, str, bytes, int, float)) or x is None:
        return False
    return False


def plain(x):
    """View as base ndarray; object arrays of plain numbers become float."""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    return x


def settle(x):
    """object array without symbolic content -> numeric array"""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        try:
            return np.ndarray.astype(x.view(np.ndarray), float)
        except (TypeError, ValueError):
            return x
    return x


_BITS = {4: 24, 2: 11}  # significant bits of narrower floating-point types


class SArray(np.ndarray):
    """Object array holding symbolic numbers."""

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *args, **kwargs):
        if self.dtype == object and has_sym(self):
            d = np.dtype(_real_type(dtype))
            if d.kind == 'f' and d.itemsize < 8:
                res = self.copy()
                res.view(np.ndarray).reshape(-1)[:] = [core.ENGINE.narrow(v, _BITS[d.itemsize]) for v in self.ravel().tolist()]
                return res
            if d.kind in 'fcO':
                return self.copy()
            if d.kind in 'iu':
                res = np.empty(self.shape, dtype=d)
                flat = self.ravel().tolist()
                res.reshape(-1)[:] = [int(v) for v in flat]
                return res
            if d.kind == 'b':
                res = np.empty(self.shape, dtype=bool)
                res.reshape(-1)[:] = [bool(v) for v in self.ravel().tolist()]
                return res
        return self.view(np.ndarray).astype(_real_type(dtype), *args, **kwargs)

    def __getitem__(self, key):
        return super().__getitem__(_force_index(key))

    def __setitem__(self, key, value):
        super().__setitem__(_force_index(key), value)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        inputs = tuple(plain(i) for i in inputs)
        if 'dtype' in kwargs and kwargs['dtype'] is not None:
            d = np.dtype(_real_type(kwargs['dtype']))
            if d.kind in 'fO':
                kwargs.pop('dtype')
            else:
                kwargs['dtype'] = d
        handler = None
        if method == '__call__' and ufunc in ELEMENTWISE:
            fct = ELEMENTWISE[ufunc]
            res = _elementwise(fct, inputs, kwargs)
            if out is not None:
                out[0].view(np.ndarray)[...] = res
                return out[0]
            return res
        if method == 'reduce' and ufunc in (np.maximum, np.minimum):
            handler = _reduce_minmax(ufunc, inputs[0], **kwargs)
            if out is not None and out[0] is not None:
                out[0].view(np.ndarray)[...] = handler
                return out[0]
            return handler
        if out is not None:
            kwargs['out'] = tuple(plain(o) for o in out)
            if method == '__call__' and len(out) == 1 and out[0].dtype.kind == 'f':
                res = getattr(ufunc, method)(*inputs)
                if has_sym(res):
                    raise EngineLimit('symbolic values in a float array')
                out[0][...] = settle(res)
                return out[0]
            getattr(ufunc, method)(*inputs, **kwargs)
            return out[0] if len(out) == 1 else out
        res = getattr(ufunc, method)(*inputs, **kwargs)
        if isinstance(res, tuple):
            return tuple(_rewrap(r) for r in res)
        return _rewrap(res)


def _force_index(key):
    if isinstance(key, tuple):
        return tuple(_force_index(k) for k in key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, np.ndarray) and key.dtype == object:
        flat = key.ravel().tolist()
        if flat and all(isinstance(v, (bool, np.bool_, SymBool)) for v in flat):
            res = np.empty(key.shape, dtype=bool)
            res.reshape(-1)[:] = [bool(v) for v in flat]
            return res
        if flat and all(isinstance(v, (int, np.integer)) for v in flat):
            return key.view(np.ndarray).astype(int)
    return key


def _rewrap(res):
    if isinstance(res, np.ndarray) and res.dtype == object and type(res) is np.ndarray:
        return res.view(SArray)
    return res


def sarray(x):
    res = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
    return res.view(SArray)


def _elementwise(fct, inputs, kwargs):
    where = kwargs.get('where', True)
    if where is not True:
        raise EngineLimit('ufunc where=')
    arrs = [np.asarray(i, dtype=object) if not isinstance(i, np.ndarray) else i for i in inputs]
    arrs = np.broadcast_arrays(*arrs)
    shape = arrs[0].shape
    vals = [fct(*args) for args in zip(*[a.ravel().tolist() for a in arrs])]
    if shape == ():
        return vals[0]
    if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
        return np.array(vals, dtype=bool).reshape(shape)
    res = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        res[i] = v
    return res.reshape(shape).view(SArray)


def _isnan(x):
    return isinstance(x, float) and math.isnan(x)


def _max2(a, b):
    if _isnan(a) or _isnan(b):
        return float('nan')
    if _merge() and isinstance(a >= b, SymBool):
        return _ite(a >= b, a, b)
    return a if a >= b else b


def _min2(a, b):
    if _isnan(a) or _isnan(b):
        return float('nan')
    if _merge() and isinstance(a <= b, SymBool):
        return _ite(a <= b, a, b)
    return a if a <= b else b


def _ite(c, a, b):
    if isinstance(c, SymBool):
        if _special(a) or _special(b):
            return a if bool(c) else b
        return wrap(z3.simplify(z3.If(c.t, term(a), term(b))))
    return a if c else b


def _fmax2(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return _max2(a, b)


def _fmin2(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return _min2(a, b)


def _reduce_minmax(ufunc, arr, axis=0, keepdims=False, initial=None, where=True, **_):
    if where is not True:
        raise EngineLimit('reduce where=')
    fct = _max2 if ufunc is np.maximum else _min2
    arr = np.asarray(arr)
    if axis is None:
        flat = arr.ravel().tolist()
        if initial is not None and initial is not np._NoValue:
            flat.insert(0, initial)
        if not flat:
            raise ValueError('zero-size array to reduction operation which has no identity')
        res = flat[0]
        for v in flat[1:]:
            res = fct(res, v)
        if keepdims:
            out = np.empty((1, ) * arr.ndim, dtype=object)
            out[...] = res
            return out.view(SArray)
        return res
    if isinstance(axis, tuple):
        if len(axis) == arr.ndim:
            return _reduce_minmax(ufunc, arr, None, keepdims, initial)
        raise EngineLimit('reduce over several axes')
    moved = np.moveaxis(arr, axis, 0)
    if moved.shape[0] == 0:
        raise ValueError('zero-size array to reduction operation which has no identity')
    rest = moved.shape[1:]
    res = np.empty(int(np.prod(rest, dtype=int)), dtype=object)
    cols = moved.reshape(moved.shape[0], -1)
    for j in range(res.shape[0]):
        acc = cols[0, j]
        for i in range(1, cols.shape[0]):
            acc = fct(acc, cols[i, j])
        res[j] = acc
    if rest == ():
        return res[0]
    res = res.reshape(rest)
    if keepdims:
        res = np.expand_dims(res, axis)
    return res.view(SArray)


def _isfinite(x):
    return True if isinstance(x, (Sym, SymBool)) else math.isfinite(x)


def _isinf(x):
    return False if isinstance(x, (Sym, SymBool)) else math.isinf(x)


def _sign(x):
    if isinstance(x, Sym):
        if x > 0:
            return 1.
        return 0. if x == 0 else -1.
    return float(np.sign(x))


def _sqrt(x):
    if isinstance(x, Sym):
        return x.sqrt()
    return float(ORIG['np.sqrt'](x))


def _hypot(a, b):
    return _sqrt(a * a + b * b)


def _fmod(a, b):
    q = a / b
    k = int(q)
    return a - k * b


def _floor_divide(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b
    return float(np.floor_divide(a, b))


def _rint(x):
    return x.rint() if isinstance(x, Sym) else float(np.rint(x))


def _floor(x):
    return x.floor() if isinstance(x, Sym) else float(math.floor(x)) if math.isfinite(x) else x


def _ceil(x):
    return x.ceil() if isinstance(x, Sym) else float(math.ceil(x)) if math.isfinite(x) else x


def _trunc(x):
    return x.trunc() if isinstance(x, Sym) else float(math.trunc(x)) if math.isfinite(x) else x


def _logical(op):

    def fct(a, b):
        if op == 'and':
            return bool(a) and bool(b)
        if op == 'or':
            return bool(a) or bool(b)
        return bool(a) != bool(b)

    return fct


def _remainder(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a % b
    return float(np.remainder(float(a), float(b)))


def _true_divide(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    return float(np.true_divide(float(a), float(b)))


def _square(a):
    return a * a


def _cmp(name):
    import operator
    op = getattr(operator, name)

    def fct(a, b):
        r = op(a, b)
        if isinstance(r, SymBool):
            return r if _merge() else bool(r)
        return bool(r)

    return fct


ELEMENTWISE = {
    np.maximum: _max2,
    np.minimum: _min2,
    np.fmax: _fmax2,
    np.fmin: _fmin2,
    np.isfinite: _isfinite,
    np.isinf: _isinf,
    np.isnan: _isnan,
    np.sign: _sign,
    np.sqrt: _sqrt,
    np.hypot: _hypot,
    np.fmod: _fmod,
    np.floor_divide: _floor_divide,
    np.rint: _rint,
    np.floor: _floor,
    np.ceil: _ceil,
    np.trunc: _trunc,
    np.logical_and: _logical('and'),
    np.logical_or: _logical('or'),
    np.logical_xor: _logical('xor'),
    np.logical_not: lambda a: not bool(a),
    np.remainder: _remainder,
    np.true_divide: _true_divide,
    np.square: _square,
    np.fabs: abs,
    np.absolute: abs,
    np.less: _cmp('lt'),
    np.less_equal: _cmp('le'),
    np.greater: _cmp('gt'),
    np.greater_equal: _cmp('ge'),
    np.equal: _cmp('eq'),
    np.not_equal: _cmp('ne'),
}


class _FloatMeta(type):

    def __instancecheck__(cls, obj):
        return isinstance(obj, (float, Sym))

    def __eq__(cls, other):
        return other is float or other is cls

    def __hash__(cls):
        return hash(float)


class FloatShim(float, metaclass=_FloatMeta):
    """``float`` as seen by the code under test: keeps symbolic numbers."""

    def __new__(cls, x=0.):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.size == 1 and has_sym(x):
            return x.ravel()[0]
        return float(x)


def _real_type(dtype):
    return float if dtype is FloatShim else dtype


def _is_float_dtype(dtype):
    if dtype is None:
        return False
    try:
        return np.dtype(_real_type(dtype)).kind in 'fc'
    except TypeError:
        return False


def _mk_array(name):
    orig = ORIG['np.' + name]

    def array(obj, dtype=None, *args, **kwargs):
        dtype = _real_type(dtype)
        if core.ENGINE is None:
            return orig(obj, dtype, *args, **kwargs) if dtype is not None else orig(obj, *([None] if args else []), *args, **kwargs)
        if not isinstance(obj, (np.ndarray, list, tuple, Sym, SymBool)) and not np.isscalar(obj):
            # other sequences, e.g. dict views
            if hasattr(obj, '__len__') and hasattr(obj, '__getitem__') and not isinstance(obj, (str, bytes, dict)) \
                    and not hasattr(obj, '__array__'):
                obj = list(obj)
        if has_sym(obj):
            if dtype is None or _is_float_dtype(dtype):
                res = orig(obj, object, *args, **kwargs).view(SArray)
                if dtype is not None and np.dtype(dtype).itemsize < 8:
                    return res.astype(dtype)
                return res
            if np.dtype(dtype).kind in 'iub':
                return sarray(orig(obj, object)).astype(dtype)
        res = orig(obj, dtype, *args, **kwargs) if (dtype is not None or args) else orig(obj, **kwargs)
        if name == 'array' and isinstance(res, np.ndarray) and res.dtype.kind == 'f' and res.size and (
            dtype is None or _is_float_dtype(dtype)
        ):
            # may be assigned symbolic values later on
            return res.astype(object).view(SArray)
        if dtype is None and isinstance(res, np.ndarray) and res.dtype == object:
            num = settle(res)
            if num.dtype != object:
                if name == 'array' and num.dtype.kind == 'f' and num.size:
                    return np.ndarray.astype(num, object).view(SArray)
                return num
            if not isinstance(res, SArray) and has_sym(res):
                return res.view(SArray)
        return res

    array.__name__ = name
    return array


def _mk_filled(name):
    orig = ORIG['np.' + name]

    def create(*args, **kwargs):
        if 'dtype' in kwargs:
            kwargs['dtype'] = _real_type(kwargs['dtype'])
        args = tuple(_real_type(a) if a is FloatShim else a for a in args)
        if core.ENGINE is None or not _from_target():
            return orig(*args, **kwargs)
        res = orig(*args, **kwargs)
        if res.dtype.kind == 'f':
            if name.startswith('empty'):
                res = np.ndarray.astype(orig(*args, **kwargs), object)
                res.reshape(-1)[:] = [0.] * res.size
            else:
                res = res.astype(object)
            return res.view(SArray)
        return _rewrap(res) if has_sym(res) else res

    create.__name__ = name
    return create


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (has_sym(start) or has_sym(stop)):
        return ORIG['np.linspace'](start, stop, num, endpoint, retstep, dtype, axis)
    num = int(num)
    div = num - 1 if endpoint else num
    if num < 0:
        raise ValueError('Number of samples must be non-negative')
    step = (stop - start) / div if div > 0 else float('nan')
    vals = []
    if core.ENGINE is not None and core.ENGINE.fp and div > 0:
        # the same operations as numpy
        vals = [stop if endpoint and i == num - 1 else i * step + start for i in range(num)]
        res = sarray(vals)
        return (res, step) if retstep else res
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            vals.append(stop)
        else:
            vals.append(start + i * (stop - start) / div if div > 0 else start)
    res = np.empty(num, dtype=object)
    for i, v in enumerate(vals):
        res[i] = v
    res = res.view(SArray)
    return (res, step) if retstep else res


def arange(*args, **kwargs):
    if not any(has_sym(a) for a in args):
        return ORIG['np.arange'](*args, **kwargs)
    start, stop, step = 0., None, 1.
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args[:3]
    n = math.ceil((stop - start) / step)
    if core.ENGINE is not None and core.ENGINE.fp:
        # the same operations as numpy
        delta = (start + step) - start
        return sarray([start + i * delta if i else start for i in range(max(0, int(n)))])
    return sarray([start + i * step for i in range(max(0, int(n)))])


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.isclose'](settle(a), settle(b), rtol, atol, equal_nan)

    def one(x, y):
        if _special(x) or _special(y):
            return x == y
        r = abs(x - y) <= atol + rtol * abs(y)
        return bool(r)

    return _elementwise(one, (plain(a) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object),
                              plain(b) if isinstance(b, np.ndarray) else np.asarray(b, dtype=object)), {})


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.allclose'](settle(a), settle(b), rtol, atol, equal_nan)
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.array_equal'](a, b, equal_nan)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


def where(cond, *args):
    if not args:
        return ORIG['np.where'](_force_index(np.asarray(cond)))
    if has_sym(cond) or any(has_sym(a) for a in args):
        x, y = args
        arrs = [np.asarray(i, dtype=object) if not isinstance(i, np.ndarray) else plain(i) for i in (cond, x, y)]
        return _elementwise(lambda c, p, q: _ite(c, p, q) if isinstance(c, SymBool) and _merge() else (p if c else q),
                            arrs, {})
    return ORIG['np.where'](cond, *args)


def clip(a, a_min=None, a_max=None, out=None, **kwargs):
    if out is None and (has_sym(a) or has_sym(a_min) or has_sym(a_max)):
        res = a
        if a_min is not None:
            res = np.maximum(res, a_min)
        if a_max is not None:
            res = np.minimum(res, a_max)
        return res
    return ORIG['np.clip'](a, a_min, a_max, out=out, **kwargs)


def around(a, decimals=0, out=None):
    if has_sym(a):
        f = lambda v: (round(v, decimals) if decimals else v.rint()) if isinstance(v, Sym) else float(np.round(v, decimals))
        return _elementwise(f, (plain(a) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object), ), {})
    return ORIG['np.around'](a, decimals, out)


def einsum(spec, *ops, **kwargs):
    if not any(has_sym(o) for o in ops):
        return ORIG['np.einsum'](spec, *[settle(o) for o in ops], **kwargs)
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise EngineLimit('einsum with ellipsis')
    arrs = [np.asarray(o) for o in ops]
    dims = {}
    for sub, a in zip(ins, arrs):
        for c, n in zip(sub, a.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        acc = 0.
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            p = 1.
            for sub, a in zip(ins, arrs):
                p = a[tuple(env[c] for c in sub)] * p
            acc = acc + p
        res[idx] = acc
    return res.view(SArray) if res.shape else res[()]


def np_divmod(a, b, *args, **kwargs):
    if has_sym(a) or has_sym(b):
        return np.floor_divide(sarray(a), b), np.remainder(sarray(a), b)
    return ORIG['np.divmod'](a, b, *args, **kwargs)


def det_of(m):
    n = len(m)
    if n == 0:
        return 1.
    if n == 1:
        return m[0][0]
    res = 0.
    for j in range(n):
        sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        d = det_of(sub)
        term_ = m[0][j] * d
        res = res + term_ if j % 2 == 0 else res - term_
    return res


def _det(a, *args, **kwargs):
    if not has_sym(a):
        return ORIG['np.linalg.det'](settle(np.asarray(a)))
    a = np.asarray(a)
    if a.ndim != 2:
        if a.ndim == 3:
            return sarray([_det(x) for x in a])
        raise EngineLimit('det of {} dimensions'.format(a.ndim))
    return det_of(a.tolist())


def _gram(a):
    rows = a.tolist()
    if len(rows) > len(rows[0]):
        rows = [list(c) for c in zip(*rows)]
    k = len(rows)
    return [[sum((x * y for x, y in zip(rows[i], rows[j])), 0.) for j in range(k)] for i in range(k)]


def _zero(x):
    if isinstance(x, Sym):
        t = z3.simplify(x.t)
        return z3.is_rational_value(t) and t.numerator_as_long() == 0
    return x == 0


def _expand(x):
    return wrap(z3.simplify(x.t, som=True)) if isinstance(x, Sym) else x


def singular_values(a):
    """
    Contract of the singular values: non-negative, descending, and their
    squares have the elementary symmetric polynomials of the Gram matrix.
    """
    e = core.ENGINE
    if a.shape[0] < a.shape[1]:
        keep = [j for j in range(a.shape[1]) if not all(_zero(x) for x in a[:, j].tolist())]
        if len(keep) >= a.shape[0]:
            a = a[:, keep]
        else:
            a = a[:, :a.shape[0]] * 0. if not keep else np.concatenate(
                [a[:, keep], a[:, :a.shape[0] - len(keep)] * 0.], axis=1)
    g = _gram(a)
    k = len(g)
    if k == 1:
        vals = [x for x in np.asarray(a).ravel().tolist() if isinstance(x, Sym) or x != 0]
        if len(vals) == 1:
            return [abs(vals[0])]
        return [_sqrt(g[0][0])]
    trace = sum((g[i][i] for i in range(k)), 0.)
    det = det_of(g)
    names = ['sv!{}'.format(next(e.counter)) for _ in range(k)]
    s = [z3.Real(n) for n in names]
    cons = [s[-1] >= 0] + [s[i] >= s[i + 1] for i in range(k - 1)]
    cons.append(sum((x * x for x in s[1:]), s[0] * s[0]) == term(trace))
    # the product is the root of the determinant
    p = abs(det_of(a.tolist())) if a.shape[0] == a.shape[1] else _sqrt(_expand(det))
    prod = s[0]
    for x in s[1:]:
        prod = prod * x
    cons.append(prod == term(p))
    if k == 3:
        minors = g[0][0] * g[1][1] - g[0][1] * g[1][0] + g[0][0] * g[2][2] - g[0][2] * g[2][0] \
            + g[1][1] * g[2][2] - g[1][2] * g[2][1]
        sq = [x * x for x in s]
        cons.append(sq[0] * sq[1] + sq[0] * sq[2] + sq[1] * sq[2] == term(minors))
    if k > 3:
        raise EngineLimit('svd of rank above 3')
    if getattr(e, 'svd_full', False):
        for c in cons:
            e.add(z3.simplify(c))
    return SVD([Sym(x) for x in s], p)


class SVD(list):

    def __init__(self, vals, prod):
        super().__init__(vals)
        self.prod = prod


class SVDArray(SArray):
    """Singular values whose product is known in closed form."""
    product = None


def _svd(a, *args, **kwargs):
    arr = np.asarray(a)
    if not has_sym(arr):
        return _svd.orig[kwargs.pop('_which')](settle(arr), *args, **kwargs)
    kwargs.pop('_which')
    if kwargs.get('compute_uv', True) and not (len(args) >= 2 and not args[1]):
        raise EngineLimit('svd with vectors')
    vals = singular_values(arr)
    res = sarray(list(vals)).view(SVDArray)
    if isinstance(vals, SVD):
        res.product = vals.prod
    return res


_svd.orig = {}


def _prod(a, axis=None, *args, **kwargs):
    p = getattr(a, 'product', None) if isinstance(a, SVDArray) else None
    if p is not None and a.ndim == 1:
        return p
    return ORIG['np.prod'](a, axis, *args, **kwargs)


def _axis_values(a, axis):
    """Lists of the values along an axis, and the remaining shape."""
    arr = sarray(np.asarray(a, dtype=object)) if not isinstance(a, np.ndarray) else a
    arr = arr.view(np.ndarray)
    if axis is None:
        return [arr.ravel().tolist()], ()
    moved = np.moveaxis(arr, axis, -1)
    flat = moved.reshape(-1, moved.shape[-1])
    return [r.tolist() for r in flat], moved.shape[:-1]


def _statistic(fct, a, axis):
    rows, shape = _axis_values(a, axis)
    vals = [fct(r) for r in rows]
    if shape == ():
        return vals[0]
    return sarray(np.array(vals + [None], dtype=object)[:-1].reshape(shape))


def _mean_of(vals):
    return sum(vals[1:], vals[0]) / len(vals) if vals else float('nan')


def _var_of(vals, ddof=0):
    m = _mean_of(vals)
    return sum(((v - m) * (v - m) for v in vals), 0.) / (len(vals) - ddof)


def average(a, axis=None, weights=None, returned=False, **kwargs):
    if not (has_sym(a) or has_sym(weights)):
        return ORIG['np.average'](a, axis, weights, returned, **kwargs)
    if returned or kwargs:
        raise EngineLimit('np.average with further arguments')
    if weights is None:
        return _statistic(_mean_of, a, axis)
    if np.asarray(weights).ndim != 1 or (axis is None and np.asarray(a).ndim != 1):
        raise EngineLimit('np.average with weights')
    w = list(np.asarray(weights).tolist())
    total = sum(w[1:], w[0])
    return _statistic(lambda r: sum((x * y for x, y in zip(r, w)), 0.) / total, a, axis)


def _mk_statistic(name, fct):
    orig = ORIG['np.' + name]

    def stat(a, axis=None, *args, ddof=0, **kwargs):
        if not has_sym(a):
            if name in ('var', 'std') and ddof:
                kwargs['ddof'] = ddof
            return orig(a, axis, *args, **kwargs)
        if args or any(v is not None for v in kwargs.values()):
            raise EngineLimit('np.{} with further arguments'.format(name))
        return _statistic(lambda r: fct(r, ddof), a, axis)

    stat.__name__ = name
    return stat


def _wrap_linalg(orig):

    def fct(a, *args, **kwargs):
        if core.ENGINE is not None:
            if isinstance(a, np.ndarray) and a.dtype == object:
                a = settle(a)
            elif isinstance(a, (list, tuple)) and has_sym(a):
                a = sarray(a)
            if has_sym(a):
                opts = dict(zip(('ord', 'axis', 'keepdims'), args), **kwargs)
                axis = opts.get('axis')
                if opts.get('ord') in (None, 2) and not opts.get('keepdims') and (
                    isinstance(axis, (int, np.integer)) or (axis is None and (a.ndim == 1 or opts.get('ord') is None))
                ):
                    return _statistic(lambda r: _sqrt(sum((x * x for x in r), 0.)), a, axis)
        return orig(a, *args, **kwargs)

    fct.__name__ = getattr(orig, '__name__', 'fct')
    return fct


def _plain_args(orig):
    """Call with numeric arrays if there is nothing symbolic in them."""

    def fct(*args, **kwargs):
        if core.ENGINE is not None:
            args = tuple(settle(a) for a in args)
        return orig(*args, **kwargs)

    fct.__name__ = getattr(orig, '__name__', 'fct')
    return fct


def _math1(name, sym_fct):
    orig = getattr(math, name)

    def fct(x, *args, **kwargs):
        if isinstance(x, Sym) or any(isinstance(a, Sym) for a in args):
            return sym_fct(x, *args, **kwargs)
        return orig(x, *args, **kwargs)

    fct.__name__ = name
    return fct


def _math_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    d = abs(a - b)
    return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))


def _math_dist(p, q):
    s = 0.
    for a, b in zip(p, q):
        s = s + (a - b) * (a - b)
    return _sqrt(s)


def ufunc_shim(name):
    """np.<ufunc> replacement for scalars (arrays go via __array_ufunc__)."""
    orig = ORIG['np.' + name]
    fct = ELEMENTWISE[orig]

    class Shim:
        __name__ = name

        def __call__(self, *args, **kwargs):
            if core.ENGINE is not None:
                ins = args[:orig.nin]
                if any(has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object) for a in ins):
                    arrs = tuple(
                        plain(a) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object) for a in ins
                    )
                    out = kwargs.pop('out', None)
                    if out is None and len(args) > orig.nin:
                        out = args[orig.nin]
                    res = _elementwise(fct, arrs, kwargs)
                    if out is not None:
                        o = out[0] if isinstance(out, tuple) else out
                        o[...] = res
                        return o
                    return res
            return orig(*args, **kwargs)

        def __getattr__(self, key):
            return getattr(orig, key)

    return Shim()


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import scipy.linalg as la
    for n in ('array', 'asarray', 'asanyarray', 'asfarray', 'ascontiguousarray', 'zeros', 'empty', 'ones', 'full',
              'zeros_like', 'empty_like', 'ones_like', 'full_like', 'eye', 'identity', 'linspace', 'arange', 'isclose',
              'allclose', 'array_equal', 'where', 'clip', 'around', 'prod', 'fromiter', 'max', 'min', 'einsum', 'divmod',
              'average', 'mean', 'var', 'std'):
        ORIG['np.' + n] = getattr(np, n)
    for u in ELEMENTWISE:
        ORIG['np.' + u.__name__] = u
    ORIG['np.linalg.det'] = np.linalg.det
    for n in ('array', 'asarray', 'asanyarray'):
        setattr(np, n, _restrict(_mk_array(n), ORIG['np.' + n]))
    for n in ('zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like', 'ones_like', 'full_like', 'eye',
              'identity'):
        setattr(np, n, _mk_filled(n))
    np.linspace = linspace
    np.arange = arange
    np.einsum = einsum
    np.divmod = np_divmod
    np.average = average
    np.mean = _mk_statistic('mean', lambda r, ddof: _mean_of(r))
    np.var = _mk_statistic('var', _var_of)
    np.std = _mk_statistic('std', lambda r, ddof: _sqrt(_var_of(r, ddof)))
    np.isclose = isclose
    np.allclose = allclose
    np.array_equal = array_equal
    np.where = where
    np.clip = clip
    np.around = np.round = np.round_ = around
    np.prod = np.product = _prod

    orig_fromiter = np.fromiter

    def fromiter(it, dtype=float, count=-1, **kwargs):
        if core.ENGINE is not None and _from_target():
            vals = list(it)
            if has_sym(vals):
                return sarray(vals)
            it = vals
        return orig_fromiter(it, _real_type(dtype), count, **kwargs)

    np.fromiter = fromiter

    for u in list(ELEMENTWISE):
        name = u.__name__
        shim = _target_only(ufunc_shim(name), u)
        for attr in dir(np):
            if getattr(np, attr, None) is u:
                _UFUNC_PATCHES.append((attr, shim))
    np.linalg.det = _det
    la.det = _det
    _svd.orig = {'np': np.linalg.svd, 'la': la.svd}
    np.linalg.svd = lambda a, *args, **kw: _svd(a, *args, _which='np', **kw)
    la.svd = lambda a, *args, **kw: _svd(a, *args, _which='la', **kw)
    la.svdvals = lambda a, *args, **kw: _svd(a, compute_uv=False, _which='la')
    la.norm = _wrap_linalg(la.norm)
    np.linalg.norm = _wrap_linalg(np.linalg.norm)
    la.qr = _plain_args(la.qr)
    np.linalg.qr = _plain_args(np.linalg.qr)
    np.linalg.matrix_rank = _plain_args(np.linalg.matrix_rank)
    math.sqrt = _math1('sqrt', lambda x: x.sqrt())
    math.fabs = _math1('fabs', abs)
    math.isfinite = _math1('isfinite', lambda x: True)
    math.isnan = _math1('isnan', lambda x: False)
    math.isinf = _math1('isinf', lambda x: False)
    math.fmod = _math1('fmod', _fmod)
    math.hypot = _math1('hypot', lambda *a: _math_dist(a, [0.] * len(a)))
    math.isclose = _math1('isclose', _math_isclose)
    orig_dist = math.dist
    math.dist = lambda p, q: _math_dist(p, q) if has_sym(list(p)) or has_sym(list(q)) else orig_dist(p, q)
    orig_fsum = math.fsum

    def fsum(it):
        vals = list(it)
        return sum(vals, 0.) if has_sym(vals) else orig_fsum(vals)

    math.fsum = fsum


_UFUNC_PATCHES = []


def _target_only(shim, orig):
    return shim


def _restrict(fct, orig):
    """Array creation: symbolic semantics for the code under test only."""

    def wrapped(obj, *args, **kwargs):
        if 'dtype' in kwargs:
            kwargs['dtype'] = _real_type(kwargs['dtype'])
        if core.ENGINE is None or not _from_target():
            return orig(obj, *args, **kwargs)
        return fct(obj, *args, **kwargs)

    wrapped.__name__ = getattr(orig, '__name__', 'array')
    return wrapped


class NumpyProxy:
    """
    ``np`` as seen by the code under test: numpy, with the ufuncs that have no
    object loop replaced.
    """

    def __init__(self):
        self.__dict__['_over'] = dict(_UFUNC_PATCHES)

    def __getattr__(self, key):
        over = self.__dict__['_over']
        if key in over:
            return over[key]
        return getattr(np, key)


def patch_target():
    """After import of the code under test: its view of numpy and float."""
    proxy = NumpyProxy()
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split('.')[0] != TARGET:
            continue
        for k, v in list(vars(mod).items()):
            if v is np:
                setattr(mod, k, proxy)
            else:
                for attr, shim in _UFUNC_PATCHES:
                    if v is getattr(np, attr):
                        setattr(mod, k, shim)
        if 'float' not in vars(mod):
            mod.float = FloatShim
