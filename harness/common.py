"""Helpers shared by the harnesses (symbolic and concrete execution)."""

import contextlib
import itertools
import shutil
import tempfile


def box(ctx, dim, *, kind, swap=False):
    """
    limits of a box. kind: 'sym' (arbitrary limits, size in [1/4, 4]), 'unit',
    or a list of limits.
    """
    if kind == 'unit':
        return [(0., 1.)] * dim
    if isinstance(kind, (list, tuple)):
        return [tuple(float(v) for v in x) for x in kind]
    limits = []
    for i in range(dim):
        lo = ctx.real('lower{}'.format(i), -4, 4)
        size = ctx.real('size{}'.format(i), 0.25, 4)
        limits.append((lo, lo + size))
    return limits


def point(ctx, name, limits, reach=1.):
    """A position at most `reach` box lengths outside of the box."""
    vals = []
    for i, (lo, hi) in enumerate(limits):
        v = ctx.real('{}{}'.format(name, i))
        ctx.assume(v >= lo - reach * (hi - lo))
        ctx.assume(v <= hi + reach * (hi - lo))
        vals.append(v)
    return ctx.array(vals)


def spread(i, dim, limits, reach=0.):
    """The i-th of a sequence of constant positions all over the box (up to `reach` box lengths outside of it)."""
    res = []
    for j, (lo, hi) in enumerate(limits):
        x = ((i + 1) * (0.6180339887, 0.7548776662, 0.8191725134, 0.8566748838)[j]) % 1
        res.append(lo + (hi - lo) * (x * (1 + 2 * reach) - reach))
    return res


def window(ctx, name, limits, free):
    """A position with components from (lo, hi) if these are given, and constant ones otherwise."""
    return ctx.array([
        ctx.real('{}{}'.format(name, i), *x) if isinstance(x, tuple) else float(x) for i, x in enumerate(free)
    ])


@contextlib.contextmanager
def scratch():
    """A directory which exists only within the block."""
    path = tempfile.mkdtemp(prefix='nodefinder-verif-')
    try:
        yield path
    finally:
        shutil.rmtree(path)


def min_image(delta, size):
    """Shortest of delta + n * size for integers n, and whether it is unique."""
    r = delta % size
    if r <= size - r:
        return r
    return r - size


def ref_distance(ctx, pos1, pos2, limits, periodic):
    """Minimum-image distance."""
    total = 0.
    for a, b, (lo, hi) in zip(pos1, pos2, limits):
        d = b - a
        if periodic:
            d = min_image(d, hi - lo)
        total = total + d * d
    return ctx.sqrt(total)


def closer(ctx, pos1, pos2, limits, periodic, cutoff, reach=2):
    """
    Minimum-image distance below the cutoff (condition, which does not fork).
    The positions have to be at most `reach` box lengths apart (minus one).
    """
    shifts = range(-reach, reach + 1) if periodic else [0]
    axes = []
    for a, b, (lo, hi) in zip(pos1, pos2, limits):
        axes.append([b - a - n * (hi - lo) for n in shifts])
    if len(axes) == 1:
        return ctx.any([ctx.all([d < cutoff, d > -cutoff]) for d in axes[0]])
    conds = []
    for ds in itertools.product(*axes):
        total = 0.
        for d in ds:
            total = total + d * d
        conds.append(ctx.all([total < cutoff * cutoff] + [ctx.all([d < cutoff, d > -cutoff]) for d in ds]))
    return ctx.any(conds)


def equivalent(ctx, pos1, pos2, limits, periodic):
    """Equal up to whole box lengths (condition)."""
    conds = []
    for a, b, (lo, hi) in zip(pos1, pos2, limits):
        d = b - a
        if periodic:
            d = min_image(d, hi - lo)
        conds.append(ctx.close(d, 0.))
    return ctx.all(conds)


def injections(n, m):
    """All injective maps of range(n) into range(m)."""
    return itertools.permutations(range(m), n)


class Prefixed:
    """A context whose symbolic values have their own names."""

    def __init__(self, ctx, prefix):
        self.__dict__['_ctx'] = ctx
        self.__dict__['_prefix'] = prefix

    def __getattr__(self, key):
        val = getattr(self._ctx, key)
        if key in ('real', 'double', 'reals', 'vec', 'boolean', 'choice', 'integer', 'lazy_bool'):
            return lambda name, *args, **kwargs: val(self._prefix + name, *args, **kwargs)
        return val

    def __setattr__(self, key, val):
        setattr(self._ctx, key, val)


def in_sequence(ctx, parts):
    """Several harnesses in one process, one after another: nothing may carry over from one to the next."""
    for i, (fct, params) in enumerate(parts):
        fct(Prefixed(ctx, '{}:'.format('abcdefgh'[i])), **params)


def sequences(cases, *lists, **kwargs):
    """Cases which run several of the given cases in one process."""
    from symx.case import Case
    known = {c.name: c for c in cases}
    res = []
    for names in lists:
        parts = [known[n] for n in names]
        res.append(Case(
            'in sequence: ' + ' / '.join(names), in_sequence, params=dict(parts=[(c.fct, c.params) for c in parts]),
            opts=parts[0].opts, budget=kwargs.get('budget', 600), weight=sum(c.weight for c in parts),
            bounds='as of the single cases, one after another in the same process'
        ))
    return res
