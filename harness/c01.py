"""C01: distances are minimum-image distances."""

import numpy as np

from symx.case import Case
from .common import box, point, ref_distance, spread, window, sequences

LEVEL = 'model_checking'
ASSUMPTIONS = ['positions at most `reach` box lengths outside of the box; box sizes between 1/4 and 4']


def single(ctx, dim, periodic, kind, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, reach)
    q = point(ctx, 'q', limits, reach)
    d = cs.distance(p, q)
    ctx.check('distance', ctx.close(d, ref_distance(ctx, p, q, limits, periodic)))
    ctx.check('symmetric', ctx.close(cs.distance(q, p), d))
    ctx.check('non-negative', d >= 0)
    if periodic:
        shift = ctx.array([hi - lo for lo, hi in limits])
        ctx.check('shift 1', ctx.close(cs.distance(p + shift, q), d))
        ctx.check('shift 2', ctx.close(cs.distance(p, q - shift), d))
    ctx.observe('d', d)


def far(ctx, dim, periodic, limits):
    """Positions arbitrarily far away, constant box."""
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [tuple(float(v) for v in x) for x in limits]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = ctx.vec('p', dim, -1000, 1000)
    q = ctx.vec('q', dim, -1000, 1000)
    d = cs.distance(p, q)
    ctx.check('distance', ctx.close(d, ref_distance(ctx, p, q, limits, periodic)))


def any_size(ctx, periodic):
    from nodefinder.coordinate_system import CoordinateSystem
    lo = ctx.real('lower', -1000, 1000)
    limits = [(lo, lo + ctx.real('size', 0.001, 1000))]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p, q = point(ctx, 'p', limits, 1.), point(ctx, 'q', limits, 1.)
    d = cs.distance(p, q)
    ctx.check('distance', ctx.close(d, ref_distance(ctx, p, q, limits, periodic)))


def many(ctx, dim, periodic, kind, count, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, 0.) if dim == 1 else ctx.array([0.25, -0.125])
    qs = [point(ctx, 'q{}_'.format(i), limits, reach) for i in range(count)]
    ds = cs.distance(p, np.array(qs))
    ctx.check('shape', np.shape(ds) == (count, ))
    for i in range(count):
        ctx.check('one of many', ctx.close(ds[i], ref_distance(ctx, p, qs[i], limits, periodic)))
    ds = cs.distance(np.array(qs), p)
    ctx.check('shape reversed', np.shape(ds) == (count, ))
    for i in range(count):
        ctx.check('one of many reversed', ctx.close(ds[i], ref_distance(ctx, p, qs[i], limits, periodic)))


def larger(ctx, limits, periodic, count, free, reach=1.):
    """One position (with symbolic components) against many constant ones and one symbolic one at once."""
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [tuple(float(v) for v in x) for x in limits]
    dim = len(limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = window(ctx, 'p', limits, free)
    qs = [ctx.array(spread(i, dim, limits, reach)) for i in range(count)]
    qs.insert(count // 2, ctx.array([
        ctx.real('q', lo, hi) if j == dim - 1 else x
        for j, (x, (lo, hi)) in enumerate(zip(spread(count, dim, limits), limits))
    ]))
    expected = [ref_distance(ctx, p, q, limits, periodic) for q in qs]
    for label, ds in (('', cs.distance(p, np.array(qs))), (' reversed', cs.distance(np.array(qs), p))):
        ctx.check('shape' + label, np.shape(ds) == (count + 1, ))
        for d, e in zip(ds, expected):
            ctx.check('one of many' + label, ctx.close(d, e))
    for q, e in zip(qs, expected):
        ctx.check('one by one', ctx.close(cs.distance(p, q), e))


def changed(ctx, dim, periodic):
    """The same arrays, changed in between; and a second box."""
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [(0., 1.), (-3., 0.), (2., 4.)][:dim]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = window(ctx, 'p', limits, [(0.25, 0.75)] + [0.1] * (dim - 1))
    q = ctx.array([0.125] + [0.5] * (dim - 1))
    new = ctx.real('new', -0.5, 1.5)
    ctx.check('before', ctx.close(cs.distance(p, q), ref_distance(ctx, p, q, limits, periodic)))
    ctx.check('before reversed', ctx.close(cs.distance(q, p), ref_distance(ctx, p, q, limits, periodic)))
    q[dim - 1] = new
    now = ctx.array(list(q))
    for label, a, b in ((' reversed', q, p), ('', p, q)):
        ctx.check('changed' + label, ctx.close(cs.distance(a, b), ref_distance(ctx, p, now, limits, periodic)))
    p[0] = 0.625
    for label, a, b in (('', p, q), (' reversed', q, p)):
        ctx.check('other changed' + label,
                  ctx.close(cs.distance(a, b), ref_distance(ctx, ctx.array(list(p)), now, limits, periodic)))


def cases(tier):
    deep = tier == 'thorough'
    res = []
    for periodic in (True, False):
        for dim in (1, 2, 3) + ((4, ) if deep else ()):
            reach = {1: 3., 2: 0.5, 3: 0., 4: 0.}[dim] if not deep else {1: 6., 2: 2., 3: 0.5, 4: 0.}[dim]
            res.append(Case(
                'single dim={} periodic={}'.format(dim, periodic), single,
                params=dict(dim=dim, periodic=periodic, kind='sym', reach=reach), need=['distance', 'symmetric'],
                bounds='symbolic limits (size in [1/4, 4]), two symbolic positions within {} box lengths of the box'.
                format(reach), weight=dim, budget=400
            ))
        for limits, count, free in (
            ([(-1, 2)], 12, [(-1.25, 0.5)]), ([(0, 1), (-3, 0)], 20, [0.3, (-1.5, -1)]),
            ([(0, 1), (-3, 0), (2, 4)], 9, [(0.1, 0.3), -1.25, 3.5]),
            ([(0, 1), (-3, 0), (2, 4), (-1, 1)], 5, [0.75, (-1.5, -1), 2.25, -0.5]),
        ) + ((([(-1, 2)], 40, [(-2, 3)]), ([(0, 1), (-3, 0)], 70, [(0, 0.5), -0.7])) if deep else ()):
            res.append(Case(
                '{} at once dim={} periodic={}'.format(count + 1, len(limits), periodic), larger,
                params=dict(limits=limits, periodic=periodic, count=count, free=free), need=['one of many', 'one by one'],
                bounds='position in {} against {} constant ones and one with a symbolic component, box {}'.format(
                    free, count, limits), budget=400
            ))
        for dim in (1, 2, 3):
            res.append(Case(
                'changed dim={} periodic={}'.format(dim, periodic), changed, params=dict(dim=dim, periodic=periodic),
                need=['before', 'changed', 'other changed'], budget=400,
                bounds='arrays with a symbolic component each, changed between the calls (symbolic value)'
            ))
        res.append(Case(
            'any size periodic={}'.format(periodic), any_size, params=dict(periodic=periodic), need=['distance'],
            bounds='symbolic limits (size in [1/1000, 1000]), positions within one box length of the box', budget=400
        ))
        for dim in (1, 2):
            count = 2 if dim == 1 or deep else 2
            res.append(Case(
                'many dim={} periodic={}'.format(dim, periodic), many,
                params=dict(dim=dim, periodic=periodic, kind='sym' if dim == 1 else [(0, 1), (-1, 1)], count=count,
                            reach=0. if dim == 2 else 1.), need=['one of many'],
                bounds='one position against {} at once, symbolic'.format(count), weight=dim, budget=400
            ))
    return res + sequences(res,
        ['single dim=1 periodic=False', 'any size periodic=True', 'single dim=2 periodic=False',
         'any size periodic=True'],
    )
