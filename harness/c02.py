"""C02: connecting vectors lead from one position to the other the short way."""

import numpy as np

from symx.case import Case
from .common import box, point, ref_distance, min_image, equivalent, spread, window, sequences

ASSUMPTIONS = ['positions within the stated number of box lengths outside of the box; box sizes between 1/4 and 4']


def check_vector(ctx, v, p, q, limits, periodic, cs):
    ctx.check('leads there', equivalent(ctx, [a + b for a, b in zip(p, v)], q, limits, periodic))
    if periodic:
        for x, (lo, hi) in zip(v, limits):
            ctx.check('at most half of the box', ctx.all([ctx.le(x, (hi - lo) / 2), ctx.le(-(hi - lo) / 2, x)]))
    sq = sum((x * x for x in v), 0.)
    ctx.check('length is the distance', ctx.close(ctx.sqrt(sq), ref_distance(ctx, p, q, limits, periodic)))


def single(ctx, dim, periodic, kind, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, reach)
    q = point(ctx, 'q', limits, reach)
    v = cs.connecting_vector(p, q)
    ctx.check('shape', np.shape(v) == (dim, ))
    check_vector(ctx, v, p, q, limits, periodic, cs)
    ctx.check('inputs untouched', ctx.all([ctx.close(cs.distance(p, q), ref_distance(ctx, p, q, limits, periodic))]))


def many(ctx, dim, periodic, kind, count, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, 0.) if dim == 1 else ctx.array([0.25, -0.125])
    qs = [point(ctx, 'q{}_'.format(i), limits, reach) for i in range(count)]
    vs = cs.connecting_vector(p, np.array(qs))
    ctx.check('shape', np.shape(vs) == (count, dim))
    for i in range(count):
        check_vector(ctx, vs[i], p, qs[i], limits, periodic, cs)


def larger(ctx, limits, periodic, count, free, reach=1.):
    """One position (with symbolic components) to many constant ones and one symbolic one at once."""
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [tuple(float(v) for v in x) for x in limits]
    dim = len(limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = window(ctx, 'p', limits, free)
    qs = [ctx.array(spread(i, dim, limits, reach)) for i in range(count)]
    qs.insert(count // 2, ctx.array([
        ctx.real('q', lo, hi) if j == dim - 1 else x
        for j, (x, (lo, hi)) in enumerate(zip(spread(count, dim, limits), limits))
    ]))
    vs = cs.connecting_vector(p, np.array(qs))
    ctx.check('shape', np.shape(vs) == (count + 1, dim))
    for v, q in zip(vs, qs):
        check_vector(ctx, v, p, q, limits, periodic, cs)
        ctx.check('one by one', ctx.close(list(cs.connecting_vector(p, q)), list(v)))


def changed(ctx, dim, periodic):
    """The same arrays, and the vector given, changed in between."""
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [(0., 1.), (-3., 0.), (2., 4.)][:dim]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = window(ctx, 'p', limits, [(0.25, 0.75)] + [0.1] * (dim - 1))
    q = ctx.array([0.125] + [0.5] * (dim - 1))
    v = cs.connecting_vector(p, q)
    check_vector(ctx, v, p, q, limits, periodic, cs)
    v += 0.25
    check_vector(ctx, cs.connecting_vector(p, q), p, q, limits, periodic, cs)
    q[dim - 1] = ctx.real('new', -0.5, 1.5)
    check_vector(ctx, cs.connecting_vector(p, q), p, q, limits, periodic, cs)
    ctx.reach('changed')
    check_vector(ctx, cs.connecting_vector(q, p), q, p, limits, periodic, cs)


def cases(tier):
    deep = tier == 'thorough'
    res = []
    for periodic in (True, False):
        for dim in (1, 2, 3):
            reach = {1: 3., 2: 0.5, 3: 0.}[dim] if not deep else {1: 6., 2: 1.5, 3: 0.25}[dim]
            res.append(Case(
                'single dim={} periodic={}'.format(dim, periodic), single,
                params=dict(dim=dim, periodic=periodic, kind='sym', reach=reach),
                need=['leads there', 'length is the distance'],
                bounds='symbolic limits (size in [1/4, 4]), two symbolic positions within {} box lengths of the box'.
                format(reach), weight=dim, budget=400
            ))
        for limits, count, free in (
            ([(-1, 2)], 12, [(-1.25, 0.5)]), ([(0, 1), (-3, 0)], 20, [0.3, (-1.5, -1)]),
            ([(0, 1), (-3, 0), (2, 4)], 9, [(0.1, 0.3), -1.25, 3.5]),
            ([(0, 1), (-3, 0), (2, 4), (-1, 1)], 5, [0.75, (-1.5, -1), 2.25, -0.5]),
        ) + ((([(-1, 2)], 40, [(-2, 3)]), ([(0, 1), (-3, 0)], 70, [(0, 0.5), -0.7])) if deep else ()):
            res.append(Case(
                '{} at once dim={} periodic={}'.format(count + 1, len(limits), periodic), larger,
                params=dict(limits=limits, periodic=periodic, count=count, free=free), need=['leads there', 'one by one'],
                bounds='position in {} to {} constant ones and one with a symbolic component, box {}'.format(
                    free, count, limits), budget=400
            ))
        for dim in (1, 2, 3):
            res.append(Case(
                'changed dim={} periodic={}'.format(dim, periodic), changed, params=dict(dim=dim, periodic=periodic),
                need=['changed', 'leads there'], budget=400,
                bounds='arrays with a symbolic component each, changed between the calls (symbolic value)'
            ))
        for dim in (1, 2):
            res.append(Case(
                'many dim={} periodic={}'.format(dim, periodic), many,
                params=dict(dim=dim, periodic=periodic, kind='sym' if dim == 1 else [(0, 1), (-1, 1)], count=2,
                            reach=0. if not deep else 0.5), need=['leads there'],
                bounds='one position to two at once, symbolic', weight=dim, budget=400
            ))
    return res + sequences(res,
        ['single dim=2 periodic=False', 'many dim=1 periodic=True',
         'single dim=1 periodic=True'],
    )
