"""C03: coordinate conversions."""

import numpy as np

from symx.case import Case
from .common import box, point, equivalent, sequences

ASSUMPTIONS = ['positions within the stated number of box lengths outside of the box']


def normalize(ctx, dim, periodic, kind, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, reach)
    orig = [x for x in p]
    n = cs.normalize_position(p)
    ctx.check('shape', np.shape(n) == (dim, ))
    if periodic:
        for x, (lo, hi) in zip(n, limits):
            ctx.check('within limits', ctx.all([ctx.le(lo, x), ctx.le(x, hi)]))
        ctx.check('equivalent', equivalent(ctx, orig, n, limits, True))
    else:
        ctx.check('unchanged', ctx.close(n, orig))
    nn = cs.normalize_position(n)
    # the upper limit is equivalent to the lower one
    ctx.check('idempotent', equivalent(ctx, n, nn, limits, periodic))
    ctx.check('argument not modified', ctx.close(p, orig))
    ctx.observe('n', n)


def fractional(ctx, dim, periodic, kind, reach, count=None):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    p = point(ctx, 'p', limits, reach)
    orig = [x for x in p]
    f = cs.get_frac(p)
    ctx.check('argument not modified', ctx.close(p, orig))
    if periodic:
        for x in f:
            ctx.check('frac in [0, 1)', ctx.all([x >= 0, x < 1]) if ctx.symbolic else 0 <= x <= 1)
    else:
        for x, y, (lo, hi) in zip(f, orig, limits):
            ctx.check('frac', ctx.close(x * (hi - lo), y - lo))
    back = cs.get_pos(f)
    ctx.check('back', equivalent(ctx, orig, back, limits, periodic))
    g = ctx.vec('g', dim, -1, 2)
    pos = cs.get_pos(g)
    for x, y, (lo, hi) in zip(pos, g, limits):
        ctx.check('pos', ctx.close(x, lo + y * (hi - lo)))
    both = cs.get_frac(np.array([p, p]))
    ctx.check('array', ctx.close(both, [f, f]))
    ctx.observe('f', f)


def order(ctx, dim, periodic):
    from nodefinder.coordinate_system import CoordinateSystem
    pairs = []
    for i in range(dim):
        a = ctx.real('a{}'.format(i), -4, 4)
        b = ctx.real('b{}'.format(i), -4, 4)
        pairs.append((a, b))
    for a, b in pairs:
        ctx.assume(ctx.any([a - b >= 0.25, b - a >= 0.25]))
    cs = CoordinateSystem(limits=pairs, periodic=periodic)
    limits = [(a, b) if a < b else (b, a) for a, b in pairs]
    ctx.check('limits', ctx.close(cs.limits, limits))
    ctx.check('size', ctx.close(cs.size, [b - a for a, b in limits]))
    ctx.check('dim', cs.dim == dim)
    ctx.check('lower', ctx.close(cs.get_pos(ctx.array([0.] * dim)), [a for a, b in limits]))
    ctx.check('upper', ctx.close(cs.get_pos(ctx.array([1.] * dim)), [b for a, b in limits]))


def cases(tier):
    deep = tier == 'thorough'
    res = []
    for periodic in (True, False):
        for dim in (1, 2, 3, 4):
            reach = {1: 5., 2: 2., 3: 1., 4: 0.5}[dim] if not deep else {1: 50., 2: 6., 3: 2., 4: 1.}[dim]
            res.append(Case(
                'normalize dim={} periodic={}'.format(dim, periodic), normalize,
                params=dict(dim=dim, periodic=periodic, kind='sym', reach=reach), need=['idempotent'],
                bounds='symbolic limits (size in [1/4, 4]), position within {} box lengths of the box'.format(reach),
                budget=400
            ))
            kind = [[(-0.5, 1.5)], [(0., 1.), (-3., 0.)], [(0., 1.), (-0.5, 0.5), (2., 5.)],
                    [(0., 1.), (-0.5, 0.5), (2., 5.), (1., 2.)]][dim - 1]
            res.append(Case(
                'fractional dim={} periodic={}'.format(dim, periodic), fractional,
                params=dict(dim=dim, periodic=periodic, kind=kind, reach=reach if dim < 3 or deep and dim < 4 else 0.5),
                need=['back', 'pos'],
                bounds='limits {}, position within {} box lengths of the box'.format(kind, reach), budget=400
            ))
            res.append(Case(
                'order dim={} periodic={}'.format(dim, periodic), order, params=dict(dim=dim, periodic=periodic),
                need=['limits', 'lower', 'upper'], bounds='symbolic limits in [-4, 4], size at least 1/4', budget=400
            ))
        res.append(Case(
            'fractional symbolic box periodic={}'.format(periodic), fractional,
            params=dict(dim=1, periodic=periodic, kind='sym', reach=3.), need=['back', 'pos'],
            bounds='symbolic limits (size in [1/4, 4]), position within 3 box lengths of the box', budget=400
        ))
    return res + sequences(res,
        ['fractional symbolic box periodic=True', 'fractional dim=2 periodic=False', 'order dim=2 periodic=True',
         'fractional symbolic box periodic=False'],
    )
