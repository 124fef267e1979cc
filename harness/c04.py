"""C04: averages of positions."""

import numpy as np

from symx.case import Case
from .common import box, point, min_image, equivalent, spread, sequences


ASSUMPTIONS = ['no position exactly half of a box length from the first one (the nearest image is not unique then)']


def average(ctx, dim, periodic, kind, count, reach, constant=0):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    ps = [point(ctx, 'p{}_'.format(i), limits, reach if i else min(reach, 0.25)) for i in range(count)]
    # constant ones, and with one symbolic component
    many = [spread(i, dim, limits, 1.) for i in range(constant)]
    if many:
        many[0] = [ctx.real('first', lo, hi) if not i else (lo + hi) / 2 for i, (lo, hi) in enumerate(limits)]
        many[-1][-1] = ctx.real('last', limits[-1][0] - 1, limits[-1][1])
    ps += [ctx.array(p) for p in many]
    count += constant
    expected = []
    for i, (lo, hi) in enumerate(limits):
        size = hi - lo
        total = 0.
        for p in ps:
            d = p[i] - ps[0][i]
            if periodic:
                d = min_image(d, size)
                ctx.assume(ctx.any([d * 2 < size - 1e-3, d * 2 > size + 1e-3]) if not ctx.symbolic else d * 2 < size)
            total = total + d
        expected.append(ps[0][i] + total / count)
    avg = cs.average(list(ps))
    ctx.check('shape', np.shape(avg) == (dim, ))
    ctx.check('mean of nearest images', equivalent(ctx, expected, avg, limits, periodic))
    if periodic:
        for x, (lo, hi) in zip(avg, limits):
            ctx.check('within limits', ctx.all([ctx.le(lo, x), ctx.le(x, hi)]))
    avg2 = cs.average(np.array(list(ps)))
    ctx.check('array of positions', equivalent(ctx, expected, avg2, limits, periodic))
    ctx.observe('avg', avg)


def point_shape(ctx, periodic, limits, count):
    """The position of an identified point (through the public interface)."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._evaluate import evaluate_cluster
    import networkx as nx
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    dim = len(limits)
    ps = [point(ctx, 'p{}_'.format(i), limits, 0.) for i in range(count)]
    # a cluster much smaller than the box
    size = min(hi - lo for lo, hi in limits)
    for p in ps[1:]:
        for i, (lo, hi) in enumerate(limits):
            d = min_image(p[i] - ps[0][i], hi - lo) if periodic else p[i] - ps[0][i]
            ctx.assume(ctx.all([d <= size / 8, -d <= size / 8]))
    for a in range(count):
        for b in range(a):
            ctx.assume(ctx.any([x != y for x, y in zip(ps[a], ps[b])]))
    graph = nx.Graph()
    graph.add_nodes_from([tuple(p) for p in ps])
    shape = evaluate_cluster(graph=graph, dim=0, coordinate_system=cs, feature_size=size / 4)
    expected = []
    for i, (lo, hi) in enumerate(limits):
        total = 0.
        for p in ps:
            d = p[i] - ps[0][i]
            total = total + (min_image(d, hi - lo) if periodic else d)
        expected.append(ps[0][i] + total / count)
    ctx.check('shape', np.shape(shape.position) == (dim, ))
    ctx.check('average', equivalent(ctx, expected, shape.position, limits, periodic))
    for x, (lo, hi) in zip(shape.position, limits):
        ctx.check('within limits', ctx.all([ctx.le(lo, x), ctx.le(x, hi)]))


def cases(tier):
    deep = tier == 'thorough'
    res = []
    for periodic in (True, False):
        for dim, count, reach in ((1, 1, 2.), (1, 2, 2.), (1, 3, 0.5), (2, 2, 0.25), (3, 2, 0.)) + (
            ((1, 4, 0.5), (2, 3, 0.), (1, 3, 2.)) if deep else ()
        ):
            for kind in ('sym', ) if dim < 3 else ([(-1., 1.), (0., 1.), (2., 5.)], ):
                res.append(Case(
                    'average dim={} count={} reach={} periodic={}'.format(dim, count, reach, periodic), average,
                    params=dict(dim=dim, count=count, periodic=periodic, kind=kind, reach=reach),
                    need=['mean of nearest images'],
                    bounds='box {}, {} symbolic positions within {} box lengths of the box'.format(kind, count, reach),
                    weight=dim * count, budget=400
                ))
        for kind, constant in (([(-1., 1.)], 9), ([(0., 1.), (-3., 0.)], 6), ([(0., 1.), (-1., 1.), (2., 5.)], 12),
                               ([(0., 1.), (-1., 1.), (2., 5.), (0., 1.)], 4)):
            res.append(Case(
                'average dim={} of {} periodic={}'.format(len(kind), constant, periodic), average,
                params=dict(dim=len(kind), count=0, constant=constant, periodic=periodic, kind=kind, reach=0.),
                need=['mean of nearest images'],
                bounds='box {}, {} positions, two of them with a symbolic component'.format(kind, constant), budget=400
            ))
        for limits, count in (([(-1., 1.)], 3), ([(0., 1.), (-3., -1.)], 2)):
            res.append(Case(
                'point limits={} count={} periodic={}'.format(limits, count, periodic), point_shape,
                params=dict(periodic=periodic, limits=limits, count=count), need=['average'],
                bounds='cluster of {} symbolic positions no larger than 1/4 of the box'.format(count), budget=400
            ))
    return res + sequences(res,
        ['average dim=1 count=2 reach=2.0 periodic=True', 'average dim=1 count=3 reach=0.5 periodic=False',
         'average dim=1 count=1 reach=2.0 periodic=True', 'average dim=2 count=2 reach=0.25 periodic=False'],
    )
