"""C27: cell lookup and normalization stay in range in double precision."""

import math

import numpy as np

from symx.case import Case

ASSUMPTIONS = [
    'IEEE 754 double arithmetic rounding to nearest, with the sign and range contract of C fmod and of division '
    '(exact definitions for counterexamples)',
    'positions up to 2**1000 in size, so that differences do not overflow',
]
HUGE = 2.**1000


def result(pos):
    from nodefinder.search.result import MinimizationResult
    return MinimizationResult(pos=pos, value=0., success=True, status=0, message='', num_iter=1, num_fev=1)


def make_box(ctx, kind):
    if kind == 'sym':
        lo = ctx.double('lower', -1024., 1024.)
        hi = ctx.double('upper', -1024., 1024.)
        ctx.assume(hi - lo >= 2.**-10)
        return lo, hi
    return kind


def within(ctx, label, value, lo, hi):
    """Within the limits, up to the rounding of size + lower limit."""
    ctx.check(label + ': lower limit', value >= lo)
    if isinstance(lo, float) and lo == 0.:
        ctx.check(label + ': upper limit', value <= hi)
    else:
        ctx.check(label + ': upper limit', value <= hi + 2.**-40)


def normalized(ctx, limits, where, periodic=True):
    from nodefinder.coordinate_system import CoordinateSystem
    lo, hi = make_box(ctx, limits)
    cs = CoordinateSystem(limits=[(lo, hi)], periodic=periodic)
    x = ctx.double('x', -HUGE, HUGE) if where == 'anywhere' else ctx.double('x', -4096., 4096.)
    pos = cs.normalize_position(np.array([x]) if not ctx.symbolic else ctx.array([x]))
    within(ctx, 'normalized', pos[0], lo, hi)
    frac = cs.get_frac(pos)
    ctx.check('fractional coordinate not negative', frac[0] >= 0.)
    ctx.check('fractional coordinate at most one', frac[0] <= 1.)
    ctx.observe('pos', pos[0])
    direct = cs.get_frac(np.array([x]) if not ctx.symbolic else ctx.array([x]))
    ctx.check('fractional coordinate of any position not negative', direct[0] >= 0.)
    ctx.check('fractional coordinate of any position at most one', direct[0] <= 1.)


def accepted(ctx, limits, cutoff, periodic=True, reach=HUGE):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    lo, hi = make_box(ctx, limits)
    cs = CoordinateSystem(limits=[(lo, hi)], periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    x = ctx.double('x', -reach, reach)
    pos = ctx.array([x])
    res = result(pos)
    ctx.check('added', container.add_result(res))
    ctx.check('contained', len(container.nodes) == 1 and list(container.nodes)[0] is res)
    container.set_refined(res.pos)
    distances = list(container.get_refined_neighbour_distance_iterator(res.pos))
    ctx.check('found again', len(distances) == 1)
    ctx.check('at distance zero', distances[0] == 0.)


def cases(tier):
    fp = {'fp': True}
    boxes = {'unit': (0., 1.), 'pi': (-math.pi, math.pi), 'offset': (0.1, 0.7), 'minus': (-0.9, 0.1), 'sym': 'sym'}
    for name, limits in boxes.items():
        if name == 'sym' and tier == 'quick':
            continue  # the solver gives up within the time of the quick check
        yield Case('normalize.' + name, normalized, weight=50, budget=600, params=dict(limits=limits, where='anywhere'), opts=fp,
                   bounds='all finite doubles up to 2**1000, limits ' + str(limits),
                   need=('normalized: upper limit', 'fractional coordinate at most one'))
    quick = {'unit': (1, 2, 3, 5, 7, 10, 16, 33), 'minus': (1, 3, 7), 'pi': (1, 3), 'open': (1, 3)}
    deep = {'unit': range(1, 101), 'minus': range(1, 34), 'pi': range(1, 17), 'open': range(1, 17)}
    for name, numbers in (deep if tier == 'thorough' else quick).items():
        limits = boxes.get(name, (0., 1.))
        for n in numbers:
            yield Case('container.{}.{}'.format(name, n), accepted, opts=fp, weight=n * (4 if name == 'pi' else 1),
                       budget=1500 if tier == 'thorough' else 300,
                       params=dict(limits=limits, cutoff=(limits[1] - limits[0]) / (n + 0.5),
                                   periodic=name != 'open', reach=3. if name == 'open' else HUGE),
                       bounds='all finite doubles up to {}, limits {}, {} cells'.format(
                           '3 (not periodic)' if name == 'open' else '2**1000', limits, n), need=('found again', ))
