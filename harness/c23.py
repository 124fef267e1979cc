"""C23: identification accounts for every node and picks the right shape."""

import itertools
import warnings

from symx.case import Case
from .chance import chance
from .c19 import closure, within
from .common import min_image, sequences

ASSUMPTIONS = ['clusters of at most five positions, where all positions are evaluated for the dimension']
TOL = 1e-7


def coordinate(ctx, name, x, free=True):
    if x is None:
        return ctx.real(name)
    if isinstance(x, tuple):
        return ctx.real(name, float(x[0]), float(x[1]))
    return ctx.const(x)


def equal(ctx, a, b):
    return ctx.all([ctx.close(x, y) for x, y in zip(a, b)])


def average_from(origin, positions, limits, periodic):
    n = len(positions)
    res = []
    for k, (lo, hi) in enumerate(limits):
        deltas = [p[k] - origin[k] for p in positions]
        if periodic:
            deltas = [min_image(d, hi - lo) for d in deltas]
        res.append(origin[k] + sum(deltas[1:], deltas[0]) / n)
    return res


def verify(ctx, result, positions, limits, periodic, feature_size, line=True, linked=True):
    """The objects are made of the positions (distinct unless equal)"""
    from nodefinder.identify.result import NodalPoint, NodalLine
    n = len(positions)
    objects = list(result)
    ctx.check('number of objects', len(objects) == len(result))
    ctx.check('list of objects', all(result[i] is obj for i, obj in enumerate(objects)))
    where = {}
    for k, obj in enumerate(objects):
        ctx.check('object is not empty', len(obj.positions) > 0)
        for p in obj.positions:
            ctx.check('position is a tuple', isinstance(p, tuple))
            hits = [i for i in range(n) if ctx.is_true(equal(ctx, p, positions[i]))]
            ctx.check('position is one of the nodes', bool(hits))
            ctx.check('position in one object', not any(i in where for i in hits))
            for i in hits:
                where[i] = k
    ctx.check('each node is in an object', len(where) == n)
    if linked:
        low = [[within(ctx, a, b, limits, periodic, feature_size, -TOL) for b in positions] for a in positions]
        high = [[within(ctx, a, b, limits, periodic, feature_size, TOL) for b in positions] for a in positions]
        low, high = closure(ctx, low), closure(ctx, high)
        for i, j in itertools.combinations(range(n), 2):
            if where[i] == where[j]:
                ctx.check('same object only if linked', high[i][j])
            else:
                ctx.check('same object if linked', ctx.not_(low[i][j]))
    for obj in objects:
        pos = [list(p) for p in obj.positions]
        if len(pos) == 1:
            ctx.check('dimension of a single position', obj.dimension == 0)
        if len(pos) == 2:
            far = ctx.not_(within(ctx, pos[0], pos[1], limits, periodic, feature_size / 4, TOL))
            near = within(ctx, pos[0], pos[1], limits, periodic, feature_size / 4, -TOL)
            if obj.dimension == 1:
                ctx.check('dimension of two positions', ctx.not_(near))
            elif obj.dimension == 0:
                ctx.check('dimension of two positions', ctx.not_(far))
            else:  # rounding
                ctx.check('two positions are a point or a line',
                          ctx.all([ctx.not_(near), ctx.not_(far), obj.dimension is None]))
        ctx.reach('dimension {}'.format(obj.dimension))
        if obj.dimension == 0:
            ctx.check('a point', isinstance(obj.shape, NodalPoint))
            at = list(obj.shape.position)
            ctx.check('coordinates of the point', len(at) == len(limits))
            origins = [average_from(o, pos, limits, periodic) for o in (pos if len(pos) > 2 else pos[:1])]
            conds = []
            for avg in origins:
                deltas = [a - b for a, b in zip(at, avg)]
                if periodic:
                    deltas = [min_image(d, hi - lo) for d, (lo, hi) in zip(deltas, limits)]
                    if len(pos) == 2:  # exactly opposite: either middle
                        conds += opposite(ctx, pos, at, limits)
                conds.append(ctx.all([ctx.close(d, 0.) for d in deltas]))
            ctx.check('point at the average', ctx.any(conds))
            if periodic:
                ctx.check('point in the box', ctx.all([ctx.all([ctx.le(lo, x), ctx.le(x, hi)])
                                                       for x, (lo, hi) in zip(at, limits)]))
        elif obj.dimension == 1:
            if line:
                ctx.check('a line', isinstance(obj.shape, NodalLine))
                for node in obj.shape.graph.nodes:
                    ctx.check('line of its positions', ctx.any([equal(ctx, node, p) for p in pos]))
                ctx.check('line is not empty', len(obj.shape.graph.nodes) > 0)
            else:
                ctx.check('no line', obj.shape is None)
        else:
            ctx.check('no shape', obj.shape is None)


def opposite(ctx, pos, at, limits):
    return [ctx.all([ctx.close(min_image(at[k] - pos[0][k], hi - lo)**2, min_image(at[k] - pos[1][k], hi - lo)**2)
                     for k, (lo, hi) in enumerate(limits)] +
                    [ctx.close(2 * abs(min_image(p - q, hi - lo)), hi - lo) for p, q, (lo, hi) in zip(*pos, limits)])]


def make_positions(ctx, spec):
    return [[coordinate(ctx, 'p{}_{}'.format(i, k), x) for k, x in enumerate(p)] for i, p in enumerate(spec)]


def check_meta(ctx, result, cs, limits, periodic, feature_size):
    ctx.check('feature size', ctx.close(result.feature_size, feature_size))
    ctx.check('coordinate system', result.coordinate_system is cs or ctx.all(
        [ctx.close(a, b) for x, y in zip(result.coordinate_system.limits, limits) for a, b in zip(x, y)]
    ))
    ctx.check('periodic', bool(result.coordinate_system.periodic) == periodic)


def from_positions(ctx, spec, limits, periodic, feature_size, method=None, kinds='tuple', linked=True, line=True,
                   repeated=0):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify import run_from_positions
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if isinstance(feature_size, tuple):
        feature_size = ctx.real('feature size', *feature_size)
    positions = make_positions(ctx, spec)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    make = {'tuple': tuple, 'list': list, 'array': ctx.array}[kinds]
    kwargs = {} if method is None else {'evaluate_line_method': method}
    with chance(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        result = run_from_positions([make(p) for p in positions + positions[:repeated]], coordinate_system=cs,
                                    feature_size=feature_size, **kwargs)
    check_meta(ctx, result, cs, limits, periodic, feature_size)
    verify(ctx, result, positions, limits, periodic, feature_size, line, linked)


def from_search(ctx, spec, limits, periodic, cutoff, feature_size=None, state=False, method=None, symbolic=(),
                linked=True, reach=0):
    """Node positions and rejected positions"""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify import run
    from nodefinder.search.result import SearchResultContainer, MinimizationResult, ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if isinstance(feature_size, tuple):
        feature_size = ctx.real('feature size', *feature_size)
    positions = make_positions(ctx, spec)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.5, dist_cutoff=cutoff)
    nodes = []
    for i, p in enumerate(positions):
        success, value = True, 0.
        if i in symbolic:
            success = ctx.lazy_bool('success{}'.format(i))
            value = ctx.real('value{}'.format(i), 0, 1)
        shift = [(hi - lo) * (ctx.choice('wrap{}_{}'.format(i, k), reach + 1) if i == 0 else 0)
                 for k, (lo, hi) in enumerate(limits)] if reach else [0.] * len(p)
        container.add_result(MinimizationResult(
            pos=ctx.array([x + s for x, s in zip(p, shift)]), value=value, success=success, status=0, message='m',
            num_fev=1, num_iter=1
        ))
        if success and value <= 0.5:
            nodes.append(p)
        else:
            ctx.reach('rejected')
    ctx.assume(len(nodes) > 0)
    container.set_refined(ctx.array([(lo + hi) / 2 for lo, hi in limits]))
    given = container
    if state:
        queued = [[[0.3] * len(limits)] * (len(limits) + 1)]
        given = ControllerState(result=container, simplex_queue=SimplexQueue(queued),
                                position_queue=PositionQueue([[0.4] * len(limits)]))
    kwargs = {} if method is None else {'evaluate_line_method': method}
    if feature_size is not None:
        kwargs['feature_size'] = feature_size
    with chance(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        result = run(given, **kwargs)
    size = 3 * cutoff if feature_size is None else feature_size
    check_meta(ctx, result, cs, limits, periodic, size)
    verify(ctx, result, nodes, limits, periodic, size, linked=linked)


def empty(ctx, periodic, state):
    """No nodes at all"""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify import run
    from nodefinder.search.result import SearchResultContainer, ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    cs = CoordinateSystem(limits=[(0., 1.)] * 2, periodic=periodic)
    given = SearchResultContainer(coordinate_system=cs, gap_threshold=0.5, dist_cutoff=ctx.real('cutoff', 0.1, 1))
    if state:
        given = ControllerState(result=given, simplex_queue=SimplexQueue([]), position_queue=PositionQueue([]))
    ctx.check('nothing is identified', len(run(given)) == 0)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    def dims(*ds):
        return ['dimension {}'.format(d) for d in ds]

    for periodic in (True, False):
        p = 'periodic' if periodic else 'open'
        add('two nodes, {}'.format(p), from_search, dims(0, 1), spec=[[(0, 1)], [(1.01, 2.99)]], limits=[(0, 3)],
            periodic=periodic, cutoff=0.25, weight=3)
        add('two nodes, feature size, {}'.format(p), from_search, dims(0, 1), spec=[[(0, 1)], [(1.01, 2.99)]],
            limits=[(0, 3)], periodic=periodic, cutoff=0.25, feature_size=(0.25, 1), weight=5)
        add('two nodes, feature size zero, {}'.format(p), from_search, dims(0), spec=[[(0, 1)], [(1.01, 2.99)]],
            limits=[(0, 3)], periodic=periodic, cutoff=0.25, feature_size=0., weight=3)
        add('nodes and rejected, {}'.format(p), from_search, dims(0, 1) + ['rejected'], symbolic=(0, 1, 2),
            spec=[[(0, 1)], [1.25], [(1.5, 2)]], limits=[(0, 3)], periodic=periodic, cutoff=0.2, weight=5)
        add('controller state, {}'.format(p), from_search, dims(0, 1) + ['rejected'], symbolic=(0, 1), state=True,
            spec=[[(0, 1)], [1.25], [2.75]], limits=[(0, 3)], periodic=periodic, cutoff=0.2, weight=5)
        add('undetermined, {}'.format(p), from_search, dims(None, 1), spec=[[0.5], [(0.6, 0.7)], [1.6], [(1.75, 1.9)]],
            limits=[(0, 5)], periodic=periodic, cutoff=1 / 3, weight=5, linked=False)
        add('two dimensions, {}'.format(p), from_search, dims(0, 1), spec=[[0.5, 0.5], [(0.5, 1), (0.6, 1)]],
            limits=[(0, 3), (0, 2)], periodic=periodic, cutoff=0.2, weight=8)
        add('plane, {}'.format(p), from_search, dims(1, 2), weight=8, linked=False,
            spec=[[0.5, 0.5], [1., 0.5], [0.75, (0.55, 1)]], limits=[(0, 3), (0, 2)], periodic=periodic, cutoff=0.2)
        add('positions, {}'.format(p), from_positions, dims(0, 1), spec=[[(0, 0.5)], [0.75], [(1, 2)]], limits=[(0, 4)],
            periodic=periodic, feature_size=0.6, weight=5)
        add('three dimensions, {}'.format(p), from_positions, dims(0, 1), spec=[[0.5, 0.5, 0.5], [0.6, 0.5, (0.25, 1)]],
            limits=[(0, 3)] * 3, periodic=periodic, feature_size=0.6, weight=5)
        for state in (False, True):
            add('no nodes, {}{}'.format(p, ', state' if state else ''), empty, periodic=periodic, state=state)
    add('wrapped nodes', from_search, dims(0, 1), spec=[[(0.01, 0.9)], [2.8]], limits=[(0, 3)], periodic=True,
        cutoff=0.25, reach=2, weight=5)
    add('across the boundary', from_positions, dims(0), spec=[[0.05, (0.9, 1)], [2.95, 0.99], [2.9, 0.95]],
        limits=[(0, 3), (0, 1)], periodic=True, feature_size=1.5, weight=5, linked=False)
    add('exactly opposite', from_positions, dims(0, 1), spec=[[0.25], [(0.3, 0.9)]], limits=[(0, 1)], periodic=True,
        feature_size=(0.6, 3), weight=5)
    add('repeated positions', from_positions, dims(0, 1), spec=[[(0, 0.5)], [0.75]], limits=[(0, 4)], periodic=False,
        feature_size=0.6, repeated=2)
    for p, periodic in (('periodic', True), ('open', False)):
        add('thirteen positions, {}'.format(p), from_positions, dims(0), limits=[(0, 8)], periodic=periodic,
            feature_size=0.5, weight=8,
            spec=[[0.1 + 0.02 * i] for i in range(5)] + [[2 + 0.03 * i] for i in range(4)] + [[(2.2, 2.9)]] +
            [[4.], [6.], [7.8]])
        add('nine nodes and rejected, {}'.format(p), from_search, dims(0, 1) + ['rejected'], limits=[(0, 6), (0, 3)],
            periodic=periodic, cutoff=0.2, symbolic=(2, ), weight=8,
            spec=[[0.5, 0.5], [0.55, 0.5], [0.5, 0.55], [2., 2.], [2.4, 2.2], [2.8, 2.4], [(2.9, 3.1), 2.6], [4., 0.25],
                  [5.8, 0.5]])
    for p, periodic in (('periodic', True), ('open', False)):
        add('forty positions, {}'.format(p), from_positions, dims(0), limits=[(0, 8)], periodic=periodic,
            feature_size=0.5, weight=40, linked=False,
            spec=[[0.5 + 0.001 * i * i] for i in range(13)] + [[0.45 + 0.0015 * i] for i in range(26)] +
            [[(3., 3.5)]])
    for kinds in ('list', 'array'):
        add('positions as ' + kinds, from_positions, dims(0, 1), spec=[[(0, 0.5)], [0.75]], limits=[(0, 4)],
            periodic=False, feature_size=0.6, kinds=kinds)
    for method in ('ballistic', 'shortest_path', 'dominating_set'):
        add('method ' + method, from_search, dims(1), spec=[[0.], [0.75], [(1, 1.6)]], limits=[(0, 4)], periodic=False,
            cutoff=1 / 3, method=method, weight=5)
        add('positions, method ' + method, from_positions, dims(0, 1), spec=[[0.], [(0.1, 0.9)]], limits=[(0, 4)],
            periodic=True, feature_size=1., method=method, weight=3)
    add('positions, unknown method', from_positions, dims(0, 1), spec=[[0.], [(0.1, 0.9)]], limits=[(0, 4)],
        periodic=True, feature_size=1., method='no such method', line=False, weight=3)
    if deep:
        add('three symbolic nodes', from_search, dims(0, 1, 2), weight=80,
            spec=[[0.5, 0.5], [1., (0.25, 0.75)], [0.75, (0.55, 1)]], limits=[(0, 3), (0, 2)], periodic=True, cutoff=0.2)
        add('four symbolic positions', from_positions, dims(None, 0, 1), weight=80,
            spec=[[(0, 0.5)], [(0.6, 0.75)], [(1, 2)], [(2.1, 3.9)]], limits=[(0, 4)], periodic=True, feature_size=0.6)
        add('undetermined, symbolic', from_positions, dims(None, 1), limits=[(0, 5)], periodic=True, feature_size=1.,
            weight=80, spec=[[(0.4, 0.5)], [(0.6, 0.7)], [(1.5, 1.6)], [(1.75, 1.9)]])
    return res + sequences(res,
        ['positions as list', 'positions, method shortest_path', 'three dimensions, open', 'repeated positions'],
        ['positions, open', 'across the boundary'],
    )
