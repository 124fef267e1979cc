"""C21: the local dimension depends only on the geometry."""

import itertools
import math
import warnings

from symx.case import Case
from .chance import chance
from .common import min_image, sequences

ASSUMPTIONS = [
    'the singular values of a matrix are non-negative, and the product of all of them is the square root of the Gram '
    'determinant',
]
MEAN = {1: 1 / 2, 2: 8 / (9 * math.pi), 3: 27 * math.pi / 512}


def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum(
        (-1)**k * m[0][k] * det([row[:k] + row[k + 1:] for row in m[1:]]) for k in range(len(m))
    )


def volume(ctx, vectors):
    d, dim = len(vectors), len(vectors[0])
    if d > dim:
        return 0.
    if d == dim:
        return abs(det(vectors))
    columns = [c for c in zip(*vectors) if not all(isinstance(x, float) and x == 0 for x in c)]
    if len(columns) < d:
        return 0.
    if len(columns) == d:
        return abs(det(columns))
    gram = [[sum(a * b for a, b in zip(u, v)) for v in vectors] for u in vectors]
    return ctx.sqrt(det(gram))


def local_dimension(ctx, limits, periodic, center, neighbours, feature_size, max_dim=3, subset=None, minimum=1000):
    """The dimension of the first position evaluated, which is the center."""
    import networkx as nx
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._dimension import calculate_dimension
    graph = nx.Graph()
    graph.add_node(tuple(center))
    for n in neighbours:
        graph.add_edge(tuple(center), tuple(n))
    with chance(subset=subset), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return calculate_dimension(
            graph=graph, feature_size=feature_size,
            coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), max_dim=max_dim,
            min_pos_evaluations=1, min_neighbour_evaluations=minimum
        )


def value(ctx, name, x, limits, feature_size):
    """None: anything within the feature size around the center (given by the caller); or a number"""
    if x is None:
        return ctx.real(name, -feature_size, feature_size)
    if isinstance(x, tuple):
        return ctx.real(name, *x)
    return float(x)


def geometry(ctx, limits, periodic, offsets, feature_size=1., center=None, max_dim=3, wrap=False, need_within=True,
             scale=None, exact=False):
    """
    offsets: neighbours relative to the center, with None for any coordinate.
    """
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    if scale is not None:
        scale = ctx.real('scale', *scale)
        limits = [(lo * scale, hi * scale) for lo, hi in limits]
    center = [value(ctx, 'c{}'.format(k), x, limits, feature_size) + ctx.real('zero{}'.format(k), 0, 0) for k, x in enumerate(center or [0.] * dim)]
    neighbours, vectors = [], []
    for i, off in enumerate(offsets):
        vec = [value(ctx, 'n{}_{}'.format(i, k), x, limits, feature_size) for k, x in enumerate(off)]
        if need_within:
            ctx.assume(sum(v * v for v in vec) <= feature_size * feature_size)
        pos = [c + v for c, v in zip(center, vec)]
        if wrap:
            pos = [p + (hi - lo) * (1 if ctx.lazy_bool('wrap{}_{}'.format(i, k)) else 0)
                   for k, (p, (lo, hi)) in enumerate(zip(pos, limits))]
        for other in [center] + neighbours:
            ctx.assume(ctx.not_(ctx.all([a == b for a, b in zip(pos, other)])))
        neighbours.append(pos)
        vectors.append(vec)
    if scale is not None:
        res = local_dimension(ctx, limits, periodic, [x * scale for x in center],
                              [[x * scale for x in n] for n in neighbours], feature_size * scale, max_dim)
    else:
        res = local_dimension(ctx, limits, periodic, center, neighbours, feature_size, max_dim)
    ctx.check('a dimension', res is not None and 0 <= res <= min(max_dim, dim))
    for d in range(1, min(max_dim, dim) + 1):
        if res < d - 1:
            break
        tuples = list(itertools.combinations(vectors, d))
        if not tuples:
            ctx.check('no tuples', res < d)
            break
        total = 0.
        for t in tuples:
            total = total + volume(ctx, [list(v) for v in t])
        limit = len(tuples) * MEAN[d] * feature_size**d / 2
        if res >= d:
            ctx.check('dimension at least {}'.format(d), limit < total if exact else ctx.le(limit, total))
        else:
            ctx.check('dimension below {}'.format(d), total <= limit if exact else ctx.le(total, limit))
    ctx.reach('dimension {}'.format(int(res)))


def sampled(ctx, count, minimum, draws=3, some=(0, 1, 2)):
    """
    Only some of the neighbours are evaluated, in 1D: any choice gives a dimension which one of the neighbours has by
    itself.
    """
    limits = [(-4., 4.)]
    neighbours = [[ctx.real('t{}'.format(i), 0.0625 * i + 0.001, 0.0625 * i + 0.06) if i in some
                   else ctx.const(0.0625 * i + 0.03125)] for i in range(count)]
    number = [0]

    def subset(values, k):
        if len(values) != count or k != 1:
            return values[:k]
        number[0] += 1
        if number[0] <= draws:
            return [values[ctx.choice('draw{}'.format(number[0]), count)]]
        return [values[number[0] % count]]

    feature_size = ctx.real('feature size', 0.25, 4)
    res = local_dimension(ctx, limits, False, [ctx.const(0)], neighbours, feature_size, subset=subset,
                          minimum=minimum)
    ctx.check('in range', res in (0, 1))
    if res == 0:
        ctx.check('some neighbour is close', ctx.le(neighbours[0][0], feature_size / 4))
    else:
        ctx.check('some neighbour is far', ctx.le(feature_size / 4, neighbours[-1][0]))
    ctx.reach('dimension {}'.format(int(res)))


def aligned(ctx, dim, count, periodic, direction, feature_size=1.):
    """Collinear neighbours"""
    limits = [(-4., 4.)] * dim
    neighbours = []
    for i in range(count):
        t = ctx.real('t{}'.format(i), -1, 1)
        pos = [t * x for x in direction]
        for other in [[0.] * dim] + neighbours:
            ctx.assume(ctx.not_(ctx.all([a == b for a, b in zip(pos, other)])))
        neighbours.append(pos)
    res = local_dimension(ctx, limits, periodic, [ctx.real('c', 0, 0)] * dim, neighbours, feature_size)
    ctx.check('at most one', res in (0, 1))
    ctx.reach('dimension {}'.format(int(res)))


def coinciding(ctx, dim, count):
    """Positions which are the same up to box lengths."""
    limits = [(0., 1.)] * dim
    x = [ctx.real('x{}'.format(k), 0.1, 0.9) for k in range(dim)]
    shifts = [s for s in itertools.product([0, 1, -1], repeat=dim) if any(s)]
    neighbours = [[a + b for a, b in zip(x, shifts[i])] for i in range(count)]
    res = local_dimension(ctx, limits, True, x, neighbours, 0.5)
    ctx.check('dimension zero', res == 0)


def alone(ctx, dim, periodic):
    x = [ctx.real('x{}'.format(k), 0, 1) for k in range(dim)]
    ctx.check('dimension zero', local_dimension(ctx, [(0., 1.)] * dim, periodic, x, [], 0.5) == 0)


def two_positions(ctx, dim):
    """A whole cluster of two positions"""
    import networkx as nx
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._dimension import calculate_dimension
    p = [ctx.real('p{}'.format(k), 0, 1) for k in range(dim)]
    q = [ctx.real('q{}'.format(k), 0, 1) for k in range(dim)]
    size = 0.3
    dist2 = sum(min_image(b - a, 1.)**2 for a, b in zip(p, q))
    ctx.assume(dist2 <= size**2)
    ctx.assume(ctx.not_(ctx.all([a == b for a, b in zip(p, q)])))
    graph = nx.Graph()
    graph.add_edge(tuple(p), tuple(q))
    with chance(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = calculate_dimension(graph=graph, feature_size=size,
                                  coordinate_system=CoordinateSystem(limits=[(0., 1.)] * dim, periodic=True))
    if res == 1:
        ctx.check('at least a quarter apart', ctx.le((size / 4)**2, dist2))
    else:
        ctx.check('zero', res == 0)
        ctx.check('at most a quarter apart', ctx.le(dist2, (size / 4)**2))
    ctx.reach('dimension {}'.format(int(res)))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=geometry, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    def dims(*ds):
        return ['dimension {}'.format(d) for d in ds]

    far = [(-4, 4)]
    N = None
    add('1D, three neighbours', need=dims(0, 1), limits=far, periodic=False, offsets=[[N]] * 3, weight=3)
    add('1D, exactly', need=dims(0, 1), limits=far, periodic=False, offsets=[[N]], exact=True)
    add('1D periodic, exactly', need=dims(0, 1), limits=[(0, 4)], periodic=True, offsets=[[N], [0.125]], exact=True,
        center=[3.875])
    add('1D periodic, two neighbours', need=dims(0, 1), limits=[(0, 3)], periodic=True, offsets=[[N]] * 2,
        center=[(0, 3)], weight=3)
    add('1D periodic, wrapped', need=dims(0, 1), limits=[(0, 3)], periodic=True, offsets=[[N]] * 2, wrap=True,
        center=[2.5], weight=3)
    add('1D scaled', need=dims(0, 1), limits=[(-3, 3)], periodic=True, offsets=[[N]], scale=(0.25, 4), weight=3)
    add('2D, two neighbours', need=dims(1, 2), limits=far * 2, periodic=False, offsets=[[N, N], [0.5, 0.]], weight=5)
    add('2D, three neighbours', need=dims(1, 2), limits=far * 2, periodic=False,
        offsets=[[0., N], [0.75, 0.], [-0.5, 0.]], weight=5)
    add('2D, four neighbours', need=dims(1, 2), limits=far * 2, periodic=False,
        offsets=[[0.25, N], [0.75, 0.], [-0.5, 0.], [0., (0.01, 0.5)]], weight=5)
    add('2D periodic, two neighbours', need=dims(0, 1, 2), limits=[(0, 3), (-1, 2)], periodic=True,
        offsets=[[0.1, N], [0.25, 0.]], center=[2.75, (-1, 2)], weight=5)
    add('2D, maximum 1', need=dims(0, 1), limits=far * 2, periodic=False, offsets=[[N, N], [0.25, 0.]], max_dim=1)
    add('3D, three neighbours', need=dims(1, 2, 3), limits=far * 3, periodic=False,
        offsets=[[N, 0., 0.], [0., (0.0, 1), 0.], [0., 0., 0.75]], weight=9)
    add('3D, plane', need=dims(2), limits=far * 3, periodic=False,
        offsets=[[N, 0.5, 0.], [0., 0.75, 0.], [0.75, 0., 0.]], weight=9)
    add('3D, one neighbour', need=dims(0, 1), limits=far * 3, periodic=False, offsets=[[N, N, N]], weight=3)
    add('3D, two neighbours', need=dims(1, 2), limits=far * 3, periodic=False, offsets=[[0.75, 0., 0.], [0.25, N, N]],
        weight=5)
    add('3D periodic', need=dims(2, 3), limits=[(0, 3)] * 3, periodic=True, center=[2.5, 0.25, 1.5],
        offsets=[[0.75, 0., 0.], [0., -0.75, 0.25], [0.25, 0.1, N]], weight=9)
    add('3D, four neighbours', need=dims(2, 3), limits=far * 3, periodic=False, weight=9,
        offsets=[[0.75, 0., 0.], [0., 0.75, 0.], [-0.5, -0.5, 0.], [0., 0.25, N]])
    for periodic in (True, False):
        for dim in (1, 2, 3):
            add('alone {}D {}'.format(dim, 'periodic' if periodic else 'open'), alone, dim=dim, periodic=periodic)
    add('collinear 2D', aligned, need=dims(0, 1), dim=2, count=2, periodic=False, direction=[0.5, 0.75])
    add('collinear 2D periodic', aligned, need=dims(0, 1), dim=2, count=2, periodic=True, direction=[-0.25, 0.5])
    add('collinear 3D', aligned, need=dims(0, 1), dim=3, count=3, periodic=False, direction=[0.25, 0.5, -0.5])
    for dim in (1, 2, 3):
        add('coinciding {}D'.format(dim), coinciding, dim=dim, count=min(dim + 1, 3) if dim > 1 else 2)
    add('two positions 1D', two_positions, need=dims(0, 1), dim=1)
    add('two positions 2D', two_positions, need=dims(0, 1), dim=2, weight=5)
    add('sampled', sampled, need=dims(0, 1), count=3, minimum=None)
    add('sampled, one', sampled, need=dims(0, 1), count=11, minimum=1, draws=1 if not deep else 3, some=[], weight=5)
    add('sampled, two', sampled, need=dims(0, 1), count=3, minimum=2, draws=0)
    add('2D, three arbitrary neighbours', need=dims(1, 2), limits=far * 2, periodic=False,
        offsets=[[N, N], [0.5, N], [-0.5, 0.]], weight=4)
    add('2D scaled', need=dims(2), limits=[(-3, 3)] * 2, periodic=True, offsets=[[N, 0.5], [0.5, 0.]],
        scale=(0.25, 4), weight=4)
    add('1D, ten neighbours', need=dims(0), limits=far, periodic=False, weight=2,
        offsets=[[0.02 * i - 0.11] for i in range(9)] + [[N]])
    add('1D, ten far neighbours', need=dims(1), limits=far, periodic=True, weight=2,
        offsets=[[0.9 - 0.04 * i] for i in range(9)] + [[N]])
    add('2D, seven neighbours', need=dims(1, 2), limits=far * 2, periodic=False, weight=5,
        offsets=[[x, 0.] for x in (-0.9, -0.8, -0.7, 0.7, 0.9)] + [[0., 0.4], [0.1, N]])
    add('2D periodic, seven neighbours', need=dims(2), limits=[(0, 3)] * 2, periodic=True, center=[0.125, 2.875],
        offsets=[[0.5, 0.25], [-0.5, 0.25], [0.25, 0.75], [0., -0.5], [-0.25, -0.25], [0.75, 0.25], [0.25, N]], weight=5)
    add('3D, six neighbours', need=dims(2), limits=far * 3, periodic=False, weight=5,
        offsets=[[0.5, 0.25, 0.], [-0.5, 0.25, 0.], [0.25, 0.75, 0.], [0., -0.5, 0.], [-0.25, -0.25, 0.],
                 [0.25, 0., (-0.9, 0.9)]])
    add('4D, five neighbours', need=dims(3), limits=far * 4, periodic=False, weight=5,
        offsets=[[0.75, 0., 0., 0.], [0., 0.75, 0., 0.], [0., 0., 0.75, 0.], [0., 0., 0., 0.75], [0., 0., 0.5, N]])
    add('collinear 4D', aligned, need=dims(0, 1), dim=4, count=2, periodic=True, direction=[0.25, 0.5, -0.25, 0.25])
    if deep:
        add('sampled, symbolic', sampled, need=dims(0, 1), count=11, minimum=1, draws=1, some=[4], weight=50)
        add('1D periodic, three neighbours', need=dims(0, 1), limits=[(0, 3)], periodic=True, offsets=[[N]] * 3,
            center=[(0, 3)], weight=90)
        add('3D, arbitrary neighbours', need=dims(1, 2, 3), limits=far * 3, periodic=False,
            offsets=[[N, N, N], [0., (0.0, 1), 0.], [0., 0., 0.75]], weight=90)
    return res + sequences(res,
        ['2D, three neighbours', 'alone 1D open', '3D, two neighbours', '1D, ten neighbours', 'coinciding 2D'],
        ['1D, ten far neighbours', '2D, three neighbours', 'sampled'],
    )
