"""C24: saving and loading identification results preserves them."""

import warnings

from symx.case import Case
from .chance import chance
from .common import scratch, sequences
from .states import kind, roundtrip, same, same_cs

ASSUMPTIONS = ['files are read with the contract of h5py (replays use h5py itself)']


def equal(ctx, p, q):
    if len(p) != len(q):
        return False
    return ctx.all([ctx.close(x, y, 1e-9) for x, y in zip(p, q)])


def same_shape(ctx, label, a, b):
    ctx.check(label + ': class', type(a) is type(b))
    if a is None:
        ctx.reach('no shape')
    elif hasattr(a, 'position'):
        ctx.check(label + ': position', equal(ctx, list(a.position), list(b.position)))
        ctx.reach('point')
    else:
        ctx.reach('line')
        x, y = list(a.graph.nodes), list(b.graph.nodes)
        ctx.check(label + ': number of nodes', len(x) == len(y))
        which = {}
        for j, q in enumerate(y):
            ctx.check(label + ': nodes are tuples', isinstance(q, tuple))
            hits = [i for i, p in enumerate(x) if i not in which and ctx.is_true(equal(ctx, p, q))]
            ctx.check(label + ': nodes', bool(hits))
            which[hits[0]] = j
        ctx.check(label + ': number of edges', len(a.graph.edges) == len(b.graph.edges))
        for i, p in enumerate(x):
            for k in range(i):
                ctx.check(label + ': edges', a.graph.has_edge(p, x[k]) == b.graph.has_edge(y[which[i]], y[which[k]]))
        ctx.check(label + ': degree count', dict(a.degree_count) == dict(b.degree_count))
        ctx.check(label + ': shape name', a.shape_name == b.shape_name)


def same_result(ctx, label, a, b):
    ctx.check(label + ': class', type(a) is type(b))
    ctx.check(label + ': dimension type', kind(a.dimension) == kind(b.dimension))
    ctx.check(label + ': dimension', a.dimension == b.dimension if a.dimension is not None else b.dimension is None)
    x, y = a.positions, b.positions
    ctx.check(label + ': positions', isinstance(y, list) and len(x) == len(y))
    for p, q in zip(x, y):
        ctx.check(label + ': position', isinstance(q, tuple) and equal(ctx, p, q))
    same_shape(ctx, label + ' shape', a.shape, b.shape)


def same_container(ctx, label, a, b):
    ctx.check(label + ': class', type(a) is type(b))
    same_cs(ctx, label + ' coordinate system', a.coordinate_system, b.coordinate_system)
    same(ctx, label + ' feature size', a.feature_size, b.feature_size)
    ctx.check(label + ': number of results', len(a) == len(b) == len(list(b)))
    for i, p in enumerate(a):
        same_result(ctx, label + ' result', p, b[i])


def make_positions(ctx, name, n, dim):
    pos = [tuple(ctx.real('{}{}_{}'.format(name, i, k), -3 + 2 * i, -1.5 + 2 * i) for k in range(dim)) for i in range(n)]
    return pos


def make_line(ctx, name, pos, optional=True, cycle=False, weights=False):
    import networkx as nx
    from nodefinder.identify._evaluate._line._run import _create_degree_count
    from nodefinder.identify.result import NodalLine
    graph = nx.Graph()
    graph.add_nodes_from(pos)
    n = len(pos)
    for i in range(n):
        for j in range(i):
            if i - j == 1 or (cycle and n > 2 and (i, j) == (n - 1, 0)) or optional:
                if not optional or ctx.lazy_bool('{}edge{}{}'.format(name, i, j)):
                    graph.add_edge(pos[j], pos[i], **({'distance': ctx.real('{}dist{}{}'.format(name, i, j), 0, 1)}
                                                      if weights else {}))
    return NodalLine(graph=graph, degree_count=_create_degree_count(graph))


def make_shape(ctx, name, what, pos, dim, **kwargs):
    from nodefinder.identify.result import NodalPoint
    if what == 'point':
        return NodalPoint(position=ctx.array([ctx.real('{}at{}'.format(name, k)) for k in range(dim)]))
    if what == 'tuple':
        return NodalPoint(position=tuple(ctx.real('{}at{}'.format(name, k)) for k in range(dim)))
    if what == 'line':
        return make_line(ctx, name, pos, **kwargs)
    return None


def make_result(ctx, name, what, n, dim, dimension='any', **kwargs):
    from nodefinder.identify.result import IdentificationResult
    pos = make_positions(ctx, name + 'p', n, dim)
    if dimension == 'any':
        dimension = [None, 0, 1, 2, 3][ctx.choice(name + 'dimension', 5)]
    return IdentificationResult(positions=pos, dimension=dimension, shape=make_shape(ctx, name, what, pos, dim, **kwargs))


def shape(ctx, what, n, dim, **kwargs):
    obj = make_shape(ctx, 's', what, make_positions(ctx, 'p', n, dim), dim, **kwargs)
    same_shape(ctx, 'shape', obj, roundtrip(obj))


def result(ctx, **kwargs):
    obj = make_result(ctx, 'r', **kwargs)
    same_result(ctx, 'result', obj, roundtrip(obj))


def container(ctx, whats, n, dim, periodic=True, as_tuple=False, times=1, **kwargs):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify.result import IdentificationResultContainer
    limits = [(ctx.real('lower{}'.format(k), -1, 1), ctx.real('upper{}'.format(k), 2, 3)) for k in range(dim)]
    results = [make_result(ctx, 'r{}'.format(i), w, n, dim, **kwargs) for i, w in enumerate(whats)]
    obj = IdentificationResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic),
        feature_size=ctx.real('feature size', 0.1, 3), results=tuple(results) if as_tuple else results
    )
    same_container(ctx, 'container', obj, roundtrip(obj, times))


def identified(ctx, spec, limits, periodic, feature_size=0.6, method='ballistic'):
    """What is actually identified"""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify import run_from_positions
    limits = [tuple(float(x) for x in lim) for lim in limits]
    pos = [tuple(ctx.real('p{}_{}'.format(i, k), float(x[0]), float(x[1])) if isinstance(x, tuple) else ctx.const(x)
                 for k, x in enumerate(p)) for i, p in enumerate(spec)]
    with chance(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        obj = run_from_positions(pos, coordinate_system=CoordinateSystem(limits=limits, periodic=periodic),
                                 feature_size=feature_size, evaluate_line_method=method)
    same_container(ctx, 'identified', obj, roundtrip(obj))


def earlier(ctx, n, dim, positions, dimension):
    """Files of earlier versions: the dimension as a dataset, or the positions in a group."""
    import os
    import h5py
    from fsc.hdf5_io import to_hdf5
    from nodefinder import io
    obj = make_result(ctx, 'r', 'point', n, dim, dimension=[0, 1, 2][ctx.choice('dimension', 3)])
    with scratch() as path:
        name = os.path.join(path, 'file.hdf5')
        io.save(obj, name)
        with h5py.File(name, 'a') as f:
            if dimension:
                del f['dimension']
                f['dimension'] = obj.dimension
            if positions:
                del f['positions']
                to_hdf5([list(p) for p in obj.positions], f.create_group('positions'))
        new = io.load(name)
    ctx.check('dimension', new.dimension == obj.dimension)
    ctx.check('number of positions', len(new.positions) == len(obj.positions))
    for p, q in zip(obj.positions, new.positions):
        ctx.check('position', isinstance(q, tuple) and equal(ctx, p, q))
    same_shape(ctx, 'shape', obj.shape, new.shape)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    for dim in (1, 2, 3):
        d = ' {}D'.format(dim)
        add('point' + d, shape, ['point'], what='point', n=0, dim=dim)
        add('point from tuple' + d, shape, ['point'], what='tuple', n=0, dim=dim)
        for n in (1, 2, 3) + ((4, ) if dim == 1 or deep else ()):
            add('line of {}'.format(n) + d, shape, ['line'], what='line', n=n, dim=dim, weight=n)
        add('closed line' + d, shape, ['line'], what='line', n=4, dim=dim, optional=False, cycle=True)
        add('line with distances' + d, shape, ['line'], what='line', n=3, dim=dim, weights=True)
        for what in (None, 'point', 'line'):
            for n in (1, 3):
                add('result with {} of {}'.format(what or 'no shape', n) + d, result, what=what, n=n, dim=dim, weight=n)
    for periodic in (True, False):
        p = ', periodic' if periodic else ', open'
        add('container' + p, container, ['point', 'no shape'], whats=['point', None], n=2, dim=2, periodic=periodic,
            weight=5)
        add('container with lines' + p, container, ['line', 'no shape'], whats=['line', 'line', None], n=2, dim=1,
            periodic=periodic, dimension=1, weight=5)
        add('container with one' + p, container, ['line'], whats=['line'], n=3, dim=3, periodic=periodic, weight=5)
        add('empty container' + p, container, whats=[], n=0, dim=2, periodic=periodic)
        add('identified 1D' + p, identified, ['point', 'line'], spec=[[(0, 0.5)], [0.75], [(2, 2.5)]],
            limits=[(0, 4)], periodic=periodic, weight=5)
        add('identified 2D' + p, identified, spec=[[0.5, 0.5], [1., 0.5], [0.75, (0.55, 1)], [2.5, 0.5]],
            limits=[(0, 3), (0, 2)], periodic=periodic, weight=8)
        add('identified undetermined' + p, identified, ['no shape'], limits=[(0, 5)], periodic=periodic, feature_size=1.,
            spec=[[0.5], [(0.6, 0.7)], [1.6], [(1.75, 1.9)]], weight=5)
    add('container of a tuple', container, ['point'], whats=['point', 'point'], n=1, dim=1, as_tuple=True)
    add('saved twice', container, ['line', 'point'], whats=['line', 'point'], n=2, dim=2, times=2, weight=5)
    for method in ('shortest_path', 'dominating_set'):
        add('identified, ' + method, identified, ['line'], spec=[[0.], [0.5], [(0.8, 1.)]], limits=[(0, 4)],
            periodic=False, method=method, weight=3)
    for n in (1, 3):
        add('earlier dimension of {}'.format(n), earlier, n=n, dim=2, positions=False, dimension=True)
        add('earlier positions of {}'.format(n), earlier, n=n, dim=2, positions=True, dimension=True)
    for n in (8, 10):
        add('line of {}'.format(n), shape, ['line'], what='line', n=n, dim=2, optional=False, cycle=n == 10)
    add('result with line of 11', result, ['line'], what='line', n=11, dim=3, optional=False, dimension=1)
    add('result with 15 positions', result, ['point'], what='point', n=15, dim=1)
    add('shapes 4D', container, ['line', 'point', 'no shape'], whats=['line', 'point', None], n=3, dim=4, optional=False)
    add('container of thirteen', container, ['line', 'point', 'no shape'], whats=['line', None, 'point', 'tuple'] * 3 + ['line'],
        n=2, dim=1, optional=False, dimension=1, times=2)
    if deep:
        add('container of five', container, whats=['line', 'line', None, 'point', 'tuple'], n=3, dim=2, dimension=1,
            weight=50)
        add('line of 5', shape, ['line'], what='line', n=5, dim=2, weight=50)
    return res + sequences(res,
        ['line of 1 2D', 'point 1D', 'closed line 1D', 'container of thirteen', 'empty container, open'],
        ['closed line 3D', 'closed line 2D', 'point from tuple 3D'],
    )
