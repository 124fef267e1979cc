"""C25: plots show exactly the result."""

import itertools
import types
from collections import Counter

import numpy as np

from symx.case import Case
from .common import sequences
from .c23 import equal

ASSUMPTIONS = ['plots are observed on an axes object which records scatter and plot calls']


def unsupported(what):
    """A use of the plotting stand-ins which they do not model."""
    try:
        from symx.core import EngineLimit
    except ImportError:
        EngineLimit = RuntimeError
    raise EngineLimit(what)



class Colors:
    def __init__(self):
        self.count = 0

    def get_next_color(self):
        self.count += 1
        return 'C{}'.format(self.count % 10)


class Axes:
    """Records what is drawn."""

    def __init__(self, dim):
        self.dim = dim
        self.points = []  # (position, options)
        self.lines = []  # (list of positions, options)
        self.limits = {}
        self.surfaces = 0
        self._get_lines = Colors()

    def coordinates(self, args):
        cols = []
        for a in args[:self.dim]:
            if hasattr(a, '__len__') or isinstance(a, np.ndarray) and a.ndim:
                if isinstance(a, np.ndarray) and a.ndim != 1:
                    unsupported('plot of arrays')
                cols.append(list(a))
            else:
                cols.append([a])
        if len(cols) != self.dim or len(set(len(c) for c in cols)) != 1:
            raise ValueError('coordinates do not match')
        return [list(p) for p in zip(*cols)]

    def scatter(self, *args, **kwargs):
        names = ['x', 'y', 'xs', 'ys', 'zs']
        args = list(args) + [kwargs.pop(n) for n in names if n in kwargs]
        for p in self.coordinates(args):
            self.points.append((p, kwargs))

    def plot(self, *args, **kwargs):
        args = list(args)
        fmt = [a for a in args if isinstance(a, str)]
        args = [a for a in args if not isinstance(a, str)]
        if 'zs' in kwargs:
            args.append(kwargs.pop('zs'))
        if not args:
            return []  # nothing to draw
        if len(args) % self.dim:
            raise ValueError('wrong number of coordinates')
        for k in range(0, len(args), self.dim):
            current = []
            for p in self.coordinates(args[k:k + self.dim]):
                if any(isinstance(x, float) and x != x or x is None for x in p):
                    self.lines.append((current, kwargs))
                    current = []
                else:
                    current.append(p)
            style = ''.join(fmt) + str(kwargs.get('linestyle', '')) + str(kwargs.get('marker', ''))
            if style:
                unsupported('line style')
            self.lines.append((current, kwargs))
        return [types.SimpleNamespace() for _ in range(len(args) // self.dim)]

    def plot_surface(self, *_args, **_kwargs):
        self.surfaces += 1

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('set_xlim', 'set_ylim', 'set_zlim'):
            def set_limits(*args, **_kwargs):
                self.limits[name[4]] = args[0] if len(args) == 1 else args
            return set_limits
        if name.startswith('set_') or name in ('grid', 'legend', 'margins', 'autoscale', 'autoscale_view', 'relim'):
            return lambda *args, **kwargs: None
        unsupported('Axes.{}'.format(name))

    def segments(self):
        return [(p, q) for line, _ in self.lines for p, q in zip(line[:-1], line[1:])]


def check_limits(ctx, axes, limits):
    for name, (lo, hi) in zip('xyz', limits):
        ctx.check('limits of the axes', name in axes.limits and ctx.all(
            [ctx.close(a, b) for a, b in zip(axes.limits[name], (lo, hi))]
        ))


def which(ctx, p, nodes, label):
    for i, q in enumerate(nodes):
        if ctx.is_true(equal(ctx, p, q)):
            return i
    ctx.fail(label)
    return None


def values(ctx, name, spec):
    return [ctx.real('{}{}'.format(name, k), float(x[0]), float(x[1])) if isinstance(x, tuple) else ctx.const(x)
            for k, x in enumerate(spec)]


def setup(ctx, dim, limits=None):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = limits or [(-1., 1.), (0., 2.), (-2., 0.)][:dim]
    return limits, CoordinateSystem(limits=limits, periodic=True)


class Figure:
    def __init__(self, dim):
        self.dim = dim
        self.axes = []
        self.options = []

    def add_subplot(self, *args, **kwargs):
        self.options.append(kwargs)
        self.axes.append(Axes(self.dim))
        return self.axes[-1]

    def subplots(self, *args, **kwargs):
        return self.add_subplot(**dict(kwargs.get('subplot_kw') or {}))

    gca = add_subplot


def draw(ctx, dim, given, fct):
    """fct(axis=...): on given axes, or in a new figure. Returns the axes."""
    if given:
        axes = Axes(dim)
        res = fct(axis=axes)
        ctx.check('returns the axes', res is None or (res[1] is axes and res[0] is None))
        return axes
    import matplotlib.pyplot as plt
    fig = Figure(dim)
    saved = plt.figure, plt.subplots
    plt.figure = lambda *a, **k: fig
    plt.subplots = lambda *a, **k: (fig, fig.subplots(*a, **k))
    try:
        res = fct()
    finally:
        plt.figure, plt.subplots = saved
    ctx.check('one new figure', len(fig.axes) == 1)
    ctx.check('projection', (fig.options[0].get('projection') == '3d') == (dim == 3))
    ctx.check('returns figure and axes', res[0] is fig and res[1] is fig.axes[0])
    return fig.axes[0]


def nodes(ctx, dim, count, given=True, fixed=False):
    """Points of a search result, also with rejected results"""
    from nodefinder.search.plot import points
    from nodefinder.search.result import SearchResultContainer, MinimizationResult
    limits, cs = setup(ctx, dim)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.5, dist_cutoff=3.)
    expected = []
    for i in range(count):
        pos = [ctx.real('p{}_{}'.format(i, k), lo, hi - 0.01) for k, (lo, hi) in enumerate(limits)]
        if fixed and i != count // 2:
            pos = [lo + (hi - lo) * ((i + 1) * x % 1) for (lo, hi), x in zip(limits, (0.618, 0.7549, 0.8192))]
            value, success = (0.4 * i) % 1, i % 7 != 2
        else:
            value = ctx.real('value{}'.format(i), 0, 1)
            success = ctx.lazy_bool('success{}'.format(i))
        container.add_result(MinimizationResult(pos=ctx.array(pos), value=value, success=success, status=0, message='m',
                                                num_fev=1, num_iter=1))
        if success and value <= 0.5:
            expected.append((pos, value))
    axes = draw(ctx, dim, given, lambda **kw: points(container, **kw))
    check_limits(ctx, axes, limits)
    ctx.check('each node once', len(axes.points) == len(expected))
    ctx.check('no lines', not axes.segments())
    left = list(expected)
    for p, _ in axes.points:
        hits = [i for i, (q, _) in enumerate(left) if ctx.is_true(equal(ctx, p, q))]
        ctx.check('node at its position', bool(hits))
        del left[hits[0]]
    ctx.reach('{} nodes'.format(len(expected)))


def edges_of(simplex):
    return list(itertools.combinations(simplex, 2))


def check_edges(ctx, axes, simplices):
    """Each edge of each simplex is drawn (as often as it is there), and nothing else"""
    wanted = [e for s in simplices for e in edges_of(s)]
    left = list(wanted)
    extra = 0
    for p, q in axes.segments():
        for k, (a, b) in enumerate(left):
            if ctx.is_true(ctx.any([ctx.all([equal(ctx, p, a), equal(ctx, q, b)]),
                                    ctx.all([equal(ctx, p, b), equal(ctx, q, a)])])):
                del left[k]
                break
        else:
            extra += 1
            ctx.check('drawn edge belongs to a simplex', ctx.any([
                ctx.any([ctx.all([equal(ctx, p, a), equal(ctx, q, b)]),
                         ctx.all([equal(ctx, p, b), equal(ctx, q, a)])]) for a, b in wanted
            ]))
    for a, b in left:  # the same edge again, in another simplex
        ctx.check('each edge is drawn', ctx.any([
            ctx.any([ctx.all([equal(ctx, p, a), equal(ctx, q, b)]),
                     ctx.all([equal(ctx, p, b), equal(ctx, q, a)])]) for p, q in axes.segments()
        ]))
    ctx.reach('edges')


def make_simplices(ctx, dim, count):
    """One symbolic vertex each"""
    res = []
    for i in range(count):
        s = [[ctx.const(2. * i + 0.3 * k + (1. if j == k + 1 else 0.)) for k in range(dim)] for j in range(dim)]
        s.append([ctx.real('v{}_{}'.format(i, k), 2. * i + 1.7, 2. * i + 1.9) for k in range(dim)])
        res.append(s)
    return res


def simplices(ctx, dim, counts, joined=False, given=True):
    from nodefinder.search.plot import simplices as plot
    from nodefinder.search.result import MinimizationResult, JoinedMinimizationResult, SearchResultContainer
    limits, cs = setup(ctx, dim)
    every = make_simplices(ctx, dim, sum(counts))
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.5, dist_cutoff=3.)
    todo = list(every)
    drawn = []
    for n in counts:
        history = [ctx.array(s) for s in todo[:n]]
        del todo[:n]
        drawn.append(MinimizationResult(pos=history[-1][0], value=0., success=True, status=0, message='m', num_fev=1,
                                        num_iter=1, simplex_history=history))
    if joined:
        drawn = [JoinedMinimizationResult(ancestor=drawn[0], child=drawn[1])] + drawn[2:]
    axes = draw(ctx, dim, given, lambda **kw: plot(container, nodes=drawn, **kw))
    check_limits(ctx, axes, limits)
    ctx.check('no points', not axes.points)
    check_edges(ctx, axes, every)


def stencils(ctx, dim, count, given=True, sphere=True, origin=True):
    from nodefinder.search.plot import stencil
    every = make_simplices(ctx, dim, count)
    kwargs = dict(plot_sphere=sphere)
    if not origin:
        kwargs['origin_settings'] = None
    axes = draw(ctx, dim, given, lambda **kw: stencil(ctx.array(every), **kwargs, **kw))
    ctx.check('origin', len(axes.points) == (1 if origin else 0))
    for p, _ in axes.points:
        ctx.check('origin', equal(ctx, p, [0.] * dim))
    circle = [line for line, _ in axes.lines if len(line) > 20]
    ctx.check('sphere', (len(circle), axes.surfaces) == ((1 if dim == 2 else 0, 1 if dim == 3 else 0) if sphere else (0, 0)))
    for p in circle[0] if circle else []:
        ctx.check('sphere', ctx.close(p[0]**2 + p[1]**2, 1.))
    axes.lines = [(line, opts) for line, opts in axes.lines if len(line) <= 20]
    check_edges(ctx, axes, every)


def make_graph(ctx, spec, edges, optional=(), name=''):
    import networkx as nx
    pos = [tuple(values(ctx, '{}p{}_'.format(name, i), p)) for i, p in enumerate(spec)]
    graph = nx.Graph()
    graph.add_nodes_from(pos)
    present = set()
    for i, j in list(edges) + [e for e in optional if ctx.lazy_bool('{}edge{}_{}'.format(name, *e))]:
        graph.add_edge(pos[i], pos[j])
        present.add((min(i, j), max(i, j)))
    return graph, pos, present


def make_line(ctx, *args, **kwargs):
    from nodefinder.identify.result import NodalLine
    from nodefinder.identify._evaluate._line._run import _create_degree_count
    graph, pos, present = make_graph(ctx, *args, **kwargs)
    return NodalLine(graph=graph, degree_count=_create_degree_count(graph)), pos, present


def check_line(ctx, axes, pos, present, feature_size, color=None):
    """Only this line is on the axes."""
    drawn = Counter()
    for p, q in axes.segments():
        i, j = which(ctx, p, pos, 'drawn edge'), which(ctx, q, pos, 'drawn edge')
        ctx.check('drawn edge is in the graph', (min(i, j), max(i, j)) in present)
        drawn[min(i, j), max(i, j)] += 1
    for i, j in sorted(present):
        length2 = sum((a - b) * (a - b) for a, b in zip(pos[i], pos[j]))
        ctx.check('edge at most once', drawn[i, j] <= 1)
        if feature_size is None:
            ctx.check('edge is drawn', drawn[i, j] == 1)
        elif drawn[i, j]:
            ctx.check('not drawn across the boundary', ctx.le(length2, 4 * feature_size**2))
            ctx.reach('edge')
        else:
            ctx.check('edge is drawn', ctx.le(4 * feature_size**2, length2))
            ctx.reach('not drawn')
    if not present:
        ctx.check('positions of a line without edges', len(axes.points) == len(pos))
        for k in pos:
            ctx.check('positions of a line without edges', ctx.any([equal(ctx, p, k) for p, _ in axes.points]))
        ctx.reach('no edges')
    else:
        ctx.check('no other points', all(ctx.is_true(ctx.any([equal(ctx, p, k) for k in pos]))
                                         for p, _ in axes.points))


def line(ctx, spec, edges, optional=(), feature_size=(0.2, 1.)):
    from nodefinder.identify.plot import nodal_line
    shape, pos, present = make_line(ctx, spec, edges, optional)
    before = (list(shape.graph.nodes), len(shape.graph.edges))
    if isinstance(feature_size, tuple):
        feature_size = ctx.real('feature size', *feature_size)
    axes = Axes(len(spec[0]))
    kwargs = {} if feature_size is None else {'feature_size': feature_size}
    nodal_line(shape, axis=axes, color='C3', **kwargs)
    ctx.check('the line is not changed', before == (list(shape.graph.nodes), len(shape.graph.edges)))
    check_line(ctx, axes, pos, present, feature_size)


def result(ctx, dim, kinds, given=True, feature_size=1., limits=11.):
    """An identification result: objects which are far from each other"""
    from nodefinder.identify.plot import result as plot
    from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalPoint
    limits, cs = setup(ctx, dim, [(-1., limits)] * dim)
    objects, expected = [], []
    for n, kind in enumerate(kinds):
        if kind == 'any':
            kind = ['point', 'line', 'none', 'isolated'][ctx.choice('kind{}'.format(n), 4)]
        base = [(3. * n, 3. * n + 0.1)] + [0.] * (dim - 1)
        if kind == 'point':
            at = values(ctx, 'at{}_'.format(n), base)
            shape = NodalPoint(position=ctx.array(at))
            pos = [[x + 0.25 for x in at], [x - 0.25 for x in at]]
            expected.append(('point', [at], []))
        else:
            spec = [[(3. * n + 0.3 * i, 3. * n + 0.3 * i + 0.1)] + [0.5 * i] * (dim - 1) for i in range(3)]
            edges = [(0, 1), (1, 2)] if kind == 'line' else []
            shape, pos, present = make_line(ctx, spec, edges, name='o{}'.format(n))
            if kind == 'none':
                shape = None
            expected.append((kind, pos, present))
        objects.append(IdentificationResult(positions=pos, dimension={'point': 0, 'none': 2}.get(kind, 1), shape=shape))
    res = IdentificationResultContainer(coordinate_system=cs, feature_size=feature_size, results=objects)
    axes = draw(ctx, dim, given, lambda **kw: plot(res, **kw))
    check_limits(ctx, axes, limits)
    points = [p for p, _ in axes.points]
    segments = axes.segments()
    for kind, pos, present in expected:
        ctx.reach(kind)
        if kind != 'line':
            for q in pos:
                hits = [k for k, p in enumerate(points) if ctx.is_true(equal(ctx, p, q))]
                ctx.check('{}: drawn once'.format(kind), len(hits) == 1)
                if hits:
                    del points[hits[0]]
        for i, j in present:
            hits = [k for k, (p, q) in enumerate(segments) if ctx.is_true(ctx.any(
                [ctx.all([equal(ctx, p, pos[i]), equal(ctx, q, pos[j])]),
                 ctx.all([equal(ctx, p, pos[j]), equal(ctx, q, pos[i])])]))]
            ctx.check('line: edge drawn once', len(hits) == 1)
            if hits:
                del segments[hits[0]]
    ctx.check('nothing else', not points and not segments)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    for dim in (2, 3):
        d = ' {}D'.format(dim)
        for count in (0, 1, 2):
            add('nodes {}'.format(count) + d, nodes, ['{} nodes'.format(count)], dim=dim, count=count, weight=count + 1)
        add('nodes in a new figure' + d, nodes, ['1 nodes'], dim=dim, count=1, given=False)
        add('simplices' + d, simplices, ['edges'], dim=dim, counts=(2, 1))
        add('simplices of joined results' + d, simplices, ['edges'], dim=dim, counts=(1, 2, 1), joined=True)
        add('simplices in a new figure' + d, simplices, ['edges'], dim=dim, counts=(1, ), given=False)
        add('stencil' + d, stencils, ['edges'], dim=dim, count=2)
        add('stencil in a new figure' + d, stencils, ['edges'], dim=dim, count=1, given=False, origin=False)
        add('stencil without sphere' + d, stencils, ['edges'], dim=dim, count=1, sphere=False)
        z = [0.5] * (dim - 2)
        path = [[(0, 0.1), 0.] + z, [0.5, (0, 0.2)] + z, [1., 0.2] + z, [(1.3, 1.9), 0.3] + z]
        pairs = list(itertools.combinations(range(4), 2))
        add('line' + d, line, ['edge', 'not drawn'], spec=path, edges=[(0, 1), (1, 2), (2, 3)], weight=5)
        add('line, any edges' + d, line, ['edge', 'no edges'], spec=path, edges=[], optional=pairs, feature_size=1.,
            weight=9)
        add('line, any edges, no feature size' + d, line, ['no edges'], spec=path, edges=[], optional=pairs,
            feature_size=None, weight=9)
        far = [[0.1, (0, 0.1)] + z, [0.5, 0.] + z, [2.5, (0, 0.2)] + z, [2.9, 0.1] + z]
        add('line across the boundary' + d, line, ['edge', 'not drawn'], spec=far, feature_size=0.5,
            edges=[(1, 0), (0, 3), (3, 2)], optional=[(1, 2)], weight=5)
        add('line of one position' + d, line, ['no edges'], spec=[[(0, 1), 0.] + z], edges=[])
        add('figure eight' + d, line, ['edge'], feature_size=1., weight=5,
            spec=[[0., (0, 0.1)] + z, [0.5, 0.5] + z, [0.5, -0.5] + z, [-0.5, 0.5] + z, [-0.5, -0.5] + z],
            edges=[(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0)])
        add('result' + d, result, ['point', 'line', 'none', 'isolated'], dim=dim, kinds=['any', 'any'], weight=9)
        add('result in a new figure' + d, result, ['point', 'line', 'none'], dim=dim, kinds=['line', 'none', 'point'],
            given=False, weight=3)
        add('empty result' + d, result, dim=dim, kinds=[])
        add('many nodes' + d, nodes, ['{} nodes'.format(k) for k in (6, 7)], dim=dim, count=9, fixed=True, weight=3)
        add('many simplices' + d, simplices, ['edges'], dim=dim, counts=(4, 1, 3, 5), weight=3)
        add('many simplices of joined results' + d, simplices, ['edges'], dim=dim, counts=(5, 4, 2), joined=True, weight=3)
        add('large stencil' + d, stencils, ['edges'], dim=dim, count=8)
        long = [[0.5 * i, 0.3 * (i % 3)] + z for i in range(11)]
        long[4][1] = (0, 0.5)
        add('long line' + d, line, ['edge', 'not drawn'], spec=long, edges=[(i, i + 1) for i in range(10)], weight=3)
        add('long line with branches' + d, line, ['edge'], spec=long, feature_size=1., weight=3,
            edges=[(0, 1), (1, 2), (2, 3), (2, 4), (4, 5), (4, 6), (6, 7), (7, 8), (8, 6), (8, 9), (9, 10)])
        add('result of six' + d, result, ['point', 'line', 'none', 'isolated'], dim=dim,
            kinds=['line', 'point', 'isolated', 'none', 'line', 'point'], limits=20., weight=5)
        add('result of fourteen' + d, result, ['point', 'line', 'none', 'isolated'], dim=dim,
            kinds=['line', 'point', 'isolated', 'none', 'line', 'point', 'point'] * 2, limits=50., weight=5)
        if deep:
            add('nodes 3' + d, nodes, ['3 nodes'], dim=dim, count=3, weight=50)
            five = path + [[(2.4, 2.9), 0.5] + z]
            add('line of five, any edges' + d, line, ['edge', 'no edges'], spec=five, edges=[],
                optional=list(itertools.combinations(range(5), 2)), feature_size=1., weight=90)
            add('result of three' + d, result, ['point', 'line', 'none', 'isolated'], dim=dim, kinds=['any'] * 3, weight=90)
    return res + sequences(res,
        ['figure eight 2D', 'result in a new figure 3D', 'long line with branches 2D', 'figure eight 3D'],
        ['simplices 3D', 'result in a new figure 2D', 'stencil in a new figure 2D', 'many simplices 2D'],
    )
