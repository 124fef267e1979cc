"""C22: identified lines are made of the cluster and cover it."""

import itertools
import warnings
from collections import Counter

from symx.case import Case
from .common import sequences

ASSUMPTIONS = [
    'the clusters are made by create_clusters from symbolic positions (which is the subject of C19), or are connected '
    'graphs with symbolic distances',
]
METHODS = ('ballistic', 'shortest_path', 'dominating_set')


def same_node(ctx, a, b):
    if a is b or all(x is y for x, y in zip(a, b)):
        return True
    return ctx.is_true(ctx.all([x == y for x, y in zip(a, b)]))


def index(ctx, node, nodes, label):
    for i, other in enumerate(nodes):
        if node is other:
            return i
    for i, other in enumerate(nodes):
        if same_node(ctx, node, other):
            return i
    ctx.fail(label)
    return None


def evaluate(ctx, graph, limits, periodic, feature_size, method, default=False):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._evaluate import evaluate_cluster
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kwargs = {} if default else {'evaluate_line_method': method}
        return evaluate_cluster(graph=graph, dim=1,
                                coordinate_system=CoordinateSystem(limits=limits, periodic=periodic),
                                feature_size=feature_size, **kwargs)


def name_of(degrees):
    if not degrees:
        return 'CLOSED LOOP'
    return 'OPEN LINE' if degrees == {1: 2} else 'UNKNOWN'


def verify(ctx, graph, line, method, before):
    nodes = list(graph.nodes)
    ctx.check('cluster unchanged', [list(graph.nodes), sorted_edges(graph)] == before)
    ctx.check('a line', line is not None and hasattr(line, 'degree_count'))
    n = len(nodes)
    adj = [[graph.has_edge(a, b) for b in nodes] for a in nodes]
    found = [index(ctx, node, nodes, 'line node is a position of the cluster') for node in line.graph.nodes]
    ctx.check('no repeated node', len(set(found)) == len(found))
    ctx.check('not empty', bool(found))
    edges = set()
    for a, b in line.graph.edges:
        i, j = index(ctx, a, nodes, 'edge of cluster nodes'), index(ctx, b, nodes, 'edge of cluster nodes')
        ctx.check('joins two positions', i != j)
        ctx.check('joins only positions at most the feature size apart', adj[i][j])
        edges.add((min(i, j), max(i, j)))
    for i in range(n):
        ctx.check('each position is close to the line', i in found or any(adj[i][j] for j in found))
    degree = Counter()
    for i, j in edges:
        degree[i] += 1
        degree[j] += 1
    count = {d: k for d, k in Counter(degree[i] for i in found).items() if d != 2}
    ctx.check('degree count', {d: k for d, k in line.degree_count.items()} == count)
    ctx.check('shape name', line.shape_name == name_of(count))
    ctx.reach(line.shape_name)
    if method != 'ballistic':
        left = set(found)
        stack = [left.pop()]
        while stack:
            i = stack.pop()
            new = {j for j in left if (min(i, j), max(i, j)) in edges}
            left -= new
            stack.extend(new)
        ctx.check('connected', not left)
    return found


def sorted_edges(graph):
    nodes = list(graph.nodes)
    where = {id(node): i for i, node in enumerate(nodes)}
    return sorted(tuple(sorted((where.get(id(a), -1), where.get(id(b), -1)))) for a, b in graph.edges)


def chain(ctx, method, count, periodic=False, length=None, feature_size=1., gaps=None, order=None, default=False):
    """Positions along one axis, with symbolic distances of adjacent ones."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._cluster import create_clusters
    limits = [(0., float(length or count + 1))]
    gaps = gaps or [None] * (count - 1)
    pos = [ctx.real('x0', 0, 0)]
    for i, g in enumerate(gaps):
        lo, hi = (0.01, feature_size) if g is None else g if isinstance(g, tuple) else (g, g)
        pos.append(pos[-1] + ctx.real('gap{}'.format(i), lo, hi))
    ctx.assume(pos[-1] <= limits[0][1] - 0.01)
    perm = order or list(range(count))
    if order == 'any':
        perm = list(itertools.permutations(range(count)))[ctx.choice('order', [0, 1, 2, 6, 24, 120][count])]
    clusters = create_clusters([(pos[i], ) for i in perm], feature_size=feature_size,
                               coordinate_system=CoordinateSystem(limits=limits, periodic=periodic))
    ctx.check('one cluster', len(clusters) == 1)
    graph = clusters[0]
    before = [list(graph.nodes), sorted_edges(graph)]
    line = evaluate(ctx, graph, limits, periodic, feature_size, method, default)
    verify(ctx, graph, line, method, before)


SHAPES = {
    # positions on a lattice of spacing 0.8, None: symbolic
    'line': [(0, 0), (1, 0), (2, 0), (3, 0)],
    'cross': [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)],
    'tee': [(0, 0), (1, 0), (-1, 0), (0, 1)],
    'ring': [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1)],
    'ell': [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2)],
    'square': [(0, 0), (1, 0), (1, 1), (0, 1)],
    'lasso': [(0, 0), (1, 0), (1, 1), (0, 1), (2, 0), (3, 0)],
    'eight': [(0, 0), (1, 0), (1, 1), (0, 1), (-1, 0), (-1, -1), (0, -1)],
    'long': [(x - 4, 0) for x in range(10)],
    'hash': [(x, y) for x in range(-1, 3) for y in (0, 1)] + [(0, -1), (1, -1), (0, 2), (1, 2)],
    'stair': [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (4, 4)],
    'around': [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0)],
}
SMALL = ('line', 'cross', 'tee', 'ring', 'ell', 'square', 'lasso', 'around')


def planar(ctx, method, shape, loose=1, free=(0, ), periodic=False, spacing=0.8, feature_size=1., optional=(),
           limits=((-4, 4), (-4, 4)), shift=0, zaxis=False):
    """Positions in the plane; the last ones can be moved along one axis, some may be missing."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._cluster import create_clusters
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if zaxis:
        limits.append((0., 2.))
    lattice = SHAPES[shape]
    pos = []
    for i, p in enumerate(lattice):
        if i in optional and not ctx.lazy_bool('present{}'.format(i)):
            continue
        pos.append([
            ctx.real('p{}_{}'.format(i, k), x * spacing - 0.19, x * spacing + 0.19) if i in free and k == loose - 1
            else ctx.const(x * spacing) for k, x in enumerate(p)
        ] + [ctx.const(1.)] * zaxis)
    pos = pos[shift:] + pos[:shift]
    clusters = create_clusters([tuple(p) for p in pos], feature_size=feature_size,
                               coordinate_system=CoordinateSystem(limits=limits, periodic=periodic))
    for graph in clusters:
        if len(graph) < 2:
            continue
        before = [list(graph.nodes), sorted_edges(graph)]
        line = evaluate(ctx, graph, limits, periodic, feature_size, method)
        verify(ctx, graph, line, method, before)


def abstract(ctx, edges, optional=(), symbolic=(), feature_size=1., relabel='rotate', cs_needed=False, method='shortest_path'):
    """A graph with given, optional edges; some of them have symbolic distances (others are 0.5 or given)."""
    import networkx as nx
    from nodefinder.identify._cluster import _DISTANCE_KEY
    n = 1 + max(max(e[:2]) for e in list(edges) + list(optional))
    if relabel == 'rotate':
        k = ctx.choice('label', 2 * n)
        names = [(k + i) % n if k < n else (k - i) % n for i in range(n)]
    elif relabel == 'all':
        names = list(itertools.permutations(range(n)))[ctx.choice('label', [1, 1, 2, 6, 24, 120][n])]
    else:
        names = list(range(n))
    graph = nx.Graph()
    nodes = [(float(x), ) for x in names]
    graph.add_nodes_from(sorted(nodes))
    for e in list(edges) + [o for o in optional if ctx.lazy_bool('edge{}_{}'.format(*o))]:
        name = 'd{}_{}'.format(*e[:2])
        dist = ctx.real(name, 0.01, feature_size) if tuple(e[:2]) in symbolic or symbolic == 'all' \
            else e[2] if len(e) > 2 else 0.5
        graph.add_edge(nodes[e[0]], nodes[e[1]], **{_DISTANCE_KEY: dist})
    ctx.assume(nx.is_connected(graph))
    graph = nx.freeze(graph)
    before = [list(graph.nodes), sorted_edges(graph)]
    line = evaluate(ctx, graph, [(0., 100.)], False, feature_size, method)
    verify(ctx, graph, line, method, before)


def names(ctx, keys, top):
    """The name of a line with given degrees."""
    import networkx as nx
    from nodefinder.identify.result import NodalLine
    count = Counter()
    for d in keys:
        k = ctx.choice('count{}'.format(d), top + 1)
        if k:
            count[d] = k
    line = NodalLine(graph=nx.Graph(), degree_count=count)
    ctx.check('shape name', line.shape_name == name_of(dict(count)))
    ctx.reach(line.shape_name)


def wrong_method(ctx):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._cluster import create_clusters
    cs = CoordinateSystem(limits=[(0., 4.)], periodic=False)
    graph = create_clusters([(0.25, ), (0.5, )], feature_size=1., coordinate_system=cs)[0]
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter('always')
        from nodefinder.identify._evaluate import evaluate_cluster
        res = evaluate_cluster(graph=graph, dim=1, coordinate_system=cs, feature_size=1.,
                               evaluate_line_method='no such method')
    ctx.check('no shape, with a warning', res is None and len(found) > 0)


def path(n):
    return [(i, i + 1) for i in range(n - 1)]


def ring(n):
    return path(n) + [(0, n - 1)]


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, budget=400, **params):
        res.append(Case(name, fct, params=params, need=need, budget=budget, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    for method in METHODS:
        hard = method == 'dominating_set'
        add(method + ' chain 3', chain, ['OPEN LINE'], method=method, count=3)
        add(method + ' chain 3 any order', chain, ['OPEN LINE'], method=method, count=3, order='any')
        add(method + ' chain 4', chain, ['OPEN LINE'], method=method, count=4, weight=5,
            gaps=[None, None, 0.75] if not deep else None)
        add(method + ' chain around', chain, method=method, count=4, periodic=True, length=2.75, weight=5,
            gaps=[0.75, None if deep or not hard else (0.25, 0.75), 0.75])
        for shape in ('eight', 'long', 'hash', 'stair'):
            add('{} {}'.format(method, shape), planar, method=method, shape=shape, weight=3,
                free=(5, ) if method == 'ballistic' and shape in ('eight', 'long') else (), optional=(3, 6),
                limits=((-10, 10), (-10, 10)), shift=4)
        for shape in SMALL:
            slow = hard and shape in ('square', 'lasso', 'ring') or (method, shape) == ('ballistic', 'cross')
            if deep or not slow:
                add('{} {}'.format(method, shape), planar, method=method, shape=shape, weight=3 if not slow else 30)
            if slow:
                add('{} {} with gaps'.format(method, shape), planar, method=method, shape=shape, weight=3, free=(),
                    optional=range(len(SHAPES[shape])) if len(SHAPES[shape]) < 7 else (1, 2, 5, 6))
        add(method + ' ring with fixed gaps', planar, method=method, shape='ring', free=(), optional=(0, 3, 6), weight=3)
        add(method + ' cross with some gaps', planar, method=method, shape='cross', free=(1, ), optional=(2, 3, 4), weight=3)
        add(method + ' periodic', planar, method=method, shape='around', free=(2, ) if deep or not hard else (),
            optional=() if deep or not hard else range(5), periodic=True, zaxis=True,
            limits=((0, 4), (0, 4)), weight=3)
    add('default method', chain, method='shortest_path', count=3, default=True)
    sp = 'shortest_path'
    add('shortest_path graphs 4', abstract, edges=path(4), optional=[(0, 2), (1, 3), (0, 3)], symbolic=[(1, 2)],
        relabel='all', weight=5)
    add('shortest_path path 7', abstract, ['OPEN LINE'], edges=path(7), symbolic=[(2, 3)], weight=5)
    add('shortest_path path 8 with chords', abstract, edges=path(8), optional=[(0, 2), (3, 5), (5, 7)], weight=5)
    add('shortest_path ring 11', abstract, edges=ring(11), symbolic=[(2, 3)], weight=5)
    add('shortest_path ring 12', abstract, edges=ring(12), optional=[(0, 6)], weight=5)
    add('shortest_path two rings', abstract, weight=5, edges=ring(6) + [(5, 6), (6, 7)], optional=[(7, 0), (3, 7)])
    star = [(0, i) for i in range(1, 6)] + [(i, i + 5) for i in range(1, 5)]
    add('shortest_path star', abstract, edges=star, optional=[(6, 10), (9, 10)], symbolic=[(0, 1)], weight=5)
    add('shortest_path three rings', abstract, weight=5,
        edges=ring(5) + [(4, 5), (5, 6), (6, 7), (7, 8), (8, 5), (8, 9), (9, 10), (10, 11), (11, 8)],
        symbolic=[(4, 5)])
    add('shape names', names, ['OPEN LINE', 'CLOSED LOOP', 'UNKNOWN'], keys=(0, 1, 3, 4), top=3)
    add('unknown method', wrong_method)
    return res + sequences(res,
        ['shortest_path ell', 'ballistic line', 'ballistic ell', 'shortest_path line'],
        ['default method', 'shortest_path chain 3', 'ballistic stair'],
    )
