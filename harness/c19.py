"""C19: clusters are the connected components at the feature size."""

import itertools

from symx.case import Case
from .common import closer, point, ref_distance, sequences

ASSUMPTIONS = ['up to four (thorough: five) distinct positions']


def create(limits, periodic, feature_size, positions):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._cluster import create_clusters
    return create_clusters(
        positions, feature_size=feature_size, coordinate_system=CoordinateSystem(limits=limits, periodic=periodic)
    )


def identify(ctx, node, positions):
    """Index of the first input position which is equal to the node."""
    for k, p in enumerate(positions):
        if ctx.is_true(ctx.all([a == b for a, b in zip(node, p)])):
            return k
    ctx.fail('node is one of the positions')
    return None


def within(ctx, a, b, limits, periodic, feature_size, tol):
    """Distance at most feature_size + tol"""
    if tol is None:
        return ctx.not_(ctx.all([  # exactly
            ctx.not_(c) for c in exact(ctx, a, b, limits, periodic, feature_size)
        ]))
    return closer(ctx, a, b, limits, periodic, feature_size + tol, reach=3 if len(limits) == 1 else 1)


def exact(ctx, a, b, limits, periodic, feature_size):
    shifts = range(-3, 4) if periodic else [0]
    axes = [[y - x - n * (hi - lo) for n in shifts] for x, y, (lo, hi) in zip(a, b, limits)]
    for ds in itertools.product(*axes):
        if len(ds) == 1:
            yield ctx.all([ds[0] <= feature_size, ds[0] >= -feature_size])
        else:
            yield sum(d * d for d in ds) <= feature_size * feature_size


def closure(ctx, adj):
    n = len(adj)
    reach = [[adj[i][j] if i != j else True for j in range(n)] for i in range(n)]
    for k in range(n):
        reach = [[ctx.any([reach[i][j], ctx.all([reach[i][k], reach[k][j]])]) for j in range(n)] for i in range(n)]
    return reach


def partition(ctx, clusters, positions):
    return [sorted(identify(ctx, node, positions) for node in graph.nodes) for graph in clusters]


def clusters(ctx, limits, periodic, count, feature_size, reach=0., fixed=(), tol=1e-7, order=False, kinds='tuple'):
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if isinstance(feature_size, tuple):
        feature_size = ctx.real('feature_size', *feature_size)
    positions = [[ctx.real('fixed{}_{}'.format(i, j), *(limits[j] if x is None else (float(x), float(x)))) for j, x in enumerate(p)]
                 for i, p in enumerate(fixed)]
    positions += [list(point(ctx, 'p{}_'.format(i), limits, reach)) for i in range(count)]
    make = {'tuple': tuple, 'list': list, 'array': ctx.array}[kinds]
    graphs = create(limits, periodic, feature_size, [make(p) for p in positions])
    found = partition(ctx, graphs, positions)
    flat = [k for c in found for k in c]
    ctx.check('each position in one cluster', len(flat) == len(set(flat)))
    ctx.check('no empty cluster', all(found))
    # input positions which are equal are the same node
    for k, p in enumerate(positions):
        if k not in flat:
            ctx.check('each position is there', ctx.any(
                [ctx.all([a == b for a, b in zip(p, positions[m])]) for m in flat if m < k]
            ))
            ctx.reach('repeated')
    nodes = sorted(flat)
    n = len(nodes)
    where = {k: i for i, c in enumerate(found) for k in c}
    low = [[within(ctx, positions[a], positions[b], limits, periodic, feature_size, -tol if tol else None)
            for b in nodes] for a in nodes]
    high = low if tol is None else [
        [within(ctx, positions[a], positions[b], limits, periodic, feature_size, tol) for b in nodes] for a in nodes
    ]
    linked_low, linked_high = closure(ctx, low), closure(ctx, high)
    for i, j in itertools.combinations(range(n), 2):
        if where[nodes[i]] == where[nodes[j]]:
            ctx.check('same cluster only if linked', linked_high[i][j])
            ctx.reach('together')
        else:
            ctx.check('same cluster if linked', ctx.not_(linked_low[i][j]))
            ctx.reach('apart')
    edges = set()
    for graph in graphs:
        for a, b, data in graph.edges(data=True):
            i, j = identify(ctx, a, positions), identify(ctx, b, positions)
            ctx.check('no loop or repeated edge', i != j and (min(i, j), max(i, j)) not in edges)
            edges.add((min(i, j), max(i, j)))
            dist = ref_distance(ctx, positions[i], positions[j], limits, periodic)
            ctx.check('edge carries the distance', any(ctx.is_true(ctx.close(v, dist)) for v in data.values()))
    for i, j in itertools.combinations(range(n), 2):
        pair = (nodes[i], nodes[j])
        if pair in edges:
            ctx.check('edge only within the feature size', high[i][j])
        else:
            ctx.check('edge within the feature size', ctx.not_(low[i][j]))
    if order:
        perms = list(itertools.permutations(range(len(positions))))
        perm = perms[ctx.choice('order', len(perms))]
        other = [positions[k] for k in perm]
        other.insert(ctx.choice('at', len(other) + 1), list(other[ctx.choice('again', len(other))]))
        again = create(limits, periodic, feature_size, [make(p) for p in other])
        ctx.check('order and repetition do not matter', sorted(partition(ctx, again, positions)) == sorted(found))
        edges_again = set()
        for graph in again:
            for a, b in graph.edges:
                i, j = identify(ctx, a, positions), identify(ctx, b, positions)
                edges_again.add((min(i, j), max(i, j)))
        ctx.check('edges do not depend on the order', edges == edges_again)


def constant(a, b, limits, periodic):
    """Distance of constant positions"""
    total = 0.
    for x, y, (lo, hi) in zip(a, b, limits):
        delta = abs(y - x)
        if periodic:
            delta %= hi - lo
            delta = min(delta, hi - lo - delta)
        total += delta**2
    return total**0.5


def larger(ctx, limits, periodic, feature_size, fixed, free, reach=0):
    """
    Many fixed positions and one with a symbolic component. Which of the fixed positions are linked is known; the
    condition on the other one is given by the solver.
    """
    from .common import spread
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if isinstance(fixed, int):
        fixed = [spread(i, len(limits), limits, reach) for i in range(fixed)]
    spec = [list(p) for p in fixed]
    here = len(spec) // 2
    spec.insert(here, list(free))
    positions = [[ctx.real('p{}'.format(j), *x) if isinstance(x, tuple) else ctx.const(x) for j, x in enumerate(p)]
                 for p in spec]
    for k, p in enumerate(positions):
        if k != here:
            ctx.assume(ctx.any([a != b for a, b in zip(p, positions[here])]))
    graphs = create(limits, periodic, feature_size, [tuple(p) for p in positions])
    found = partition(ctx, graphs, positions)
    flat = [k for c in found for k in c]
    n = len(positions)
    ctx.check('each position in one cluster', sorted(flat) == list(range(n)))
    where = {k: i for i, c in enumerate(found) for k in c}
    low, high = [
        [[constant(spec[i], spec[j], limits, periodic) <= feature_size + tol if here not in (i, j) else
          within(ctx, positions[i], positions[j], limits, periodic, feature_size, tol) for j in range(n)]
         for i in range(n)] for tol in (-1e-7, 1e-7)
    ]
    linked_low, linked_high = closure(ctx, low), closure(ctx, high)
    for i, j in itertools.combinations(range(n), 2):
        if where[i] == where[j]:
            ctx.check('same cluster only if linked', linked_high[i][j])
            ctx.reach('together')
        else:
            ctx.check('same cluster if linked', ctx.not_(linked_low[i][j]))
            ctx.reach('apart')
    edges = set()
    for graph in graphs:
        for a, b, data in graph.edges(data=True):
            i, j = identify(ctx, a, positions), identify(ctx, b, positions)
            edges.add((min(i, j), max(i, j)))
            dist = ref_distance(ctx, positions[i], positions[j], limits, periodic)
            ctx.check('edge carries the distance', any(ctx.is_true(ctx.close(v, dist)) for v in data.values()))
    for i, j in itertools.combinations(range(n), 2):
        if (i, j) in edges:
            ctx.check('edge only within the feature size', high[i][j])
        else:
            ctx.check('edge within the feature size', ctx.not_(low[i][j]))


def nothing(ctx):
    ctx.check('no positions, no clusters', list(create([(0., 1.)], ctx.lazy_bool('periodic'), 0.2, [])) == [])


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=clusters, need=('together', 'apart'), weight=1, opts=None, **params):
        res.append(Case(name, fct, params=params, opts=opts or {}, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    unit = [(0, 1)]
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('1D {}, three'.format(word), limits=unit, periodic=periodic, count=3, feature_size=0.2, weight=3)
        add('1D {}, outside of the box'.format(word), limits=[(-1, 1)], periodic=periodic, count=2, feature_size=0.3,
            reach=1.)
        add('1D {}, feature size'.format(word), limits=unit, periodic=periodic, count=2, feature_size=(0.1, 0.4),
            weight=3)
        add('2D {}, two'.format(word), limits=[(0, 1), (0, 2)], periodic=periodic, count=2, feature_size=0.3, weight=3)
        add('1D {}, exactly'.format(word), limits=unit, periodic=periodic, count=1, feature_size=0.25, fixed=[[0.]],
            tol=None)
        add('2D {}, exactly'.format(word), limits=[(0, 1)] * 2, periodic=periodic, count=1, feature_size=0.25,
            fixed=[[0., 0.]], tol=None)
        add('3D {}, two'.format(word), limits=[(0, 1)] * 3, periodic=periodic, count=1, feature_size=0.5,
            fixed=[[0.5, 0.25, 0.]], weight=3)
        add('2D {}, chain'.format(word), limits=[(0, 1)] * 2, periodic=periodic, count=0, feature_size=0.3,
            fixed=[[0.1, 0.1], [0.9, 0.2], [0.4, 0.1], [None, 0.25]], weight=5)
        add('1D {}, order and repetition'.format(word), limits=unit, periodic=periodic, count=2, feature_size=0.2,
            order=True, kinds='array', weight=5)
    add('1D, four', limits=unit, periodic=True, count=2, feature_size=0.2, fixed=[[0.05], [0.6]], weight=9)
    add('1D, lists', need=(), limits=unit, periodic=True, count=2, feature_size=0.3, kinds='list')
    add('one position', need=(), limits=unit, periodic=True, count=1, feature_size=0.3)
    add('nothing', nothing, need=())
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('1D {}, fifteen'.format(word), larger, limits=unit, periodic=periodic, feature_size=0.045, fixed=14,
            free=[(0.1, 0.4)])
        add('1D {}, dense'.format(word), larger, need=['together'], limits=unit, periodic=periodic, feature_size=0.45 if periodic else 0.8,
            fixed=26, free=[(0.1, 0.11)], weight=5,
            opts={'max_decisions': 30000})
        add('1D {}, twelve, boxes'.format(word), larger, limits=unit, periodic=periodic, feature_size=0.07, fixed=11,
            free=[(-0.5, 0.)], reach=1)
        add('2D {}, fourteen'.format(word), larger, limits=[(0, 1), (-1, 1)], periodic=periodic, feature_size=0.3,
            fixed=13, free=[(0.6, 1), 0.9])
        add('3D {}, ten'.format(word), larger, limits=[(0, 1)] * 3, periodic=periodic, feature_size=0.35,
            fixed=9, free=[0.95, 0.5, (0, 0.5)])
        add('4D {}, eight'.format(word), larger, limits=[(0, 1)] * 4, periodic=periodic, feature_size=0.5,
            fixed=7, free=[0.95, 0.5, 0.3, (0, 0.5)])
    if deep:
        for periodic in (True, False):
            word = 'periodic' if periodic else 'open'
            add('2D {}, chain in the plane'.format(word), limits=[(0, 1)] * 2, periodic=periodic, count=1,
                feature_size=0.3, fixed=[[0.1, 0.1], [0.9, 0.2], [0.4, 0.1]], weight=90)
            add('1D {}, four'.format(word), limits=unit, periodic=periodic, count=4, feature_size=0.15, weight=90)
            add('1D {}, five, two fixed'.format(word), limits=unit, periodic=periodic, count=3, feature_size=0.15,
                fixed=[[0.05], [0.6]], weight=90)
            add('2D {}, three'.format(word), limits=[(0, 1)] * 2, periodic=periodic, count=2, feature_size=0.3,
                fixed=[[0.9, 0.1]], weight=90)
            add('1D {}, order of three'.format(word), limits=unit, periodic=periodic, count=3, feature_size=0.2,
                order=True, weight=90)
    return res + sequences(res,
        ['2D open, exactly', '1D periodic, exactly', '2D open, two', '1D open, feature size'],
    )
