"""C20: the dimension of a cluster is a two-thirds majority."""

import itertools
import warnings
from collections import Counter

from symx.case import Case
from .common import sequences
from .chance import chance

ASSUMPTIONS = [
    'clusters are made of parts with known local dimensions (single positions, pairs, paths, triangles, tetrahedra); '
    'local dimensions in general are the subject of C21',
    'the evaluation order is given by random.shuffle / random.sample, or else the order of the nodes',
]

# positions of a regular tetrahedron with edges of length one, and its center
TETRA = [(0., 0., 0.), (1., 0., 0.), (0.5, 3**0.5 / 2, 0.), (0.5, 3**0.5 / 6, (2 / 3)**0.5)]

# edges, and the local dimension of each node: the neighbours are in general position
PARTS = {
    'single': (1, []),
    'pair': (2, [(0, 1)]),
    'path': (3, [(0, 1), (1, 2)]),
    'triangle': (3, [(0, 1), (1, 2), (0, 2)]),
    'star': (4, [(0, 1), (0, 2), (0, 3)]),
    'kite': (4, [(0, 1), (0, 2), (0, 3), (1, 2)]),
    'square': (4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    'diamond': (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)]),
    'tetrahedron': (4, list(itertools.combinations(range(4), 2))),
}


def build(parts, coords):
    import networkx as nx
    graph = nx.Graph()
    dims = {}
    for k, part in enumerate(parts):
        n, edges = PARTS[part]
        nodes = [tuple((x + 3. * k if i == 0 else x) for i, x in enumerate(TETRA[m][:coords])) for m in range(n)]
        graph.add_nodes_from(nodes)
        graph.add_edges_from([(nodes[a], nodes[b]) for a, b in edges])
        degree = Counter(itertools.chain(*edges))
        for m in range(n):
            dims[nodes[m]] = min(degree[m], coords)
    return graph, dims


def majority(ctx, parts, count, coords=3, max_dim=None, minimum='sym', shuffle=True):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._dimension import calculate_dimension
    chosen = [parts[ctx.choice('part{}'.format(i), len(parts))] for i in range(count)]
    graph, dims = build(chosen, coords)
    cs = CoordinateSystem(limits=[(-50., 50.)] * coords, periodic=False)
    kwargs = {}
    cap = 3
    if max_dim is not None:
        cap = max_dim
        kwargs['max_dim'] = max_dim
    dims = {p: min(d, cap) for p, d in dims.items()}
    nodes = list(graph.nodes)
    n = len(nodes)
    if minimum == 'sym':
        minimum = ctx.choice('minimum', n + 2) + 1
        kwargs['min_pos_evaluations'] = minimum
        if minimum == n + 2:
            kwargs['min_pos_evaluations'] = minimum = None
    elif minimum != 'default':
        kwargs['min_pos_evaluations'] = minimum
    order = []

    def permute(values):
        if set(values) != set(nodes) or order:
            return values
        # any order of the local dimensions (positions with the same one are exchangeable)
        left = list(values)
        while left:
            kinds = sorted(set(dims[p] for p in left))
            kind = kinds[ctx.choice('next{}'.format(len(order)), len(kinds))]
            p = [q for q in left if dims[q] == kind][0]
            left.remove(p)
            order.append(p)
        return list(order)

    evaluated = min(n, {None: n, 'default': 5}.get(minimum, minimum))
    with chance(order=permute if shuffle else None, subset=lambda values, k: permute(values)[:k]), \
            warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = calculate_dimension(graph=graph, feature_size=1., coordinate_system=cs, **kwargs)
    sequence = [dims[p] for p in (order or nodes)]
    warned = any(issubclass(w.category, UserWarning) for w in caught)

    def two_thirds(d, i):
        return 3 * sequence[:i].count(d) >= 2 * i

    if res is None:
        ctx.check('undetermined only without majority',
                  not any(two_thirds(d, i) for d in range(cap + 1) for i in range(evaluated, n + 1)))
        ctx.check('warning if undetermined', warned)
        ctx.reach('undetermined')
    else:
        ctx.check('majority', any(two_thirds(res, i) for i in range(evaluated, n + 1)))
        ctx.check('range', 0 <= res <= min(cap, coords))
        ctx.check('no warning', not warned)
        ctx.reach('dimension')
        if not two_thirds(res, n):
            ctx.reach('found early')


def fraction(ctx, maximum):
    """Counts of two dimensions in any proportion: single positions, then pairs."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._dimension import calculate_dimension
    singles = ctx.choice('singles', maximum + 1)
    pairs = ctx.choice('pairs', maximum // 2 + 1)
    if singles + pairs == 0:
        return
    graph, dims = build(['single'] * singles + ['pair'] * pairs, 1)
    cs = CoordinateSystem(limits=[(-50., 50.)], periodic=False)
    with chance(), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = calculate_dimension(graph=graph, feature_size=1., coordinate_system=cs, min_pos_evaluations=None)
    n = len(dims)
    counts = Counter(dims.values())
    best = [d for d in counts if 3 * counts[d] >= 2 * n]
    ctx.check('majority of all', res == (best[0] if best else None))
    if best and 3 * counts[best[0]] == 2 * n:
        ctx.reach('exactly two thirds')


def blocks(ctx, kinds, top, minimum, counts=None):
    """Long sequences of local dimensions: a number of positions of each kind, one kind after another."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify._dimension import calculate_dimension
    ranges = counts or [(0, top)] * len(kinds)
    counts = [lo + ctx.choice('count{}'.format(i), hi - lo + 1) for i, (lo, hi) in enumerate(ranges)]
    degree = {0: 'single', 1: 'pair', 2: 'triangle'}
    size = {0: 1, 1: 2, 2: 3}
    need = {d: sum(c for c, k in zip(counts, kinds) if k == d) for d in set(kinds)}
    if not sum(need.values()) or any(n % size[d] for d, n in need.items()):
        return
    parts = [degree[d] for d, n in need.items() for _ in range(n // size[d])]
    graph, dims = build(parts, 3)
    cs = CoordinateSystem(limits=[(-500., 500.)] * 3, periodic=False)
    sequence = [k for c, k in zip(counts, kinds) for _ in range(c)]

    def permute(values):
        if set(values) != set(graph.nodes):
            return values
        left = list(values)
        res = []
        for d in sequence:
            p = [q for q in left if dims[q] == d][0]
            left.remove(p)
            res.append(p)
        return res

    n = len(sequence)
    with chance(order=permute, subset=lambda values, k: permute(values)[:k]), \
            warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = calculate_dimension(graph=graph, feature_size=1., coordinate_system=cs, min_pos_evaluations=minimum)
    warned = any(issubclass(w.category, UserWarning) for w in caught)

    def two_thirds(d, i):
        return 3 * sequence[:i].count(d) >= 2 * i

    if res is None:
        ctx.check('undetermined only without majority',
                  not any(two_thirds(d, i) for d in range(4) for i in range(min(n, minimum), n + 1)))
        ctx.check('warning if undetermined', warned)
        ctx.reach('undetermined')
    else:
        ctx.check('majority', any(two_thirds(res, i) for i in range(min(n, minimum), n + 1)))
        ctx.check('no warning', not warned)
        ctx.reach('dimension')
        if not two_thirds(res, n):
            ctx.reach('found early')


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=majority, need=('dimension', ), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    every = list(PARTS)
    both = ['dimension', 'undetermined']
    add('one part', parts=every, count=1, need=both)
    add('two small parts', parts=['single', 'pair', 'path', 'triangle'], count=2, need=both + ['found early'], weight=5)
    add('three small parts', parts=['single', 'pair'], count=3, need=both + ['found early'], weight=5)
    add('two parts, default minimum', parts=every, count=2, minimum='default', need=both, weight=9)
    add('two parts, all evaluated', parts=every, count=2, minimum=None, need=both, weight=5)
    for coords in (1, 2):
        add('{} coordinates'.format(coords), parts=['single', 'pair', 'path', 'triangle'][:coords + 2], count=2,
            coords=coords)
    for max_dim in (1, 2):
        add('maximum {}'.format(max_dim), parts=['single', 'pair', 'path', 'tetrahedron'], count=2, max_dim=max_dim,
            minimum='default')
    add('any proportion', fraction, need=['exactly two thirds'], maximum=16)
    for minimum in (3, 8):
        add('blocks, minimum {}'.format(minimum), blocks, kinds=[0, 1, 2, 0], top=6, minimum=minimum,
            need=['dimension', 'found early'] + ['undetermined'] * (minimum == 8))
    add('long blocks', blocks, kinds=[1, 0, 1], top=14, minimum=12, need=both + ['found early'])
    add('many positions', blocks, kinds=[0, 1, 0, 1], top=None, counts=[(20, 23), (38, 52), (10, 13), (30, 42)], minimum=110,
        need=both)
    add('many positions, early', blocks, kinds=[1, 0, 1], top=None, counts=[(31, 36), (62, 66), (70, 80)], minimum=20,
        need=['dimension', 'found early'])
    if deep:
        add('two parts', parts=['single', 'pair', 'path', 'triangle', 'star', 'tetrahedron'], count=2,
            need=both + ['found early'], weight=90)
        add('three parts', parts=['single', 'pair', 'path', 'triangle'], count=3, minimum='default', need=both,
            weight=90)
        add('any proportion, many', fraction, need=['exactly two thirds'], maximum=40, weight=90)
    return res + sequences(res,
        ['maximum 1', '1 coordinates'],
        ['maximum 2', 'maximum 1'],
    )
