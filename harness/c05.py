"""C05: neighbour queries report exactly what lies within the cutoff."""

import itertools

import numpy as np

from symx.case import Case
from .common import box, point, ref_distance, spread

ASSUMPTIONS = ['one or two stored entries; a cell list treats entries independently of each other']


def make_result(pos, value=0.):
    from nodefinder.search.result import MinimizationResult
    return MinimizationResult(pos=pos, value=value, success=True, status=0, message='', num_fev=1, num_iter=1)


def check_reported(ctx, label, reported, entries, dists, cutoff, query, exclude_same):
    """`reported` are distances of distinct entries, all others are beyond the cutoff."""
    reported = list(reported)
    ctx.check(label + ': not more than stored', len(reported) <= len(entries))
    options = []
    for mapped in itertools.permutations(range(len(entries)), len(reported)):
        conds = [ctx.close(r, dists[k]) for r, k in zip(reported, mapped)]
        for k, e in enumerate(entries):
            if k not in mapped:
                missing = ctx.le(cutoff, dists[k])
                if exclude_same:
                    missing = ctx.any([missing, ctx.all([a == b for a, b in zip(e, query)])])
                conds.append(missing)
        options.append(ctx.all(conds))
    ctx.check(label, ctx.any(options))
    ctx.count_reported = len(reported)
    if reported:
        ctx.reach('reported')
    else:
        ctx.reach('nothing reported')


def query(ctx, limits, periodic, cutoff, count, reach, node_reach, window=None, method='all'):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    dim = len(limits)
    if isinstance(cutoff, str):
        size = limits[0][1] - limits[0][0]
        lo, hi = {'sym': (size / 4.5, 1.75 * size), 'deep': (size / 8.5, 2.25 * size)}[cutoff]
        cutoff = ctx.real('cutoff', lo, hi)
    limits = [tuple(float(v) for v in x) for x in limits]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    nodes = []
    for i in range(count):
        if window is None:
            nodes.append(point(ctx, 'n{}_'.format(i), limits, node_reach))
        else:
            nodes.append(ctx.array([ctx.real('n{}_{}'.format(i, j), *window[0][j]) for j in range(dim)]))
    if window is None:
        pos = point(ctx, 'q', limits, reach)
    else:
        pos = ctx.array([ctx.real('q{}'.format(j), *window[1][j]) for j in range(dim)])
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    results = [make_result(n) for n in nodes]
    if method == 'refined':
        for n in nodes:
            container.set_refined(n)
        dists = [ref_distance(ctx, n, pos, limits, periodic) for n in nodes]
        check_reported(
            ctx, 'refined', container.get_refined_neighbour_distance_iterator(pos), nodes, dists, cutoff, pos, False
        )
        # nodes and refined positions are separate
        ctx.check('no nodes', len(list(container.get_neighbour_distance_iterator(pos))) == 0)
        return
    for r in results:
        container.add_result(r)
    stored = [r.pos for r in results]
    dists = [ref_distance(ctx, n, pos, limits, periodic) for n in nodes]
    check_reported(ctx, 'iterator', container.get_neighbour_distance_iterator(pos), stored, dists, cutoff, pos, True)
    if method == 'both':
        check_reported(ctx, 'all', container.get_all_neighbour_distances(pos), stored, dists, cutoff, pos, True)
        ctx.check('no refined', len(list(container.get_refined_neighbour_distance_iterator(pos))) == 0)


def same_position(ctx, limits, periodic, cutoff):
    """The node at exactly the query position is not its own neighbour."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = [tuple(float(v) for v in x) for x in limits]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    a = point(ctx, 'a', limits, 0.5 if len(limits) == 1 else 0.)
    b = point(ctx, 'b', limits, 0.)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    ra, rb = make_result(a), make_result(b)
    container.add_result(ra)
    container.add_result(rb)
    d = ref_distance(ctx, a, b, limits, periodic)
    same = ctx.all([x == y for x, y in zip(ra.pos, rb.pos)])
    for name, found in (
        ('iterator', list(container.get_neighbour_distance_iterator(ra.pos))),
        ('all', list(container.get_all_neighbour_distances(ra.pos)))
    ):
        ctx.check('not its own neighbour ' + name, len(found) <= 1)
        if len(found) == 1:
            ctx.check('distance ' + name, ctx.close(found[0], d))
            ctx.check('not at the same position ' + name, ctx.not_(same))
        else:
            ctx.check('missing one is far or at the same position ' + name, ctx.any([ctx.le(cutoff, d), same]))


def constructed(ctx, limits, periodic, cutoff):
    """Entries given on construction are found like added ones."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = [tuple(float(v) for v in x) for x in limits]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    node, refined = point(ctx, 'n', limits, 0.5), point(ctx, 'r', limits, 0.5)
    pos = point(ctx, 'q', limits, 0.)
    container = SearchResultContainer(
        coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff, minimization_results=[make_result(node)],
        refined_results=[refined]
    )
    stored = [r.pos for r in container.nodes]
    check_reported(
        ctx, 'constructed node', container.get_neighbour_distance_iterator(pos), stored,
        [ref_distance(ctx, node, pos, limits, periodic)], cutoff, pos, True
    )
    check_reported(
        ctx, 'constructed refined', container.get_refined_neighbour_distance_iterator(pos), [refined],
        [ref_distance(ctx, refined, pos, limits, periodic)], cutoff, pos, False
    )


def reported_exactly(ctx, label, reported, entries, dists, cutoff, query=None):
    """As check_reported, for any number of entries; entries at exactly the position `query` need not be reported."""
    reported = list(reported)
    ctx.check(label + ': not more than stored', len(reported) <= len(dists))
    for r in reported:
        ctx.check(label + ': distance of an entry', ctx.any([ctx.close(r, d) for d in dists]))
    for d in dists:
        # entries at the same distance
        ctx.check(label + ': at most once', ctx.count([ctx.close(r, d, 1e-8) for r in reported]) <=
                  ctx.count([ctx.close(d, e, 3e-8) for e in dists]))
        near = [ctx.all([ctx.close(d, e, 1e-8), e < cutoff - 1e-9] + (
            [] if query is None else [ctx.any([x != y for x, y in zip(pos, query)])]
        )) for pos, e in zip(entries, dists)]
        ctx.check(label, ctx.count(near) <= ctx.count([ctx.close(r, d, 3e-8) for r in reported]))
    ctx.reach('reported' if reported else 'nothing reported')


def larger(ctx, limits, periodic, cutoff, count, free, refined, node_reach=0.):
    """Many constant entries and one with a symbolic component, added one after another."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = [tuple(float(v) for v in x) for x in limits]
    dim = len(limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    entries = [ctx.array(spread(i, dim, limits, node_reach)) for i in range(count)]
    entries.insert(count // 3, ctx.array([
        ctx.real('n', lo, lo + (hi - lo) / 4) if not j else lo + (hi - lo) * 0.4 for j, (lo, hi) in enumerate(limits)
    ]))
    pos = ctx.array([ctx.real('q{}'.format(j), *x) if isinstance(x, tuple) else float(x) for j, x in enumerate(free)])
    stored = []
    for e in entries:
        if refined:
            container.set_refined(e)
        else:
            result = make_result(e)
            container.add_result(result)
            stored.append(result.pos)
    dists = [ref_distance(ctx, e, pos, limits, periodic) for e in entries]
    if refined:
        found = container.get_refined_neighbour_distance_iterator(pos)
        reported_exactly(ctx, 'refined', found, entries, dists, cutoff)
    else:
        found = container.get_neighbour_distance_iterator(pos)
        reported_exactly(ctx, 'neighbours', found, stored, dists, cutoff, pos)
        found = container.get_all_neighbour_distances(pos)
        reported_exactly(ctx, 'all neighbours', found, stored, dists, cutoff, pos)


def again(ctx, limits, periodic, cutoff, free):
    """The same queries before and after entries are added."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = [tuple(float(v) for v in x) for x in limits]
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    pos = ctx.array([ctx.real('q{}'.format(j), *x) if isinstance(x, tuple) else float(x) for j, x in enumerate(free)])
    nodes, stored, refined = [], [], []

    def query_all(label):
        dists = [ref_distance(ctx, e, pos, limits, periodic) for e in nodes]
        found = container.get_neighbour_distance_iterator(pos)
        reported_exactly(ctx, label, found, stored, dists, cutoff, pos)
        found = container.get_all_neighbour_distances(pos)
        reported_exactly(ctx, label + ', all', found, stored, dists, cutoff, pos)
        dists = [ref_distance(ctx, e, pos, limits, periodic) for e in refined]
        found = container.get_refined_neighbour_distance_iterator(pos)
        reported_exactly(ctx, label + ', refined', found, refined, dists, cutoff)

    query_all('empty')
    started = container.get_neighbour_distance_iterator(pos)
    for k in range(2):
        nodes.append(ctx.array([
            ctx.real('n{}'.format(k), lo, hi) if not j else x
            for j, (x, (lo, hi)) in enumerate(zip(spread(k, len(limits), limits), limits))
        ]))
        result = make_result(nodes[-1])
        container.add_result(result)
        stored.append(result.pos)
        # a rejected one does not count
        container.add_result(make_result(ctx.array([x for x in pos]) + 0.01, value=1.))
        query_all('node {}'.format(k))
        refined.append(ctx.array(spread(k + 2, len(limits), limits)))
        container.set_refined(refined[-1])
        query_all('refined {}'.format(k))
    ctx.check('earlier iterator', len(list(started)) <= 2)


def everywhere(ctx, limits, periodic, cutoff, count, queries, window):
    """Many cells: constant entries, one with a symbolic component, and queries all over the box, one after another."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = [tuple(float(v) for v in x) for x in limits]
    dim = len(limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
    nodes = [ctx.array(spread(i, dim, limits)) for i in range(count)]
    refined = [ctx.array(spread(i + count, dim, limits)) for i in range(count)]
    special = [ctx.real('n', *x) if isinstance(x, tuple) else float(x) for x in window]
    nodes.insert(count // 2, ctx.array(list(special)))
    refined.insert(count // 3, ctx.array(list(special)))
    stored = []
    for e in nodes:
        result = make_result(e)
        container.add_result(result)
        stored.append(result.pos)
    for e in refined:
        container.set_refined(e)
    at = [0.5 * sum(x) if isinstance(x, tuple) else x for x in window]
    width = max(x[1] - x[0] for x in window if isinstance(x, tuple))

    def check(label, found, entries, values, pos, query):
        # constant entries which are too far away, and the symbolic one if it is: not reported, or with their distance
        plain = [ref_distance(ctx, at if k is None else e, pos, limits, periodic) for k, e in zip(values, entries)]
        reach = [1.01 * cutoff + (width if k is None else 0.) for k in values]
        near = [i for i, (d, r) in enumerate(zip(plain, reach)) if d < r]
        dists = {i: ref_distance(ctx, entries[i], pos, limits, periodic) for i in near if values[i] is None}
        far = {i for i in range(len(plain)) if i not in near}
        kept = []
        for d in found:
            number = isinstance(d, (float, np.floating))
            hits = [i for i in far if number and values[i] is not None and abs(d - plain[i]) < 1e-8] or [
                i for i in far if values[i] is None and
                ctx.is_true(ctx.close(d, ref_distance(ctx, entries[i], pos, limits, periodic)))
            ]
            if hits:
                far.remove(hits[0])
            else:
                kept.append(d)
        reported_exactly(ctx, label, kept, [entries[i] for i in near], [dists.get(i, plain[i]) for i in near], cutoff, query)

    for i in range(queries):
        pos = spread(i + 2 * count, dim, limits, 0.05)
        if i % (5 if dim != 2 else 20) == 2:
            # some of the components of the special one
            pos = [x if (i // 5 + j) % dim else y for j, (x, y) in enumerate(zip(pos, at))]
        elif i in (1, queries // 2, queries - 1):
            # close to it, in the direction in which it is symbolic
            pos = [y + (0.6 * cutoff * (1 if i == 1 else -1) if isinstance(x, tuple) else 0.) for x, y in zip(window, at)]
        pos = ctx.array([float(x) for x in pos])
        which = [None if e is nodes[count // 2] else 0 for e in nodes]
        found = container.get_neighbour_distance_iterator(pos)
        check('everywhere', list(found), stored, which, pos, pos)
        which = [None if e is refined[count // 3] else 0 for e in refined]
        found = container.get_refined_neighbour_distance_iterator(pos)
        check('everywhere, refined', list(found), refined, which, pos, None)


def several(ctx, boxes, free):
    """Containers divided in different ways, used alternately."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    used = []
    for k, (limits, periodic, cutoff) in enumerate(boxes):
        limits = [tuple(float(v) for v in x) for x in limits]
        cs = CoordinateSystem(limits=limits, periodic=periodic)
        container = SearchResultContainer(coordinate_system=cs, gap_threshold=0.1, dist_cutoff=cutoff)
        dim = len(limits)
        node = ctx.array([lo + (hi - lo) * 0.97 for lo, hi in limits])
        result = make_result(node)
        container.add_result(result)
        refined = ctx.array([lo + (hi - lo) * 0.04 for lo, hi in limits])
        container.set_refined(refined)
        pos = ctx.array([ctx.real('q{}'.format(k), *free) if j == 0 else hi - 0.1 * cutoff
                         for j, (lo, hi) in enumerate(limits)])
        used.append((limits, periodic, cutoff, container, result, node, refined, pos))
        for limits, periodic, cutoff, container, result, node, refined, pos in used[::-1]:
            dists = [ref_distance(ctx, node, pos, limits, periodic)]
            for found in (container.get_neighbour_distance_iterator(pos), container.get_all_neighbour_distances(pos)):
                reported_exactly(ctx, 'one of several', found, [result.pos], dists, cutoff, pos)
            dists = [ref_distance(ctx, refined, pos, limits, periodic)]
            found = container.get_refined_neighbour_distance_iterator(pos)
            reported_exactly(ctx, 'one of several, refined', found, [refined], dists, cutoff)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=query, weight=1, **params):
        need = {query: ['reported']}.get(fct, [])
        res.append(Case(name, fct, params=params, need=need, bounds=', '.join(
            '{}={}'.format(k, v) for k, v in params.items()), weight=weight, budget=800 if deep else 300))

    for periodic in (True, False):
        p = 'periodic ' if periodic else 'open '
        add(p + '1D symbolic cutoff', limits=[(-1, 1)], periodic=periodic, cutoff='deep' if deep else 'sym', count=1,
            reach=1.25 if deep else 0.5, node_reach=0., weight=9, method='both')
        add(p + '1D symbolic cutoff, nodes outside', limits=[(0.5, 1.5)], periodic=periodic, cutoff='sym', count=1,
            reach=0., node_reach=0.5, weight=5)
        add(p + '1D refined, symbolic cutoff', limits=[(0, 1)], periodic=periodic, cutoff='sym', count=1,
            reach=0.5, node_reach=0. if periodic else 0.25, method='refined', weight=6)
        for n, cutoff in (('1', 0.75), ('2', 0.5), ('3', 0.3), ('4', 0.25)):
            add(p + '1D two entries N=' + n, limits=[(0, 1)], periodic=periodic, cutoff=cutoff, count=2,
                reach=0., node_reach=0., weight=4)
        add(p + '1D two refined', limits=[(0, 1)], periodic=periodic, cutoff=0.4, count=2,
            reach=0., node_reach=0., method='refined', weight=4)
        add(p + '1D N=10', limits=[(-1, 0)], periodic=periodic, cutoff=0.1, count=1, reach=0.25, node_reach=0.,
            weight=5)
        # the maximum number of cells
        for cname, cutoff in (('N=100', 0.01), ('capped', 0.003), ('zero', 0.)):
            for wname, window in (
                ('lower edge', ([(0., 0.05)], [(-0.03, 0.06)])),
                ('upper edge', ([(0.95, 1.)], [(0.94, 1.03)])),
                ('across', ([(0.97, 1.)], [(0., 0.03)])),
                ('middle', ([(0.47, 0.51)], [(0.46, 0.52)])),
                ('outside', ([(1.0, 1.04)], [(1.0, 1.05)])),
            ):
                params = dict(limits=[(0, 1)], periodic=periodic, cutoff=cutoff, count=1, reach=0., node_reach=0.,
                              window=window)
                res.append(Case('{}1D {} {}'.format(p, cname, wname), query, params=params, budget=300,
                                need=[], bounds='node and query in {}'.format(window)))
        for limits in ([(0, 1), (0, 1)], [(-1, 1), (0, 0.75)]):
            add(p + '2D {}'.format(limits), limits=limits, periodic=periodic, cutoff=0.4, count=1, reach=0.25,
                node_reach=0., weight=8)
        add(p + '2D one cell', limits=[(0, 1), (0, 1)], periodic=periodic, cutoff=0.7, count=1, reach=0.25,
            node_reach=0., weight=6)
        add(p + '2D refined', limits=[(0, 1), (0, 2)], periodic=periodic, cutoff=0.45, count=1, reach=0.,
            node_reach=0., method='refined', weight=7)
        add(p + '3D', limits=[(0, 1), (0, 0.5), (0, 0.4)], periodic=periodic, cutoff=0.35, count=1, reach=0.,
            node_reach=0., weight=9)
        add(p + '3D refined', limits=[(0, 1), (0, 0.5), (0, 0.4)], periodic=periodic, cutoff=0.55 if periodic and not deep else 0.45, count=1, reach=0.,
            node_reach=0., method='refined', weight=9)
        add(p + '1D same position', fct=same_position, limits=[(0, 1)], periodic=periodic, cutoff=0.4)
        add(p + '2D same position', fct=same_position, limits=[(0, 1), (-1, 1)], periodic=periodic, cutoff=0.8)
        add(p + '1D constructed', fct=constructed, limits=[(0, 1)], periodic=periodic, cutoff=0.4)
        for limits, cutoff, count, free in (
            ([(0, 1)], 0.21, 14, [(0.4, 0.47)]), ([(0, 1)], 0.6, 10, [(0.9, 1.05)]),
            ([(0, 1), (-1, 1)], 0.3, 16, [(0.9, 0.95), -0.9]), ([(0, 1), (-1, 1), (0, 0.5)], 0.4, 10, [0.5, 0.1, (0.44, 0.5)]),
            ([(0, 1), (-1, 1), (0, 0.5), (0, 0.75)], 0.4, 8, [0.5, 0.1, 0.4, (0.55, 0.6)]),
        ):
            for refined in (False, True):
                res.append(Case(
                    '{}{}D {} {}'.format(p, len(limits), count + 1, 'refined' if refined else 'entries'), larger,
                    params=dict(limits=limits, periodic=periodic, cutoff=cutoff, count=count, free=free,
                                refined=refined), need=['reported'], budget=300,
                    bounds='query in {}, {} constant entries and one with a symbolic component'.format(free, count)
                ))
        for limits, cutoff, free in (([(0, 1)], 0.24, [(-0.1, 0.2)]), ([(0, 1), (-1, 1)], 0.45, [0.125, (0.5, 0.75)])):
            res.append(Case('{}{}D repeated queries'.format(p, len(limits)), again, params=dict(
                limits=limits, periodic=periodic, cutoff=cutoff, free=free), budget=300,
                need=['reported', 'nothing reported'],
                bounds='query in {}, up to two nodes with a symbolic component'.format(free)))
        unit = [(0, 1)]
        for name, boxes in (
            ('cutoffs', [(unit, periodic, 0.3), (unit, periodic, 0.1), (unit, periodic, 0.6)]),
            ('boxes', [(unit, periodic, 0.2), ([(0, 3)], periodic, 0.2), ([(-1, 0.5)], not periodic, 0.2)]),
            ('boxes 2D', [(unit * 2, periodic, 0.3), ([(0, 1), (-2, 2)], periodic, 0.4), ([(-1, 1), (0, 1)], not periodic, 0.3)]),
            ('dimensions', [(unit, periodic, 0.3), (unit * 2, periodic, 0.3), (unit * 3, not periodic, 0.4)]),
        ):
            res.append(Case('{}several containers, {}'.format(p, name), several, params=dict(boxes=boxes, free=(-0.05, 0.15)),
                            need=['reported'], budget=300,
                            bounds='first component of the query in [-0.05, 0.15], boxes and cutoffs {}'.format(boxes)))
        for limits, cutoff, count, queries, window in (
            ([(0, 1)], 0.02, 20, 60, [(0.9, 0.91)]),
            ([(0, 1), (-1, 1)], 0.08, 60, 90, [(0.015625, 0.01953125), 0.75]),
            ([(0, 1), (-1, 1), (0, 0.5)], 0.09, 60, 90, [0.97, (0.3, 0.32), 0.02]),
        ):
            res.append(Case('{}{}D everywhere'.format(p, len(limits)), everywhere, params=dict(
                limits=limits, periodic=periodic, cutoff=cutoff, count=count, queries=queries, window=window),
                need=['reported', 'nothing reported'], budget=300, weight=9,
                bounds='{} queries all over the box, one of {} entries has a component in {}'.format(queries, count, window)))
        if deep:
            add(p + '2D two entries', limits=[(0, 1), (0, 1)], periodic=periodic, cutoff=0.45, count=2, reach=0.,
                node_reach=0., weight=20)
            add(p + '2D N=4', limits=[(0, 1), (0, 1)], periodic=periodic, cutoff=0.25, count=1, reach=0.25,
                node_reach=0., weight=20)
            add(p + '3D larger', limits=[(0, 1), (0, 1), (0, 1)], periodic=periodic, cutoff=0.45, count=1, reach=0.25,
                node_reach=0., weight=30)
    return res
