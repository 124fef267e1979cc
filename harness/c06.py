"""C06: search results are classified correctly and never lost."""

import numpy as np

from symx.case import Case
from .common import box, point, equivalent, spread, sequences

ASSUMPTIONS = ['up to three results; the container treats results independently of each other']


def make(ctx, i, pos, value, success, joined=False):
    from nodefinder.search.result import MinimizationResult, JoinedMinimizationResult
    if i % 2 == 0 and isinstance(success, bool):
        success = np.bool_(success)  # as in results which have been loaded
    common = dict(status=0 if success else 1, message='m', num_iter=1)
    if joined:
        return JoinedMinimizationResult(
            ancestor=MinimizationResult(pos=pos + 0.125, value=value - 1, success=True, num_fev=1, **common),
            child=MinimizationResult(pos=pos, value=value, success=success, num_fev=100 + i, **common)
        )
    return MinimizationResult(pos=pos, value=value, success=success, num_fev=100 + i, **common)


def ident(res):
    return (res.child.num_fev if hasattr(res, 'child') else res.num_fev) - 100


def check_container(ctx, label, container, data, threshold, limits, periodic):
    """data: [(pos, value, success)]"""
    every = [ident(r) for r in container.minimization_results]
    ctx.check(label + ': each result exactly once', sorted(every) == list(range(len(data))))
    nodes = [ident(r) for r in container.nodes]
    rejected = [ident(r) for r in container.rejected_results]
    ctx.check(label + ': number of nodes', len(container.nodes) == len(nodes))
    ctx.check(label + ': nodes and rejected ones', sorted(nodes + rejected) == list(range(len(data))))
    for i, (pos, value, success) in enumerate(data):
        is_node = bool(success) and (value <= threshold)
        if i in nodes:
            ctx.check(label + ': node', is_node)
        else:
            ctx.check(label + ': rejected', ctx.not_(is_node))
    for r in container.minimization_results:
        pos = data[ident(r)][0]
        ctx.check(label + ': value', ctx.close(r.value, data[ident(r)][1]))
        ctx.check(label + ': position', equivalent(ctx, pos, r.pos, limits, periodic))
        if periodic:
            for x, (lo, hi) in zip(r.pos, limits):
                ctx.check(label + ': position in the box', ctx.all([ctx.le(lo, x), ctx.le(x, hi)]))


def added(ctx, limits, periodic, count, reach, joined=False, value=None):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = box(ctx, len(limits), kind=limits) if limits != 'sym' else box(ctx, 1, kind='sym')
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    threshold = ctx.real('threshold', -1, 2)
    cutoff = 0.3
    data, results = [], []
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=threshold, dist_cutoff=cutoff)
    for i in range(count):
        pos = point(ctx, 'p{}_'.format(i), limits, reach)
        val = ctx.real('value{}'.format(i), -3, 3) if value is None else value
        success = ctx.boolean('success{}'.format(i))
        data.append((ctx.array(list(pos)), val, success))
        results.append(make(ctx, i, pos, val, success, joined))
        container.needs_saving = False
        container.add_result(results[-1])
        ctx.check('needs saving', bool(container.needs_saving))
        check_container(ctx, 'added', container, data, threshold, limits, periodic)
    # given on construction, with another threshold and cutoff
    threshold2 = ctx.real('threshold2', -1, 2)
    again = SearchResultContainer(
        coordinate_system=cs, gap_threshold=threshold2, dist_cutoff=0.55,
        minimization_results=container.minimization_results
    )
    check_container(ctx, 'constructed', again, data, threshold2, limits, periodic)
    ctx.check('new container needs saving', bool(again.needs_saving))


def larger(ctx, limits, periodic, count):
    """Many results, most of them constant."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = box(ctx, len(limits), kind=limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    threshold = ctx.real('threshold', -1, 2)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=threshold, dist_cutoff=0.3)
    data, results = [], []
    for i in range(count):
        pos = ctx.array(spread(i // 2, len(limits), limits, 1.))  # each position twice
        val = (i * 0.37) % 4 - 2
        success = i % 4 != 1
        if i == count // 2:
            val, success = ctx.real('value', -3, 3), ctx.boolean('success')
        data.append((pos, val, success))
        results.append(make(ctx, i, ctx.array([x for x in pos]), val, success, joined=i % 3 == 2))
        container.needs_saving = False
        container.add_result(results[-1])
        ctx.check('needs saving', bool(container.needs_saving))
    check_container(ctx, 'added', container, data, threshold, limits, periodic)
    threshold2 = ctx.real('threshold2', -1, 2)
    again = SearchResultContainer(
        coordinate_system=cs, gap_threshold=threshold2, dist_cutoff=0.55,
        minimization_results=container.minimization_results
    )
    check_container(ctx, 'constructed', again, data, threshold2, limits, periodic)


def refined(ctx, limits, periodic, reach):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    limits = box(ctx, len(limits), kind=limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1., dist_cutoff=0.3)
    positions = [point(ctx, 'r{}_'.format(i), limits, reach) for i in range(2)]
    for k, pos in enumerate(positions):
        container.needs_saving = False
        container.set_refined(pos)
        ctx.check('needs saving', bool(container.needs_saving))
        stored = list(container.refined_results)
        ctx.check('number of refined positions', len(stored) == k + 1 == len(container.refined_results))
        for a, b in zip(stored, positions):
            ctx.check('refined position', ctx.close(a, b))
        ctx.check('no results', len(container.minimization_results) == 0 and len(container.nodes) == 0)
    again = SearchResultContainer(
        coordinate_system=cs, gap_threshold=1., dist_cutoff=0.55, refined_results=container.refined_results
    )
    ctx.check('constructed: number of refined positions', len(again.refined_results) == 2)
    for a, b in zip(again.refined_results, positions):
        ctx.check('constructed: refined position', ctx.close(a, b))


def cases(tier):
    deep = tier == 'thorough'
    res = []
    need = ['added: node', 'added: rejected', 'constructed: node', 'constructed: rejected']
    for periodic in (True, False):
        p = 'periodic ' if periodic else 'open '

        def add(name, fct=added, need=need, **params):
            res.append(Case(p + name, fct, params=dict(periodic=periodic, **params), need=need, budget=600,
                            bounds=', '.join('{}={}'.format(k, v) for k, v in params.items()),
                            weight=params.get('count', 1)))
        add('one, symbolic limits', limits='sym', count=1, reach=1.)
        add('two', limits=[(-1, 1)], count=2, reach=0.)
        add('two joined', limits=[(0, 1)], count=2, reach=0., joined=True)
        add('2D', limits=[(-1, 1), (0, 2)], count=1, reach=0.5)
        add('3D', limits=[(-1, 1), (0, 2), (0, 1)], count=1, reach=0.)
        add('infinite', limits=[(-1, 1)], count=1, reach=0., value=float('inf'),
            need=['added: rejected', 'constructed: rejected'])
        add('minus infinite', limits=[(-1, 1)], count=1, reach=0., value=float('-inf'))
        add('refined', fct=refined, need=['refined position'], limits=[(0, 1)], reach=0.5)
        add('refined 2D', fct=refined, need=['refined position'], limits=[(0, 1), (-1, 1)], reach=0.)
        add('twelve', fct=larger, limits=[(0, 1)], count=12)
        add('fifteen 2D', fct=larger, limits=[(0, 1), (-3, -1)], count=15)
        add('six 4D', fct=larger, limits=[(0, 1), (-3, -1), (0, 2), (0, 1)], count=6)
        if deep:
            add('three', limits=[(0, 1)], count=3, reach=0.)
            add('two far', limits=[(0, 1)], count=2, reach=2.)
    return res + sequences(res,
        ['open infinite', 'periodic minus infinite', 'open six 4D'],
        ['periodic six 4D', 'open refined'],
    )
