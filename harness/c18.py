"""C18: saving and loading search states preserves them."""

import numpy as np

from symx.case import Case
from . import runs
from .common import box, point, ref_distance, spread, sequences
from .states import same, same_result, same_cs, same_container, same_objects, roundtrip, rows

ASSUMPTIONS = [
    'files behave as given by the contract of h5py (stub in symx/env.py); the validated traces and replays use h5py',
]
MESSAGES = ['Optimization terminated successfully.', '', 'Größe']  # by status


def coordinate_system(ctx, dim, kind, times=1):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = box(ctx, dim, kind=kind)
    if ctx.lazy_bool('swapped'):
        limits = [(b, a) for a, b in limits]
    periodic = ctx.lazy_bool('periodic')
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    new = roundtrip(cs, times)
    same_cs(ctx, 'coordinate system', cs, new)
    p, q = point(ctx, 'p', [(0., 1.)] * dim, 1.), point(ctx, 'q', [(0., 1.)] * dim, 1.)
    if kind == 'unit':
        ctx.check('distance', ctx.close(cs.distance(p, q), new.distance(p, q)))
        ctx.check('position', ctx.close(cs.normalize_position(p), new.normalize_position(p)))


def make_result(ctx, name, dim, steps, history=True, pos=None, value=None, success=None):
    from nodefinder.search.result import MinimizationResult
    if success is None:
        success = ctx.lazy_bool(name + 'success')
    status = 0 if success else 2
    kwargs = {}
    if history:
        kwargs['simplex_history'] = ctx.array([
            [[ctx.real('{}h{}_{}_{}'.format(name, i, j, k), -4, 4) for k in range(dim)] for j in range(dim + 1)]
            for i in range(steps)
        ])
        kwargs['fun_simplex_history'] = ctx.array([
            [ctx.real('{}f{}_{}'.format(name, i, j), -4, 4) for j in range(dim + 1)] for i in range(steps)
        ])
    if pos is None:
        pos = ctx.vec(name + 'pos', dim, -2, 2)
    return MinimizationResult(
        pos=pos, value=ctx.real(name + 'value', -2, 2) if value is None else value, success=success, status=status,
        message=MESSAGES[status], num_fev=3 + len(name), num_iter=1, **kwargs
    )


def make_joined(ctx, name, dim, steps, **kwargs):
    from nodefinder.search.result import JoinedMinimizationResult
    return JoinedMinimizationResult(
        ancestor=make_result(ctx, name + 'anc', dim, steps, success=True),
        child=make_result(ctx, name + 'ch', dim, steps, **kwargs)
    )


def result(ctx, dim, steps, joined=False, history=True, times=1):
    res = (make_joined if joined else make_result)(ctx, 'r', dim, steps, history=history)
    new = roundtrip(res, times)
    same_result(ctx, 'result', res, new)
    if not joined:
        ctx.check('equal', ctx.close(res.pos, new.pos) and res.message == new.message)


def real_result(ctx, dim, fake, maxiter):
    """As given by the minimization"""
    from nodefinder.search._minimization import run_minimization
    f = runs.Function(ctx, -4, 4)

    async def fct(pos):
        return f(pos)

    simplex = [[0.] * dim] + [[0.5 if i == j else 0. for j in range(dim)] for i in range(dim)]
    kwargs = dict(xtol=0.1, ftol=0.1, maxiter=maxiter)
    res = runs.run_loop(run_minimization(
        fct, initial_simplex=ctx.array(simplex), nelder_mead_kwargs=kwargs,
        fake_potential=(lambda pos: 0.) if fake else None
    ))
    new = roundtrip(res)
    same_result(ctx, 'result', res, new)


def make_container(ctx, limits, periodic, count, refined, joined, cutoff=5., symbolic_cutoff=False, reach=0.):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    threshold = ctx.real('threshold', -1, 1)
    if symbolic_cutoff:
        cutoff = ctx.real('cutoff', 0.3, 1.5)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=threshold, dist_cutoff=cutoff)
    for i in range(count):
        pos = point(ctx, 'p{}_'.format(i), limits, reach)
        two = joined and ctx.lazy_bool('joined{}'.format(i))
        container.add_result((make_joined if two else make_result)(
            ctx, 'r{}'.format(i), len(limits), 1, pos=pos, history=two or i == 0
        ))
    for i in range(refined):
        container.set_refined(point(ctx, 'ref{}_'.format(i), limits, 0.))
    return container


def container(ctx, limits, periodic, count, refined, joined=False, neighbours=False, symbolic_cutoff=False, times=1,
              cutoff=5., reach=0.):
    limits = [tuple(float(x) for x in lim) for lim in limits]
    obj = make_container(ctx, limits, periodic, count, refined, joined, cutoff, symbolic_cutoff, reach)
    new = roundtrip(obj, times)
    same_container(ctx, 'container', obj, new)
    if len(obj.nodes) and len(obj.rejected_results):
        ctx.reach('both kinds')
    if neighbours:
        q = point(ctx, 'query', limits, 0.)
        for name in ('get_neighbour_distance_iterator', 'get_refined_neighbour_distance_iterator'):
            x, y = list(getattr(obj, name)(q)), list(getattr(new, name)(q))
            ctx.check(name + ': number', len(x) == len(y))
            for a, b in zip(x, y):
                ctx.check(name, ctx.close(a, b))


def state(ctx, limits, periodic, simplices, positions, pops, results=1, finish=True, times=1):
    from nodefinder.search.result import ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    simplices = [
        [[ctx.real('s{}_{}_{}'.format(i, j, k), -i - j / 4, -i - j / 4 + 0.2) for k in range(dim)]
         for j in range(dim + 1)] for i in range(simplices)
    ]
    positions = [[ctx.real('q{}_{}'.format(i, k), -i, 0.9 - i) for k in range(dim)] for i in range(positions)]
    squeue = SimplexQueue(objects=ctx.array(simplices) if simplices else ())
    pqueue = PositionQueue(objects=ctx.array(positions) if positions else ())
    running = []
    for _ in range(pops):
        if squeue.has_queued:
            running.append(squeue.pop_queued())
    if running and finish and ctx.lazy_bool('finished'):
        k = ctx.choice('which', len(running))
        squeue.set_finished(running.pop(k))
    if pqueue.has_queued and ctx.lazy_bool('pop position'):
        pqueue.pop_queued()
    obj = ControllerState(
        result=make_container(ctx, limits, periodic, results, 1, False), simplex_queue=squeue, position_queue=pqueue
    )
    before = [rows(s) for s in squeue.objects]
    before_pos = [rows(p) for p in pqueue.objects]
    new = roundtrip(obj, times)
    ctx.check('class', type(new) is ControllerState)
    same_container(ctx, 'result', obj.result, new.result)
    same_objects(ctx, 'simplices', before, new.simplex_queue.objects, ordered=False)
    ctx.check('running ones are queued', new.simplex_queue.num_running == 0)
    ctx.check('finished', bool(new.simplex_queue.finished) == (not before))
    ctx.check('queued', bool(new.simplex_queue.has_queued) == bool(before))
    same_objects(ctx, 'positions', before_pos, new.position_queue.objects)
    if running:
        ctx.reach('running')
    # running simplices come first
    if running and before:
        order = [new.simplex_queue.pop_queued() for _ in range(len(running))]
        same_objects(ctx, 'running', running, order, ordered=False)
        left = [new.simplex_queue.pop_queued() for _ in range(len(before) - len(running))]
        same_objects(ctx, 'queued', before[len(running):], left)
    if before_pos:
        same_objects(ctx, 'next position', before_pos[:1], [new.position_queue.pop_queued()])


def larger_container(ctx, limits, periodic, count, refined, steps, times=1):
    """Many results (also joined ones and rejected ones); one position and value are symbolic."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import MinimizationResult, JoinedMinimizationResult, SearchResultContainer
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    obj = SearchResultContainer(coordinate_system=cs, gap_threshold=0.5, dist_cutoff=0.4)

    def create(i, pos, value, history=True):
        kwargs = {}
        if history:
            kwargs['simplex_history'] = ctx.array([
                [spread(20 * i + 4 * j + k, dim, limits) for k in range(dim + 1)] for j in range(steps + i % 3)
            ])
            kwargs['fun_simplex_history'] = ctx.array([
                [(0.3 * i + 0.7 * j + 0.11 * k) % 2 for k in range(dim + 1)] for j in range(steps + i % 3)
            ])
        return MinimizationResult(
            pos=pos, value=value, success=i % 5 != 3, status=i % 3, message=MESSAGES[i % 3] + '!' * i,
            num_fev=10 * i + 3, num_iter=i, **kwargs
        )

    for i in range(count):
        pos, value = ctx.array(spread(i, dim, limits, 0.5)), (0.23 * i) % 1
        if i == count // 2:
            pos = ctx.array([ctx.real('p', *limits[0])] + spread(i, dim, limits)[1:])
            value = ctx.real('value', 0, 1)
        res = create(i, pos, value, i % 4 != 2 or i % 3 == 1)
        if i % 3 == 1:
            res = JoinedMinimizationResult(ancestor=create(count + i, ctx.array(spread(i + 1, dim, limits)), 0.7),
                                           child=res)
        obj.add_result(res)
    for i in range(refined):
        obj.set_refined(ctx.array(spread(3 * i, dim, limits)))
    new = roundtrip(obj, times)
    same_container(ctx, 'container', obj, new)
    ctx.check('number', len(new.minimization_results) == count)
    query = ctx.array([(lo + hi) / 2 for lo, hi in limits])
    for name in ('get_neighbour_distance_iterator', 'get_refined_neighbour_distance_iterator'):
        x, y = list(getattr(obj, name)(query)), list(getattr(new, name)(query))
        ctx.check(name + ': number', len(x) == len(y))
        for a in x:
            ctx.check(name, ctx.any([ctx.close(a, b) for b in y]))
        ctx.reach('neighbours' if x else 'no neighbours')


def larger_state(ctx, dim, simplices, positions, pops, finished, times=1):
    """Many simplices and positions, one of each with a symbolic component; some are running"""
    from nodefinder.search.result import ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    limits = [(0., 1.)] * dim
    simps = [[spread(5 * i + j, dim, limits) for j in range(dim + 1)] for i in range(simplices)]
    simps[ctx.choice('which simplex', simplices)][0][dim - 1] = ctx.real('s', 2, 3)
    posis = [spread(i, dim, limits) for i in range(positions)]
    posis[positions // 2][0] = ctx.real('q', 2, 3)
    squeue = SimplexQueue(objects=simps)
    pqueue = PositionQueue(objects=posis)
    running = [squeue.pop_queued() for _ in range(pops)]
    for k in range(finished):
        squeue.set_finished(running.pop((2 * k) % len(running)))
    pqueue.pop_queued()
    obj = ControllerState(result=make_container(ctx, limits, True, 0, 0, False), simplex_queue=squeue,
                          position_queue=pqueue)
    before, before_pos = [rows(s) for s in squeue.objects], [rows(p) for p in pqueue.objects]
    new = roundtrip(obj, times)
    same_objects(ctx, 'simplices', before, new.simplex_queue.objects, ordered=False)
    same_objects(ctx, 'positions', before_pos, new.position_queue.objects)
    ctx.check('not finished', not new.simplex_queue.finished)
    order = [new.simplex_queue.pop_queued() for _ in before]
    same_objects(ctx, 'running', running, order[:len(running)], ordered=False)
    same_objects(ctx, 'queued', before[len(running):], order[len(running):])
    ctx.check('all handed out', not new.simplex_queue.has_queued)
    order = [new.position_queue.pop_queued() for _ in before_pos]
    same_objects(ctx, 'next positions', before_pos, order)


def from_search(ctx, dim):
    """The state of an actual search: saved by the search itself, and its result."""
    import os
    from nodefinder import io
    from .common import scratch
    f = runs.Function(ctx, 0, 1)
    with scratch() as path:
        name = os.path.join(path, 'state.hdf5')
        res = runs.search(
            ctx, f, limits=[(0., 1.)] * dim, initial_mesh_size=2 if dim == 1 else 1, feature_size=1.2,
            gap_threshold=0.5, refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT, save_file=name,
        )
        loaded = io.load(name)
    same_container(ctx, 'saved', res, loaded.result)
    same_container(ctx, 'saved explicitly', res, roundtrip(res))
    ctx.check('queue', bool(loaded.simplex_queue.finished))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    unit = [(0, 1)]
    for dim in (1, 2, 3):
        add('coordinate system {}D'.format(dim), coordinate_system, dim=dim, kind='sym')
    add('coordinate system, use', coordinate_system, dim=1, kind='unit')
    for dim in (1, 2, 3):
        for joined in (False, True):
            add('{}result {}D'.format('joined ' if joined else '', dim), result, dim=dim, steps=2, joined=joined)
    add('result without history', result, dim=2, steps=0, history=False)
    add('result with one step', result, dim=2, steps=1, times=2)
    add('joined result with one step', result, dim=1, steps=1, joined=True, times=2)
    for fake in (False, True):
        add('minimization{}'.format(' with fake potential' if fake else ''), real_result, dim=1, fake=fake,
            maxiter=2 if fake else 3, weight=5)
    for periodic in (True, False):
        add('container {}'.format('periodic' if periodic else 'open'), container, need=['both kinds'], limits=unit,
            periodic=periodic, count=2, refined=1, joined=periodic, cutoff=0.9, reach=0.25, weight=5)
    add('empty container', container, limits=unit * 2, periodic=True, count=0, refined=0)
    add('container, only refined', container, limits=unit * 2, periodic=True, count=0, refined=2)
    add('container 3D', container, limits=[(0, 1), (-1, 1), (2, 2.5)], periodic=True, count=1, refined=1)
    add('container, neighbours', container, limits=unit, periodic=True, count=1, refined=1, neighbours=True,
        cutoff=0.45, weight=9)
    add('container, cutoff', container, limits=unit, periodic=False, count=1, refined=0, symbolic_cutoff=True, weight=9)
    add('container saved twice', container, need=['both kinds'], limits=unit, periodic=False, count=2, refined=2,
        times=2, weight=3)
    add('state', state, need=['running'], limits=unit, periodic=True, simplices=3, positions=2, pops=2, results=0,
        weight=5)
    add('state 2D', state, need=['running'], limits=unit * 2, periodic=False, simplices=1, positions=1, pops=1, weight=5)
    add('state, empty queues', state, limits=unit, periodic=True, simplices=0, positions=0, pops=0, results=2)
    add('state, one position', state, limits=unit * 2, periodic=True, simplices=0, positions=1, pops=0, results=0)
    add('state saved twice', state, need=['running'], limits=unit, periodic=True, simplices=2, positions=1, pops=1,
        results=0, times=2)
    add('search 1D', from_search, dim=1, weight=5)
    add('search 2D', from_search, dim=2, weight=5)
    add('coordinate system 4D', coordinate_system, dim=4, kind='sym')
    for joined in (False, True):
        add('{}result 4D'.format('joined ' if joined else ''), result, dim=4, steps=2, joined=joined)
        add('{}result, long history'.format('joined ' if joined else ''), result, dim=2, steps=12, joined=joined)
        add('{}result, very long history'.format('joined ' if joined else ''), result, dim=1, steps=150, joined=joined, weight=5)
    for dim, count, refined, steps in ((1, 12, 11, 3), (2, 9, 6, 10), (3, 7, 3, 2), (4, 5, 2, 2)):
        for periodic in (True, False):
            add('container {}D of {}, {}'.format(dim, count, 'periodic' if periodic else 'open'), larger_container,
                limits=[(0, 1), (-1, 1), (0, 0.5), (2, 3)][:dim], periodic=periodic, count=count, refined=refined,
                steps=steps, times=1 + (dim == 2), need=['neighbours'] if dim < 3 else [], weight=3)
    for dim, simplices, positions, pops, finished in ((1, 12, 11, 7, 2), (2, 11, 5, 3, 0), (3, 6, 12, 4, 3), (4, 6, 3, 5, 2)):
        add('state {}D, {} simplices'.format(dim, simplices), larger_state, dim=dim, simplices=simplices,
            positions=positions, pops=pops, finished=finished, times=1 + (dim == 1), weight=3)
    if deep:
        for dim in (1, 2):
            for fake in (False, True):
                add('long minimization {}D{}'.format(dim, ' with fake potential' if fake else ''), real_result, dim=dim,
                    fake=fake, maxiter=3 if fake else 4, weight=50)
        add('container of three', container, need=['both kinds'], limits=unit, periodic=True, count=3, refined=2,
            joined=True, weight=50)
        add('container 2D, neighbours', container, limits=unit * 2, periodic=True, count=2, refined=1, neighbours=True,
            weight=50)
        add('large state', state, need=['running'], limits=unit, periodic=True, simplices=4, positions=2, pops=3,
            results=1, weight=50)
    return res + sequences(res,
        ['container 3D of 7, open', 'empty container', 'result 2D', 'joined result 1D',
         'container 3D of 7, periodic'],
        ['joined result with one step', 'result 3D', 'result without history', 'joined result 2D'],
    )
