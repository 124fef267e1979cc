"""C29: what is handed in stays unchanged."""

import os
import warnings

import numpy as np

from symx.case import Case
from . import runs
from .c25 import Axes, make_line
from .chance import chance
from .common import point, scratch, spread
from .searching import Few, make_state

ASSUMPTIONS = [
    'the position of a result is mapped into the box when it is added to a container (C06), so results start inside',
    'plots are observed on an axes object which records scatter and plot calls',
]
KEYS = ('pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter', 'simplex_history',
        'fun_simplex_history')


class Snapshot:
    """The content of some objects, to be compared with what it is later on."""

    def __init__(self, ctx, **objects):
        self.ctx = ctx
        self.objects = objects
        self.content = {k: content(v) for k, v in objects.items()}

    def check(self):
        for key, obj in self.objects.items():
            equal(self.ctx, key + ' is unchanged', self.content[key], content(obj))


def content(obj):
    """Lists, names and numbers an object consists of"""
    if hasattr(obj, 'simplex_queue'):
        return [content(obj.result), content(obj.simplex_queue), content(obj.position_queue)]
    if hasattr(obj, 'ancestor'):
        return [content(obj.ancestor), content(obj.child), content(obj.pos)]
    if hasattr(obj, 'rejected_results'):
        return [[content(x) for x in part] for part in (
            obj.nodes, obj.rejected_results, obj.minimization_results, obj.refined_results
        )] + [content(obj.coordinate_system), obj.gap_threshold, obj.dist_cutoff]
    if hasattr(obj, 'num_fev'):
        return [content(getattr(obj, k)) for k in KEYS if hasattr(obj, k)]
    if hasattr(obj, 'has_queued'):
        return [content(obj.objects), bool(obj.has_queued)]
    if hasattr(obj, 'periodic'):
        return [content(obj.limits), bool(obj.periodic), content(obj.size)]
    if hasattr(obj, 'feature_size'):
        return [content(obj.coordinate_system), obj.feature_size, [content(x) for x in obj]]
    if hasattr(obj, 'dimension'):
        return [content(obj.positions), obj.dimension, content(obj.shape)]
    if hasattr(obj, 'degree_count'):
        return [content(sorted(obj.degree_count.items())), content(obj.graph)]
    if hasattr(obj, 'adjacency'):
        names = list(obj.nodes)
        return [content(names), [
            (names.index(a), names.index(b), content(sorted(d.items()))) for a, b, d in obj.edges(data=True)
        ]]
    if hasattr(obj, 'position'):
        return [content(obj.position)]
    if isinstance(obj, np.ndarray):
        return ['array', str(obj.dtype.kind).replace('O', 'f'), list(obj.shape), [x for x in obj.ravel()]]
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [content(x) for x in obj]
    if hasattr(obj, 'items'):
        return [type(obj).__name__] + [[k, content(v)] for k, v in obj.items()]
    return obj


def equal(ctx, label, a, b):
    if isinstance(a, (list, tuple)):
        ctx.check(label, isinstance(b, (list, tuple)) and len(a) == len(b))
        for x, y in zip(a, b):
            equal(ctx, label, x, y)
    elif a is None or isinstance(a, (str, bool)):
        ctx.check(label, a is b or a == b)
    else:
        ctx.check(label, a == b)


def coordinates(ctx, dim, periodic):
    from nodefinder.coordinate_system import CoordinateSystem
    limits = [[-1.5, 1.25 + k][::-1 if k else 1] for k in range(dim)]
    if dim == 1:
        limits = [[ctx.real('lower', -2, -1), ctx.real('upper', 1, 2)]]
    box = [(x[0], x[1]) if k == 0 else (x[1], x[0]) for k, x in enumerate(limits)]
    p = point(ctx, 'p', box)
    q = point(ctx, 'q', box) if dim == 1 else ctx.array([0.4, 2.5, -7.][:dim])
    frac = ctx.array([ctx.real('f{}'.format(k), -2, 2) for k in range(dim)])
    many = ctx.array([[x for x in p], [x + 1 for x in q]])
    several = [ctx.array([x for x in p]), ctx.array([x for x in q])]
    given = Snapshot(ctx, limits=limits, first=p, second=q, fraction=frac, many=many, several=several)
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    whole = Snapshot(ctx, system=cs)
    for name, args in (
        ('distance', (p, q)), ('distance', (p, many)), ('connecting_vector', (p, q)), ('connecting_vector', (p, many)),
        ('get_frac', (p, )), ('get_frac', (many, )), ('get_pos', (frac, )), ('normalize_position', (p, )),
        ('normalize_position', (many, )), ('average', (several, ))
    ):
        first = content(getattr(cs, name)(*args))
        given.check()
        whole.check()
        again = getattr(cs, name)(*args)
        equal(ctx, 'same result of ' + name, first, content(again))
    ctx.reach('done')


def make_result(ctx, i, pos, value):
    from nodefinder.search.result import MinimizationResult
    dim = len(pos)
    simplex = [[x for x in pos]] + [[x + 0.01 * (j == k) for j, x in enumerate(pos)] for k in range(dim)]
    return MinimizationResult(
        pos=ctx.array([x for x in pos]), value=value, success=i % 3 != 2, status=0 if i % 3 != 2 else 2, message='m',
        num_fev=100 + i, num_iter=1, simplex_history=ctx.array([simplex]),
        fun_simplex_history=ctx.array([[value] * (dim + 1)])
    )


def earlier(ctx, limits, periodic, cutoff, results, simplices=0, positions=0, pops=0, free='rvs'):
    """A state with symbolic results, refined and queued positions"""
    dim = len(limits)
    known = []
    for i in range(results):
        pos = spread(i, dim, limits)
        if i == 0 and 'r' in free:
            pos[0] = ctx.real('r', *limits[0])
        known.append(make_result(ctx, i, pos, ctx.real('v', 0.1, 0.9) if i == 1 and 'v' in free else 0.25 * (i % 4)))
    queued = []
    for i in range(simplices):
        base = spread(5 + i, dim, limits)
        if i == 0 and 's' in free:
            base[0] = ctx.real('s', limits[0][0], limits[0][0] + 0.1)
        queued.append([base] + [[x + 0.05 * (j == k) for j, x in enumerate(base)] for k in range(dim)])
    waiting = [ctx.array(spread(11 + i, dim, limits)) for i in range(positions)]
    refined = [ctx.array(spread(i, dim, limits)) for i in range(1, min(2, results))]
    state = make_state(limits, periodic, cutoff, 0.5, queued, waiting, known, refined)
    for _ in range(pops):
        state.simplex_queue.pop_queued()
    return state


def search(ctx, limits, periodic, results, simplices, positions, pops=0, stencil=None, mesh=2, force=False, few=2,
           save=False, again=True, fake=False, free='rvs'):
    """The state and the options of a search; they may be used again."""
    limits = [[float(x) for x in lim] for lim in limits]
    state = earlier(ctx, limits, periodic, 0.2, results, simplices, positions, pops, free) if results or simplices else None
    if stencil is not None and not isinstance(stencil, str):
        stencil = np.array(stencil)
    kwargs = dict(runs.ONE_SHOT)
    if fake:
        kwargs['maxiter'] = 1
    size = [mesh] * len(limits)
    fct = Few(ctx, few)
    kept = []

    def gap(pos):
        kept.append((pos, [x for x in pos]))
        return fct(pos)

    given = dict(limits=limits, stencil=stencil, options=kwargs, mesh=size)
    if state is not None:
        given['state'] = state
    given = Snapshot(ctx, **given)
    found = []
    for _ in range(2 if again else 1):
        with scratch() as path:
            result = runs.search(
                ctx, gap, limits=limits, periodic=periodic, feature_size=0.6, gap_threshold=0.5, initial_state=state,
                refinement_stencil=stencil, initial_mesh_size=size, nelder_mead_kwargs=kwargs, num_minimize_parallel=3,
                force_initial_mesh=force, use_fake_potential=fake, simplex_check_cutoff=len(limits) + 1,
                **({'save_file': os.path.join(path, 'state.hdf5')} if save else {})
            )
        given.check()
        found.append(result)
    for pos, before in kept:
        ctx.check('evaluated position is unchanged', ctx.all([a == b for a, b in zip(pos, before)]))
    if again:
        same_results(ctx, *found)
    if len(found[0].nodes):
        ctx.reach('nodes')
    ctx.reach('done')


def same_results(ctx, a, b):
    for name in ('nodes', 'rejected_results', 'refined_results'):
        x, y = list(getattr(a, name)), list(getattr(b, name))
        ctx.check('same number of ' + name, len(x) == len(y))
        for p in x:
            p = p if name == 'refined_results' else p.pos
            ctx.check('same ' + name, ctx.any([
                ctx.close([c for c in p], [c for c in (q if name == 'refined_results' else q.pos)]) for q in y
            ]))


def identification(ctx, limits, periodic, results, how, extra=(), feature_size=None, free='rv'):
    """What is identified is unchanged, and can be identified again."""
    from nodefinder import identify
    limits = [tuple(float(x) for x in lim) for lim in limits]
    state = earlier(ctx, limits, periodic, 0.08, results, 1, 1, free=free)
    for i, p in enumerate(extra):
        pos = [ctx.real('e{}'.format(i), *x) if isinstance(x, tuple) else float(x) for x in p]
        state.result.add_result(make_result(ctx, 0, pos, 0.))
    positions = [tuple(x for x in r.pos) for r in state.result.nodes]
    cs = state.result.coordinate_system
    given = Snapshot(ctx, state=state, positions=positions, system=cs)
    found = []
    for _ in range(2):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with chance():
                if how == 'state':
                    res = identify.run(state, feature_size=feature_size)
                elif how == 'result':
                    res = identify.run(state.result, feature_size=feature_size)
                else:
                    res = identify.run_from_positions(positions, feature_size=feature_size, coordinate_system=cs)
        given.check()
        found.append(res)
    ctx.check('same number of objects', len(found[0]) == len(found[1]))
    for a in found[0]:
        ctx.check('same objects', ctx.any([
            all([len(a.positions) == len(b.positions), a.dimension == b.dimension]) and ctx.all([
                ctx.any([ctx.close(list(p), list(q)) for q in b.positions]) for p in a.positions
            ]) for b in found[1]
        ]))
    result = Snapshot(ctx, result=found[1])
    with scratch() as path:
        from nodefinder import io
        io.save(found[1], os.path.join(path, 'identified.hdf5'))
    result.check()
    given.check()
    ctx.reach('done')


def plots(ctx, dim, what):
    from nodefinder.identify import plot as identify_plot
    from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalPoint
    from nodefinder.search import plot as search_plot
    limits = [(0., 1.)] * dim
    state = earlier(ctx, limits, True, 0.2, 4)
    if what in ('line', 'result'):
        shape, pos, _ = make_line(ctx, [[(0.2 * i, 0.2 * i + 0.2)] + [0.3] * (dim - 1) for i in range(4)],
                                  [(0, 1), (1, 2)], optional=[(0, 3)])
        objects = [
            IdentificationResult(positions=pos, dimension=1, shape=shape),
            IdentificationResult(positions=[tuple([0.5] * dim), tuple([0.6] * dim)], dimension=2, shape=None),
            IdentificationResult(positions=[tuple([0.9] * dim)], dimension=0,
                                 shape=NodalPoint(position=tuple([0.9] * dim)))
        ]
        res = IdentificationResultContainer(coordinate_system=state.result.coordinate_system, feature_size=0.15,
                                            results=objects)
        given = Snapshot(ctx, result=res, line=shape)
    else:
        given = Snapshot(ctx, state=state)
    for _ in range(2):
        axes = Axes(dim)
        if what == 'points':
            search_plot.points(state.result, axis=axes)
        elif what == 'simplices':
            search_plot.simplices(state.result, nodes=state.result.nodes, axis=axes)
        elif what == 'line':
            identify_plot.nodal_line(shape, axis=axes, color='C1', feature_size=0.15)
        else:
            identify_plot.result(res, axis=axes)
        given.check()
    ctx.reach('done')


def saving(ctx, dim, what):
    from nodefinder import io
    limits = [(0., 1.)] * dim
    state = earlier(ctx, limits, True, 0.2, 4, 3, 2, pops=1)
    obj = {'state': state, 'result': state.result, 'minimization': state.result.nodes[0],
           'coordinate system': state.result.coordinate_system}[what]
    given = Snapshot(ctx, object=obj, state=state)
    with scratch() as path:
        for _ in range(2):
            io.save(obj, os.path.join(path, 'file.hdf5'))
            given.check()
        io.load(os.path.join(path, 'file.hdf5'))
    given.check()
    ctx.reach('done')


def containers(ctx, dim, periodic):
    """Lists given to containers and queues are not used as their own."""
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    from nodefinder.search._queue import PositionQueue, SimplexQueue
    limits = [(0., 1.)] * dim
    results = [make_result(ctx, i, spread(i, dim, limits), 0.3 * i) for i in range(3)]
    refined = [ctx.array([ctx.real('q{}'.format(k), 0, 1) for k in range(dim)])]
    positions = [ctx.array(spread(i, dim, limits)) for i in range(3)]
    simplices = [[spread(i + j, dim, limits) for j in range(dim + 1)] for i in range(3)]
    given = Snapshot(ctx, results=results, refined=refined, positions=positions, simplices=simplices)
    container = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), gap_threshold=0.5, dist_cutoff=0.2,
        minimization_results=results, refined_results=refined
    )
    given.check()
    squeue, pqueue = SimplexQueue(objects=simplices), PositionQueue(objects=positions)
    container.add_result(make_result(ctx, 7, spread(7, dim, limits), 0.2))
    container.set_refined(ctx.array(spread(8, dim, limits)))
    first = squeue.pop_queued()
    pqueue.pop_queued()
    squeue.add_objects([[spread(20 + j, dim, limits) for j in range(dim + 1)]])
    pqueue.add_objects([ctx.array(spread(9, dim, limits))])
    squeue.set_finished(first)
    list(container.get_neighbour_distance_iterator(positions[0]))
    list(container.get_refined_neighbour_distance_iterator(positions[1]))
    list(container.get_all_neighbour_distances(positions[2]))
    given.check()
    ctx.check('added to the container', len(container.minimization_results) == 4)
    ctx.reach('done')


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=['done'] + list(need), budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    unit = [(0, 1)]
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        for dim in (1, 2):
            add('coordinates {}D, {}'.format(dim, word), coordinates, dim=dim, periodic=periodic, weight=dim)
            add('containers {}D, {}'.format(dim, word), containers, dim=dim, periodic=periodic)
        add('search 1D, {}'.format(word), search, need=['nodes'], limits=unit, periodic=periodic, results=4, simplices=2,
            positions=1, stencil=[[[1.5], [2.]]], weight=4)
        add('search 2D, {}'.format(word), search, need=['nodes'], limits=unit * 2, periodic=periodic, results=4, simplices=2,
            positions=2, pops=1, stencil='auto', weight=4, few=1,
            free='v')
        for how in ('state', 'result', 'positions'):
            add('identification 1D, {}, {}'.format(word, how), identification, limits=unit, periodic=periodic, results=6,
                how=how, feature_size=0.3 if how == 'positions' else None, weight=3)
    add('search from a mesh', search, need=['nodes'], limits=unit, periodic=True, results=0, simplices=0, positions=0,
        stencil=[[[1.5], [2.]], [[-1.5], [-2.]]], weight=2)
    add('search, mesh in addition', search, need=['nodes'], limits=unit, periodic=False, results=2, simplices=1, positions=1,
        force=True, mesh=2, weight=2)
    add('search, saved', search, need=['nodes'], limits=unit, periodic=True, results=3, simplices=2, positions=1, save=True, weight=2)
    add('search, fake potential', search, need=['nodes'], limits=unit, periodic=True, results=3, simplices=2, positions=0, fake=True,
        weight=3)
    add('identification 2D', identification, limits=unit * 2, periodic=True, results=5, how='state', weight=5, free='v',
        extra=[[0.47, 0.5], [0.55, 0.55], [0.6, 0.7]])
    add('identification 3D', identification, limits=unit * 3, periodic=False, results=2, how='result', weight=5, free='v',
        extra=[[0.52, 0.5, 0.5], [0.55, 0.55, 0.5], [0.6, 0.5, 0.6]])
    for dim in (2, 3):
        for what in ('points', 'simplices', 'line', 'result'):
            add('plot {}D, {}'.format(dim, what), plots, dim=dim, what=what)
    for what in ('state', 'result', 'minimization', 'coordinate system'):
        add('saving, {}'.format(what), saving, dim=1, what=what)
        add('saving 2D, {}'.format(what), saving, dim=2, what=what)
    if deep:
        add('coordinates 3D', coordinates, dim=3, periodic=True, weight=20)
        add('search 1D, more', search, need=['nodes'], limits=unit, periodic=True, results=6, simplices=3, positions=2,
            stencil=[[[1.5], [2.]]], few=4, weight=20)
    return res
