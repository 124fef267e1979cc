"""C17: restarting continues exactly where the saved state left off."""

import itertools
import os

import numpy as np

from symx.case import Case
from . import runs
from .common import scratch, equivalent, sequences
from .searching import Run, Binary, Few, mesh_simplices, same_simplex, starting_simplices

ASSUMPTIONS = [
    'minimizations end with their initial simplex (tolerances infinite); values of the function are 0 (node) or 1',
    'the state comes from a search in the same box; files as in C18',
]


def earlier_result(ctx, i, pos, fixed=False):
    from nodefinder.search.result import MinimizationResult
    if fixed and i != 2:
        success, value = i % 3 != 1, (0.37 * i) % 1
    else:
        success, value = ctx.lazy_bool('success{}'.format(i)), ctx.real('value{}'.format(i), 0, 1)
    return MinimizationResult(
        pos=ctx.array([pos]), value=value, success=success,
        status=0 if success else 2, message='m', num_fev=100 + i, num_iter=1,
        simplex_history=ctx.array([[[pos], [pos + 0.01]]]), fun_simplex_history=ctx.array([[0., 0.]])
    )


def restart(ctx, how, results=(), refined=(), simplices=0, pops=0, positions=0, force=False, mesh=(2, ), stencil=None,
            periodic=True, feature_size=0.6, few=2, parallel=2, check_cutoff=3, finish=False, mode='default',
            same_as_mesh=False, other_cutoff=False, fixed=False):
    from nodefinder import io
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer, ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    limits = [(0., 1.)]
    cutoff = feature_size / 3
    # the earlier state
    queued = [[[ctx.real('s{}'.format(i), 0.1 * i, 0.1 * i + 0.05)], [0.1 * i + 0.08]] for i in range(simplices)]
    if same_as_mesh:
        queued.append(mesh_simplices(limits, periodic, mesh)[0])
    waiting = [[ctx.real('q{}'.format(i), 0.4 * i, 0.4 * i + 0.5)] for i in range(positions)]
    for p, q in itertools.combinations([w[0] for w in waiting] + list(refined), 2):
        # exactly equal, or clearly different
        ctx.assume(ctx.any([p == q, abs(p - q) >= 0.001]))
    container = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), gap_threshold=0.5,
        dist_cutoff=cutoff * (1.5 if other_cutoff else 1)
    )
    for i, x in enumerate(results):
        container.add_result(earlier_result(ctx, i, x, fixed))
    for x in refined:
        container.set_refined(ctx.array([x]))
    squeue = SimplexQueue(objects=queued)
    running = []
    for _ in range(pops):
        running.append(squeue.pop_queued())
    if finish and running:
        done = running.pop(ctx.choice('finished', len(running)))
        squeue.set_finished(done)
        queued = [s for s in queued if not ctx.is_true(same_simplex(ctx, s, done))]
    state = ControllerState(
        result=container, simplex_queue=squeue, position_queue=PositionQueue(objects=waiting)
    )
    # the new search
    threshold = ctx.real('threshold', 0.25, 0.75)
    fct = Few(ctx, few)
    # what is expected is worked out by `run`
    run = Run(ctx, limits=limits, periodic=periodic, fct=fct, stencil=stencil, feature_size=feature_size,
              mesh_size=mesh, check_cutoff=check_cutoff, threshold=threshold, parallel=parallel)
    run.args['force_initial_mesh'] = force
    if mode == 'no recheck':
        run.args['recheck_pos_dist'] = False
    if how == 'given':
        run.args['initial_state'] = state
        run.run()
    else:
        with scratch() as path:
            name = os.path.join(path, 'state.hdf5')
            io.save(state, name)
            run.args.update(save_file=name, load=True, load_quiet=how == 'loaded quietly')
            run.run()
            final = io.load(name)
            ctx.check('saved again', len(final.result.minimization_results) == len(run.result.minimization_results))
    result = run.result
    # results are kept
    old = {}
    for r in result.minimization_results:
        if r.num_fev >= 100:
            ctx.check('once', r.num_fev not in old)
            old[r.num_fev] = r
    nodes = [r.num_fev for r in result.nodes]
    for i, x in enumerate(results):
        before = container_result(container, 100 + i)
        ctx.check('result is kept', 100 + i in old)
        r = old[100 + i]
        ctx.check('position is kept', equivalent(ctx, r.pos, before.pos, limits, periodic))
        ctx.check('value is kept', ctx.close(r.value, before.value))
        ctx.check('success is kept', bool(r.success) == bool(before.success))
        ctx.check('history is kept', ctx.close(r.simplex_history, before.simplex_history))
        ctx.check('classified by the new threshold',
                  ctx.iff(100 + i in nodes, ctx.all([bool(before.success), before.value <= threshold])))
        ctx.reach('results')
    ctx.check('threshold', ctx.close(result.gap_threshold, threshold))
    ctx.check('cutoff', ctx.close(result.dist_cutoff, cutoff))
    for x in refined:
        ctx.check('refined position is kept', ctx.any([equivalent(ctx, [x], p, limits, periodic)
                                                       for p in run.refined()]))
    # everything queued or running is processed, and nothing else
    start = list(queued)
    if force:
        for s in mesh_simplices(limits, periodic, mesh):
            if not any(ctx.is_true(same_simplex(ctx, s, t)) for t in start):
                start.append(s)
        ctx.reach('forced')
    new_refined = run.refined()
    for x in refined:
        for k, p in enumerate(new_refined):
            if ctx.is_true(ctx.close(p, [x], 1e-9)):
                del new_refined[k]
                break
    for s in run.refinement_simplices(new_refined):
        if not any(ctx.is_true(same_simplex(ctx, s, t)) for t in start):
            start.append(s)
            ctx.reach('refinement')
    minimized = [t for t, r in zip(starting_simplices(result), result.minimization_results) if r.num_fev < 100]
    all_nodes = [[x for x in r.pos] for r in result.nodes]
    left = list(range(len(minimized)))
    for s in start:
        hits = [k for k in left if ctx.is_true(same_simplex(ctx, minimized[k], s))]
        ctx.check('minimized at most once', len(hits) <= 1)
        if hits:
            left.remove(hits[0])
            ctx.reach('minimized')
        else:
            ctx.check('skipped because of nodes', run.close_vertices(s, all_nodes) > run.check_cutoff)
    ctx.check('nothing else is minimized', not left)
    # positions
    if stencil is not None:
        for p in waiting:
            if mode == 'no recheck':
                ctx.check('position is refined', ctx.any([ctx.close(p, q) for q in run.refined()]))
            else:
                ctx.check('position is refined', ctx.any([run.closer(p, q) for q in run.refined()]))
            ctx.reach('positions')
        new_nodes = [[x for x in r.pos] for r in result.nodes if r.num_fev < 100]
        for n in new_nodes:
            ctx.check('node is refined', ctx.any([run.closer(n, q) for q in run.refined()]))
    elif how != 'given':
        kept = [[x for x in p] for p in final.position_queue.objects]
        for p in waiting:
            ctx.check('position is kept', ctx.any([ctx.close(p, q) for q in kept]))


def container_result(container, num):
    return [r for r in container.minimization_results if r.num_fev == num][0]


def both_given(ctx, quiet, exists):
    """Neither the state nor the file is used, the search is refused."""
    from nodefinder import io
    from .searching import make_state
    fct = Binary(ctx, 0, 1)
    limits = [(0., 1.)]
    state = make_state(limits, True, 0.2, 0.5, [[[0.], [0.1]]])
    with scratch() as path:
        name = os.path.join(path, 'state.hdf5')
        if exists:
            io.save(state, name)
        try:
            runs.search(ctx, fct, limits=limits, initial_state=state, load=True, load_quiet=quiet, save_file=name,
                        feature_size=0.6, gap_threshold=0.5, refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT,
                        initial_mesh_size=1)
        except ValueError:
            ctx.reach('refused')
            ctx.check('nothing evaluated', not fct.calls)
            return
        ctx.fail('has to be refused')


def unreadable(ctx, quiet, content, force=False):
    """A save file which cannot be read."""
    fct = Binary(ctx, 0, 1)
    limits = [(0., 1.)]
    with scratch() as path:
        name = os.path.join(path, 'state.hdf5')
        if content == 'directory':
            name = os.path.join(path, 'nothing', 'state.hdf5')
        elif content is not None:
            with open(name, 'wb') as f:
                f.write(content)
        args = {} if content == 'directory' else {'save_file': name}
        if content == 'directory' and quiet:
            os.mkdir(os.path.join(path, 'nothing'))
        try:
            result = runs.search(
                ctx, fct, limits=limits, load=True, load_quiet=quiet, save_file=name, feature_size=0.3,
                gap_threshold=0.5, refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT, initial_mesh_size=2,
                force_initial_mesh=force
            )
        except OSError:
            ctx.check('raises only if not quiet', not quiet)
            ctx.check('nothing evaluated', not fct.calls)
            ctx.reach('raised')
            return
        ctx.check('starts anew only if quiet', quiet)
        minimized = starting_simplices(result)
        mesh = mesh_simplices(limits, True, (2, ))
        ctx.check('mesh', len(minimized) == len(mesh))
        for s in mesh:
            ctx.check('mesh simplex', ctx.any([same_simplex(ctx, s, t) for t in minimized]))
        ctx.reach('new search')


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    right = [[[1.5], [2.]]]
    for how in ('given', 'loaded', 'loaded quietly'):
        add('results, ' + how, restart, need=['results', 'minimized'], how=how, results=(0.1, 0.6), simplices=1)
        add('queued and running, ' + how, restart, need=['minimized'], how=how, simplices=3, pops=2, finish=True)
        add('forced mesh, ' + how, restart, need=['forced'], how=how, simplices=1, pops=1, force=True,
            same_as_mesh=True, few=1)
        add('positions, ' + how, restart, need=['positions', 'refinement'], how=how, positions=2, stencil=right,
            feature_size=1.2, refined=(0.25, ))
        add('everything, ' + how, restart, need=['results', 'positions', 'minimized'], how=how, positions=1,
            simplices=2, pops=1, results=(0.6, ), refined=(0.55, ), stencil=right, feature_size=0.9, few=1, weight=9)
        add('positions without stencil, ' + how, restart, how=how, positions=2, simplices=1, few=1)
    add('positions, no recheck', restart, need=['positions'], how='loaded', positions=2, stencil=right,
        feature_size=1.2, refined=(0.25, ), mode='no recheck')
    add('open box', restart, need=['results', 'minimized'], how='loaded', results=(0.1, 0.6), simplices=1,
        periodic=False)
    add('other feature size', restart, need=['results'], how='given', results=(0.1, 0.6), simplices=1,
        refined=(0.2, 0.9), other_cutoff=True)
    add('nodes close to simplices', restart, need=['results'], how='loaded', results=(0.15, ), simplices=2, pops=1,
        check_cutoff=0, weight=5)
    add('finished', restart, need=['results'], how='given', results=(0.1, 0.6), refined=(0.1, ), stencil=right)
    add('nothing', restart, how='loaded', few=0)
    add('nothing, forced mesh', restart, need=['forced'], how='given', force=True)
    for how in ('given', 'loaded'):
        add('many queued and running, ' + how, restart, need=['minimized'], how=how, simplices=9, pops=4, finish=True,
            few=1, weight=9)
        add('many results, ' + how, restart, need=['results', 'minimized'], how=how, simplices=1, few=1, weight=5,
            fixed=True, results=(0.05, 0.15, 0.3, 0.4, 0.55, 0.95), refined=(0.1, 0.35, 0.6, 0.7, 0.9))
    for quiet in (False, True):
        for exists in (False, True):
            add('state and load, {}{}'.format('quiet' if quiet else 'not quiet', ', file exists' if exists else ''),
                both_given, need=['refused'], quiet=quiet, exists=exists)
        for name, content in (('missing', None), ('empty', b''), ('garbage', b'garbage'), ('no directory', 'directory')):
            add('{} file, {}'.format(name, 'quiet' if quiet else 'not quiet'), unreadable,
                need=['new search' if quiet else 'raised'], quiet=quiet, content=content)
    if deep:
        for how in ('given', 'loaded'):
            add('large, ' + how, restart, need=['results', 'positions', 'minimized'], how=how, positions=2,
                simplices=3, pops=2, results=(0.6, 0.9), refined=(0.55, ), stencil=right, feature_size=0.9, few=3,
                weight=50, finish=True)
            add('large, forced mesh, ' + how, restart, need=['results', 'positions', 'minimized'], how=how,
                positions=1, simplices=2, pops=1, results=(0.6, 0.9), refined=(0.55, ), stencil=right,
                feature_size=0.9, few=2, weight=50, force=True)
    return res + sequences(res,
        ['forced mesh, given', 'positions without stencil, loaded', 'nothing'],
        ['nothing, forced mesh', 'forced mesh, loaded', 'positions without stencil, given'],
    )
