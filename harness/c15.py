"""C15: errors of the gap function reach the caller and lose no work."""

import asyncio
import os
import threading

from symx.case import Case
from . import runs
from .common import scratch, sequences
from .searching import Binary, Inside, Run, mesh_simplices, same_simplex, starting_simplices
from .states import same_container, rows

ASSUMPTIONS = [
    'minimizations end with their initial simplex (tolerances infinite); values are 0 (node) or 1',
    'files as in C18',
]


class Failure(Exception):
    pass


class Interrupt(BaseException):
    pass


class Policy(asyncio.DefaultEventLoopPolicy):
    """Loops which notice when they would run forever."""
    limit = 4000

    def new_event_loop(self):
        return runs.Loop(self.limit)


def call(ctx, how, gap, driver=None, **kwargs):
    """Run a search in one of the possible situations."""
    from nodefinder import search
    if how == 'async':
        return runs.search(ctx, gap, driver=driver, **kwargs)
    old_policy, old_hook = asyncio.get_event_loop_policy(), threading.excepthook
    asyncio.set_event_loop_policy(Policy())
    threading.excepthook = lambda *args: None
    try:
        if how == 'no loop':
            asyncio.set_event_loop(None)
            return search.run(gap, **kwargs)
        if how == 'idle loop':
            loop = runs.Loop()
            asyncio.set_event_loop(loop)
            try:
                res = search.run(gap, **kwargs)
                ctx.check('loop of the caller is not closed', not loop.is_closed())
                return res
            finally:
                asyncio.set_event_loop(None)
                loop.close()
        if how == 'running loop':
            async def main():
                return search.run(gap, **kwargs)

            return runs.run_loop(main())
    finally:
        threading.excepthook = old_hook
        asyncio.set_event_loop_policy(old_policy)
    raise NotImplementedError(how)


class Failing:
    def __init__(self, fct, at, error, always, coroutine):
        self.fct = fct
        self.at = at
        self.error = error
        self.always = always
        self.count = 0
        self.failed = []
        if coroutine:
            async def gap(pos):
                await asyncio.sleep(0)
                return self(pos)

            self.gap = gap
        else:
            self.gap = self.__call__

    def __call__(self, pos):
        k = self.count
        self.count += 1
        if k == self.at or (self.always and k > self.at >= 0):
            self.failed.append([x for x in pos])
            raise self.error
        return self.fct(pos)


def error(ctx, how, mesh, limits=((0, 1), ), periodic=True, parallel=2, stencil=None, feature_size=0.3, kind='error',
          always=False, coroutine=False, schedule=False, save=True, save_delay=5.):
    import numpy as np
    from nodefinder import io
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    start = mesh_simplices(limits, periodic, mesh)
    evaluations = len(start) * (dim + 1) + (dim + 1 if stencil is not None else 0)
    at = ctx.choice('at', evaluations)
    fct = Inside(ctx, limits) if stencil is not None else Binary(ctx, 0, 1)
    exc = {'error': Failure, 'interrupt': Interrupt}[kind]('failed')
    failing = Failing(fct, at, exc, always, coroutine)
    kwargs = dict(
        limits=limits, periodic=periodic, feature_size=feature_size, gap_threshold=0.5, initial_mesh_size=mesh,
        refinement_stencil=None if stencil is None else np.array(stencil), nelder_mead_kwargs=runs.ONE_SHOT,
        num_minimize_parallel=parallel, save_delay=save_delay
    )
    gap, driver = failing.gap, None
    if schedule:
        sched = runs.Schedule(ctx, failing)
        gap, driver = sched.gap, sched.driver
    with scratch() as path:
        if save:
            kwargs['save_file'] = os.path.join(path, 'state.hdf5')
        raised = None
        try:
            result = call(ctx, how, gap, driver, **kwargs)
        except (Failure, Interrupt) as e:
            raised = e
        if not failing.failed:
            # fewer evaluations than expected
            ctx.check('no error', raised is None)
            ctx.reach('no error')
            return
        ctx.check('the error is raised', raised is not None)
        ctx.check('as it was', type(raised) is type(exc) and raised.args == exc.args)
        ctx.reach('error')
        if not save:
            return
        ctx.check('only the save file', os.listdir(path) == ['state.hdf5'])
        state = io.load(kwargs['save_file'])
        done = starting_simplices(state.result)
        queued = [rows(s) for s in state.simplex_queue.objects]
        expected = list(start)
        cutoff = feature_size / 3
        run = Run(ctx, limits=limits, periodic=periodic, fct=fct, stencil=stencil, feature_size=feature_size,
                  mesh_size=mesh)
        expected += run.refinement_simplices([[x for x in p] for p in state.result.refined_results])
        nodes = [[x for x in r.pos] for r in state.result.nodes]
        for s in expected:
            number = ctx.count([same_simplex(ctx, s, t) for t in done + queued])
            ctx.check('simplex is kept once', ctx.any([
                ctx.all([number >= 1, number <= 1]), ctx.all([number <= 0, run.close_vertices(s, nodes) > 0])
            ]))
        for pos in failing.failed:
            ctx.check('the failed simplex is queued', ctx.any(
                [ctx.all([ctx.close(x, y) for x, y in zip(v, pos)]) for s in queued for v in s]
            ))
        for t in done + queued:
            ctx.check('nothing else', ctx.any([same_simplex(ctx, s, t) for s in expected]))
        for r in state.result.minimization_results:
            ctx.check('value', ctx.close(r.value, fct.value(r.pos)))
        positions = [rows(p) for p in state.position_queue.objects]
        if stencil is not None:
            for n in nodes:
                ctx.check('node is refined or queued', ctx.any(
                    [run.closer(n, p) for p in positions + run_positions(state)]
                ))
        # the same search can be completed
        final = runs.search(ctx, fct, load=True, load_quiet=False, **kwargs)
        done = starting_simplices(final)
        nodes = [[x for x in r.pos] for r in final.nodes]
        expected = start + run.refinement_simplices(run_positions_of(final))
        for s in expected:
            number = ctx.count([same_simplex(ctx, s, t) for t in done])
            ctx.check('simplex is minimized once in the end', ctx.any([
                ctx.all([number >= 1, number <= 1]), ctx.all([number <= 0, run.close_vertices(s, nodes) > 0])
            ]))
        ctx.check('nothing else in the end', len(done) <= len(expected))
        if stencil is not None:
            for n in nodes:
                ctx.check('node is refined in the end', ctx.any([run.closer(n, p) for p in run_positions_of(final)]))


def run_positions(state):
    return run_positions_of(state.result)


def run_positions_of(result):
    return [[x for x in p] for p in result.refined_results]


def no_error(ctx, how, mesh, limits=((0, 1), ), periodic=True, parallel=2, feature_size=0.9, coroutine=False):
    limits = [tuple(float(x) for x in lim) for lim in limits]
    fct = Binary(ctx, 0, 1)
    kwargs = dict(
        limits=limits, periodic=periodic, feature_size=feature_size, gap_threshold=0.5, initial_mesh_size=mesh,
        refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT, num_minimize_parallel=parallel
    )
    first = runs.search(ctx, Failing(fct, -1, None, False, coroutine).gap, **kwargs)
    second = call(ctx, how, Failing(fct, -1, None, False, coroutine).gap, **kwargs)
    same_container(ctx, 'result', first, second)
    ctx.check('number of results', len(second.minimization_results) >= 1)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    right = [[[1.5], [2.]]]
    ways = ['async', 'no loop', 'idle loop', 'running loop']
    for how in ways:
        add('error, ' + how, error, need=['error'], how=how, mesh=(2, ), parallel=2)
        add('coroutine error, ' + how, error, need=['error'], how=how, mesh=(2, ), parallel=2, coroutine=True)
        add('error, not saved, ' + how, error, need=['error'], how=how, mesh=(2, ), parallel=1, save=False)
        add('interrupt, ' + how, error, need=['error'], how=how, mesh=(2, ), parallel=1, kind='interrupt')
        add('no error, ' + how, no_error, how=how, mesh=(3, ), parallel=2)
    for parallel in (1, 3):
        add('error 1D, {} parallel'.format(parallel), error, need=['error'], how='async', mesh=(3, ),
            parallel=parallel, weight=5)
        add('lasting error 1D, {} parallel'.format(parallel), error, need=['error'], how='async', mesh=(3, ),
            parallel=parallel, always=True, coroutine=True, weight=5)
    add('error, order of completion', error, need=['error'], how='async', mesh=(2, ), parallel=2, schedule=True,
        weight=9)
    add('error, saved all the time', error, need=['error'], how='async', mesh=(2, ), parallel=2, save_delay=0.,
        coroutine=True, weight=9)
    add('error in a refinement', error, need=['error'], how='async', mesh=(2, ), parallel=1, stencil=right,
        feature_size=1.2, weight=9)
    add('error in a refinement, parallel', error, need=['error'], how='no loop', mesh=(2, ), parallel=3, stencil=right,
        feature_size=1.2, weight=9)
    add('error 2D', error, need=['error'], how='async', mesh=(2, 1), limits=((0, 1), (0, 1)), parallel=1, weight=9)
    if deep:
        add('error 1D four', error, need=['error'], how='async', mesh=(4, ), parallel=2, coroutine=True, weight=50)
        add('error, all orders', error, need=['error'], how='async', mesh=(3, ), parallel=2, schedule=True, weight=50)
        add('error in refinements', error, need=['error'], how='async', mesh=(3, ), parallel=2, stencil=right,
            feature_size=0.9, weight=50)
        add('error 2D, parallel', error, need=['error'], how='async', mesh=(2, 1), limits=((0, 1), (0, 1)), parallel=2,
            coroutine=True, weight=50)
    return res + sequences(res,
        ['error, not saved, async', 'no error, running loop'],
        ['error, not saved, running loop', 'error, not saved, no loop'],
    )
