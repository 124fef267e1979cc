"""C16: the save file is always complete."""

import asyncio
import os

import numpy as np

from symx.case import Case
from . import runs
from .common import scratch, sequences
from .files import Files, Crash, peek
from .searching import Binary, Inside, Few, Run, mesh_simplices, same_simplex, starting_simplices
from .states import same_container, same_objects, rows

ASSUMPTIONS = [
    'the process dies or fails between operations on files: opening, writes, creating groups and datasets, closing, '
    'renaming, removing; a file which is not closed by h5py is not complete',
    'what has been written reaches the disk (no power failure)',
    'files as in C18',
]
FILE = 'state.hdf5'


def controller(ctx, path, count=2):
    from nodefinder.search._controller import Controller
    return Controller(
        gap_fct=lambda x: 0., limits=[(0., 1.)], periodic=True, initial_state=None, save_file=path, load=False,
        load_quiet=True, initial_mesh_size=count, force_initial_mesh=False, gap_threshold=0.5, feature_size=1.5,
        nelder_mead_kwargs={}, num_minimize_parallel=1, refinement_stencil=np.array([[[1.5], [2.]]])
    )


class Snapshot:
    def __init__(self, state):
        self.results = [(list(r.pos), r.value) for r in state.result.minimization_results]
        self.refined = [list(p) for p in state.result.refined_results]
        self.simplices = [rows(s) for s in state.simplex_queue.objects]
        self.positions = [rows(p) for p in state.position_queue.objects]

    def equal(self, ctx, other):
        """condition; queued simplices in any order"""
        for name in ('results', 'refined', 'simplices', 'positions'):
            if len(getattr(self, name)) != len(getattr(other, name)):
                return False
        conds = []
        for (p, v), (q, w) in zip(self.results, other.results):
            conds += [ctx.close(p, q, 1e-9), ctx.close(v, w, 1e-9)]
        for name in ('refined', 'positions'):
            for p, q in zip(getattr(self, name), getattr(other, name)):
                conds.append(ctx.close(p, q, 1e-9))
        for s in self.simplices:
            conds.append(ctx.any([same_simplex(ctx, s, t) for t in other.simplices]))
        return ctx.all(conds)


def change(ctx, state, what, i):
    """One change of the state, as in a search."""
    from .c05 import make_result
    if what == 0:
        state.result.add_result(make_result([0.1 * i], ctx.real('value{}'.format(i), 0, 1)))
    elif what == 1:
        if state.simplex_queue.has_queued:
            state.simplex_queue.pop_queued()
    elif what == 2:
        running = list(state.simplex_queue._running_objects)  # pylint: disable=protected-access
        if running:
            state.simplex_queue.set_finished(running[0])
    elif what == 3:
        state.simplex_queue.add_objects([[[0.1 * i], [0.1 * i + 0.05]]])
    elif what == 4:
        state.position_queue.add_objects([[ctx.real('position{}'.format(i), 0, 1)]])
    elif what == 5:
        if state.position_queue.has_queued:
            state.position_queue.pop_queued()
    elif what == 6:
        state.result.set_refined(ctx.array([0.1 * i + 0.02]))


CHANGES = 7


def interrupted(ctx, what, existing, changes=1, relative=False, bound=80):
    """save() is interrupted ('crash', 'fail') at an arbitrary operation, after arbitrary changes."""
    from nodefinder import io
    cwd = os.getcwd()
    with scratch() as path:
        try:
            name = os.path.join(path, FILE)
            if relative:
                os.chdir(path)
            ctrl = controller(ctx, FILE if relative else name)
            before = None
            if existing:
                for k in range(2):
                    change(ctx, ctrl.state, [0, 4][k], 10 + k)
                ctrl.save()
                before = Snapshot(ctrl.state)
                ctx.check('saved', Snapshot(io.load(name)).equal(ctx, before))
            for k in range(changes):
                change(ctx, ctrl.state, 0 if not k else ctx.choice('change{}'.format(k), CHANGES), k)
            after = Snapshot(ctrl.state)
            at = ctx.real('at', 0, bound)
            happened = []

            def complete(label, allow_new=True):
                found = peek(name, io.load)
                ctx.check(label + ': can be loaded', not isinstance(found, Exception), repr(found))
                if found is None:
                    ctx.check(label + ': is there', before is None)
                    return
                found = Snapshot(found)
                options = [after] if allow_new else []
                if before is not None:
                    options.append(before)
                ctx.check(label, ctx.any([o.equal(ctx, found) for o in options]))

            def hook(k, _op, _path):
                complete('at every moment')
                # an arbitrary point
                if not happened and ctx.is_true(ctx.all([at >= k, at < k + 1])):
                    happened.append(k)
                    return what
                return None

            error = None
            with Files(path, hook) as files:
                try:
                    ctrl.save()
                except Crash:
                    error = 'crash'
                except (OSError, RuntimeError) as e:
                    error = e
            complete('after the save')
            if not happened:
                ctx.check('no error', error is None)
                ctx.check('complete', Snapshot(io.load(name)).equal(ctx, after))
                ctx.check('only the save file', os.listdir(path) == [FILE])
                ctx.check('number of operations', files.index <= bound)
                ctx.reach('saved')
                return
            ctx.reach('interrupted')
            if what == 'crash':
                return
            ctx.check('error is raised', isinstance(error, Exception) and Files.ERROR in str(error), repr(error))
            ctx.check('no other files', set(os.listdir(path)) <= {FILE})
            ctx.check('needs saving', bool(ctrl.state.needs_saving))
            ctrl.save()
            ctx.check('only the save file in the end', os.listdir(path) == [FILE])
            ctx.check('complete in the end', Snapshot(io.load(name)).equal(ctx, after))
        finally:
            os.chdir(cwd)


def not_skipped(ctx, rounds, changes):
    """Saves after arbitrary changes: each one leaves the current state in the file."""
    from nodefinder import io
    with scratch() as path:
        name = os.path.join(path, FILE)
        ctrl = controller(ctx, name, count=3)
        # something of everything, so that all changes are possible
        change(ctx, ctrl.state, 1, 90)
        change(ctx, ctrl.state, 4, 91)
        n = 0
        for r in range(rounds):
            for _ in range(changes):
                change(ctx, ctrl.state, ctx.choice('change{}'.format(n), CHANGES + 1), n)
                n += 1
            ctrl.save()
            ctx.check('file', Snapshot(io.load(name)).equal(ctx, Snapshot(ctrl.state)))
            ctx.check('only the save file', os.listdir(path) == [FILE])
            ctx.check('nothing left to be saved', not ctrl.state.needs_saving)


class Steps:
    """Evaluations which take a turn of the event loop, so that there are saves in between."""

    def __init__(self, fct, turns=2):
        self.fct = fct
        self.turns = turns

    async def __call__(self, pos):
        for _ in range(self.turns):
            await asyncio.sleep(0)
        return self.fct(pos)


def search(ctx, what, mesh=(2, ), stencil=None, parallel=2, feature_size=0.6, save_delay=0., few=3, existing=False,
           bound=400, values='few', choose='each'):
    """A search which is interrupted at an arbitrary operation of one of its saves (or not at all)."""
    from nodefinder import io
    limits = [(0., 1.)]
    fct = Few(ctx, few)
    kwargs = dict(
        limits=limits, periodic=True, feature_size=feature_size, gap_threshold=0.5, initial_mesh_size=mesh,
        refinement_stencil=None if stencil is None else np.array(stencil), nelder_mead_kwargs=runs.ONE_SHOT,
        num_minimize_parallel=parallel, save_delay=save_delay
    )
    run = Run(ctx, limits=limits, periodic=True, fct=fct, stencil=stencil, feature_size=feature_size, mesh_size=mesh)
    steps = Steps(fct)
    with scratch() as path:
        name = os.path.join(path, FILE)
        if existing:
            runs.search(ctx, Steps(lambda x: 1.), save_file=name, **dict(kwargs, initial_mesh_size=1))
        old = [] if not existing else [Snapshot(io.load(name))]
        happened = []
        at = ctx.real('at', 0, bound)
        most = [-1]

        def complete(label):
            found = peek(name, io.load)
            ctx.check(label + ': can be loaded', not isinstance(found, Exception), repr(found))
            if found is None:
                ctx.check(label + ': is there', not existing and most[0] < 0)
                return None
            if most[0] < 0 and old and ctx.is_true(old[0].equal(ctx, Snapshot(found))):
                return found
            done = starting_simplices(found.result)
            ctx.check(label + ': nothing lost', len(done) >= most[0])
            most[0] = len(done)
            queued = [rows(s) for s in found.simplex_queue.objects]
            refined = [[x for x in p] for p in found.result.refined_results]
            nodes = [[x for x in r.pos] for r in found.result.nodes]
            for s in run.start + run.refinement_simplices(refined):
                number = ctx.count([same_simplex(ctx, s, t) for t in done + queued])
                ctx.check(label, ctx.any([
                    ctx.all([number >= 1, number <= 1]), ctx.all([number <= 0, run.close_vertices(s, nodes) > 0])
                ]))
            if stencil is not None:
                positions = [rows(p) for p in found.position_queue.objects]
                for n in nodes:
                    ctx.check(label + ': node is refined or queued',
                              ctx.any([run.closer(n, p) for p in positions + refined]))
            return found

        def hook(k, op, _path):
            if op in ('rename', 'replace', 'open', 'h5 open', 'remove', 'unlink', 'link'):
                complete('at every moment')
            if not happened and what is not None and ctx.is_true(ctx.all([at >= k, at < k + 1])):
                happened.append(k)
                return what
            return None

        error = None
        with Files(path, hook) as files:
            try:
                result = runs.search(ctx, steps, save_file=name, **kwargs)
            except Crash:
                error = 'crash'
            except (OSError, RuntimeError) as e:
                error = e
        if not happened:
            ctx.check('no error', error is None, repr(error))
            found = complete('in the end')
            ctx.check('final state is in the file', found is not None)
            same_container(ctx, 'final', result, found.result)
            ctx.check('final queue', bool(found.simplex_queue.finished) and not found.position_queue.has_queued)
            ctx.check('only the save file', os.listdir(path) == [FILE])
            ctx.check('number of operations', files.index <= bound)
            ctx.reach('ended')
            if files.index > 3 * 12:
                ctx.reach('several saves')
            return
        ctx.reach('interrupted')
        complete('after the interruption')
        if what == 'crash':
            return
        ctx.check('error is raised', isinstance(error, Exception) and Files.ERROR in str(error), repr(error))
        ctx.check('no other files', set(os.listdir(path)) <= {FILE})


def no_file(ctx):
    """Nothing is written without a save file."""
    cwd = os.getcwd()
    with scratch() as path:
        try:
            os.chdir(path)
            runs.search(ctx, Steps(Binary(ctx, 0, 1)), limits=[(0., 1.)], periodic=True, feature_size=0.9,
                        gap_threshold=0.5, initial_mesh_size=2, refinement_stencil=None,
                        nelder_mead_kwargs=runs.ONE_SHOT, save_delay=0.)
            ctx.check('no files', os.listdir(path) == [])
        finally:
            os.chdir(cwd)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    for what in ('crash', 'fail'):
        for existing in (False, True):
            add('{} {}'.format(what, 'with earlier file' if existing else 'without file'), interrupted,
                need=['interrupted', 'saved'], what=what, existing=existing, weight=5)
        add('{}, relative path'.format(what), interrupted, need=['interrupted', 'saved'], what=what, existing=True,
            relative=True, weight=5)
        add('search, {}'.format(what), search, need=['interrupted'], what=what, weight=9, few=1)
        add('search with earlier file, {}'.format(what), search, need=['interrupted'], what=what, existing=True,
            mesh=(1, ), few=1, weight=9)
    add('fail otherwise', interrupted, need=['interrupted', 'saved'], what='fail otherwise', existing=False)
    add('two changes between saves', not_skipped, rounds=1, changes=2)
    add('changes in several saves', not_skipped, rounds=2, changes=1)
    for delay in (0., 5.):
        add('search, delay {}'.format(delay), search, need=['ended'] + ([] if delay else ['several saves']), what=None,
            save_delay=delay, few=4)
        add('search with refinement, delay {}'.format(delay), search, need=['ended'], what=None, save_delay=delay,
            stencil=[[[1.5], [2.]]], feature_size=1.2, few=4)
    add('no file', no_file)
    if deep:
        for what in ('crash', 'fail'):
            add('{} after other changes'.format(what), interrupted, need=['interrupted', 'saved'], what=what,
                existing=True, changes=3, weight=50)
            add('search with refinement, {}'.format(what), search, need=['interrupted'], what=what, weight=50, few=2,
                stencil=[[[1.5], [2.]]], feature_size=1.2)
        add('three changes between saves', not_skipped, rounds=1, changes=3, weight=50)
        add('changes in three saves', not_skipped, rounds=3, changes=1, weight=50)
    return res + sequences(res,
        ['search, delay 5.0', 'search with refinement, delay 0.0'],
        ['no file', 'search, delay 0.0'],
    )
