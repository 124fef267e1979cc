"""C13: a search processes every starting simplex exactly once."""

from symx.case import Case
from .common import sequences
from . import runs
from .searching import Run, Binary, Inside, Band, same_simplex, starting_simplices

ASSUMPTIONS = [
    'minimizations end with their initial simplex (tolerances infinite), so a search is determined by the values at '
    'the vertices; minimizations themselves are the subject of C10 to C12',
    'equal positions have equal function values',
]


def process(ctx, values='real', symbolic=None, grid=None, width=None, **kwargs):
    fct = {
        'binary': lambda: Binary(ctx, 0, 1),
        'inside': lambda: Inside(ctx, kwargs['limits']),
        'band': lambda: Band(ctx, width, kwargs['periodic']),
        'real': lambda: runs.Function(ctx, 0, 1),
    }[values]()
    if grid is not None:
        # only the evaluations at multiples of 1 / grid take time
        kwargs['waits'] = lambda pos: all(abs(float(x) * grid - round(float(x) * grid)) < 1e-6 for x in pos)
    if symbolic is not None:
        limits = kwargs['limits']
        kwargs['simplices'] = [
            [[ctx.real('s{}_{}{}'.format(i, j, k), *limits[k]) if x is None else float(x) for k, x in enumerate(v)]
             for j, v in enumerate(s)] for i, s in enumerate(symbolic)
        ]
        for k, s in enumerate(kwargs['simplices']):
            for t in kwargs['simplices'][:k]:
                ctx.assume(ctx.not_(same_simplex(ctx, s, t)))
    run = Run(ctx, fct=fct, **kwargs)
    result = run.run()
    minimized = starting_simplices(result)
    start = list(run.start)
    for s in run.refinement_simplices():
        # the same simplex may come from two positions
        if not any(ctx.is_true(same_simplex(ctx, s, t)) for t in start):
            start.append(s)
            ctx.reach('refinement')
    nodes = [[x for x in r.pos] for r in result.nodes]
    left = list(range(len(minimized)))
    for s in start:
        hits = [k for k in left if ctx.is_true(same_simplex(ctx, minimized[k], s))]
        ctx.check('minimized at most once', len(hits) <= 1)
        if hits:
            left.remove(hits[0])
            ctx.reach('minimized')
        else:
            ctx.check('skipped because of nodes', run.close_vertices(s, nodes) > run.check_cutoff)
            ctx.reach('skipped')
    ctx.check('nothing else is minimized', not left)
    ctx.check('recorded exactly once', len(result.nodes) + len(result.rejected_results) == len(minimized))
    ctx.check('evaluations', len(fct.calls) == (run.dim + 1) * len(minimized))
    if run.schedule is not None:
        ctx.check('nothing is left running', not run.schedule.pending)
        ctx.check('parallel minimizations', run.schedule.max_pending <= run.parallel * (run.dim + 1))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, need=(), weight=1, **params):
        res.append(Case(name, process, params=params, need=['minimized'] + list(need), budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    both = [[[1.5], [2.]], [[-1.5], [-2.]]]
    for parallel in (1, 2, 3):
        add('mesh 1D, order of completion, {} parallel'.format(parallel), limits=[(0, 1)], periodic=True,
            mesh_size=(3, ), schedule=True, parallel=parallel, feature_size=0.3, values='binary', weight=5,
            grid=None if parallel == 1 else 3)
    add('mesh 1D, nodes close to other simplices', need=['skipped'], limits=[(0, 1)], periodic=True, mesh_size=(3, ),
        schedule=True, parallel=1, feature_size=0.9, values='binary', weight=5)
    add('mesh 1D, nodes close, two parallel', need=['skipped'], limits=[(0, 1)], periodic=False, mesh_size=(3, ),
        schedule=True, parallel=2, feature_size=1.2, values='binary', grid=2, weight=8)
    add('mesh 1D, batches', need=['skipped'], limits=[(0, 1)], periodic=True, mesh_size=(3, ), schedule=True,
        batches=True, parallel=2, feature_size=0.9, values='binary', grid=3, weight=9)
    for cc in (1, 2):
        add('mesh 1D, check cutoff {}'.format(cc), need=['skipped'] if cc == 1 else [], limits=[(0, 1)], periodic=True,
            mesh_size=(4, ), parallel=1, feature_size=1.2, values='binary', check_cutoff=cc, weight=3)
    add('mesh 1D, real values', need=['skipped'], limits=[(0, 1)], periodic=True, mesh_size=(4, ), parallel=2,
        feature_size=0.9, values='real', weight=5)
    add('mesh 2D', need=['skipped'], limits=[(0, 1), (0, 1)], periodic=True, mesh_size=(2, 2), parallel=1,
        feature_size=1.5, values='binary', weight=5)
    add('mesh 2D, check cutoff', limits=[(0, 1), (0, 1)], periodic=False, mesh_size=(2, 2), parallel=2,
        feature_size=1.5, values='inside', check_cutoff=1, weight=5)
    add('arbitrary simplices 1D', need=['skipped'], limits=[(0, 1)], periodic=True,
        symbolic=[[[None], [0.25]], [[None], [0.75]]], parallel=1, feature_size=0.6, values='binary', weight=8)
    add('arbitrary simplices 1D, open', need=['skipped'], limits=[(0, 1)], periodic=False,
        symbolic=[[[None], [0.25]], [[None], [0.75]]], parallel=1, feature_size=0.6, values='binary', weight=8)
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('exactly, {}'.format(word), need=['skipped'], limits=[(0, 1)], periodic=periodic, parallel=1, tol=0.,
            symbolic=[[[0.5], [0.5625]], [[None], [0.9375]]], feature_size=0.75, values='binary', weight=3)
        add('exactly, {}, check cutoff'.format(word), need=['skipped'], limits=[(0, 1)], periodic=periodic, parallel=1,
            tol=0., symbolic=[[[0.5], [0.5625]], [[None], [0.625]]], feature_size=0.75, values='binary', weight=3,
            check_cutoff=1)
    add('refinement 1D', need=['refinement'], limits=[(0, 1)], periodic=True, mesh_size=(1, ),
        stencil=both, parallel=3, feature_size=0.9, values='binary', weight=9)
    add('refinement 1D, open', need=['refinement'], limits=[(0, 1)], periodic=False, mesh_size=(2, ),
        stencil=both, parallel=1, feature_size=1.5, values='inside', weight=9)
    add('refinement, order of completion', need=['refinement'], limits=[(0, 1)], periodic=True, mesh_size=(1, ),
        stencil=both[:1], parallel=2, schedule=True, feature_size=0.9, values='binary', weight=9)
    add('refinement 2D', need=['refinement'], limits=[(0, 1), (0, 1)], periodic=True, mesh_size=(1, 1),
        stencil=[[[1.5, 0.], [2., 0.], [1.5, 0.5]]], parallel=2, feature_size=1.35, values='binary', weight=9)
    auto = ['skipped', 'refinement']
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('band 1D, {}'.format(word), need=auto, limits=[(0, 1)], periodic=periodic, mesh_size=(14, ), parallel=4,
            values='band', width=(0.15, 0.3), stencil='auto', feature_size=0.3)
        add('band 2D, {}'.format(word), need=auto, limits=[(0, 1), (0, 1)], periodic=periodic, mesh_size=(5, 6),
            parallel=3, values='band', width=(0.08, 0.11), stencil='auto', feature_size=0.8)
        add('band 3D, {}'.format(word), need=['minimized'], limits=[(0, 1), (0, 1), (0, 1)], periodic=periodic,
            mesh_size=(3, 2, 4), parallel=50, values='band', width=(0.05, 0.15), check_cutoff=2, feature_size=1.2)
    if deep:
        add('mesh 1D, all orders, 3 parallel', limits=[(0, 1)], periodic=True, mesh_size=(3, ), schedule=True,
            parallel=3, feature_size=0.3, values='binary', weight=99)
        add('mesh 1D, all batches', need=['skipped'], limits=[(0, 1)], periodic=True, mesh_size=(3, ), schedule=True,
            batches=True, parallel=2, feature_size=0.9, values='binary', weight=99)
        for parallel in (1, 2, 4):
            add('mesh 1D four, order of completion, {} parallel'.format(parallel), limits=[(0, 1)], periodic=True,
                mesh_size=(4, ), schedule=True, parallel=parallel, feature_size=0.9, values='binary', weight=50)
        add('mesh 2D three', need=['skipped'], limits=[(0, 1), (0, 1)], periodic=True, mesh_size=(3, 2), parallel=1,
            feature_size=1.2, values='binary', weight=50)
        add('mesh 1D six, real values', need=['skipped'], limits=[(0, 1)], periodic=True, mesh_size=(6, ), parallel=2,
            feature_size=0.5, values='real', weight=50)
        add('refinement 1D, smaller cutoff', need=['refinement'], limits=[(0, 1)], periodic=True, mesh_size=(1, ),
            stencil=both, parallel=3, feature_size=0.7, values='binary', weight=50)
    return res + sequences(res,
        ['refinement 2D', 'refinement 1D, open'],
        ['band 1D, open', 'refinement 2D'],
    )
