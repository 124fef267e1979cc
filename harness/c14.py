"""C14: every node gets refined, and no neighbourhood twice."""

from symx.case import Case
from .common import equivalent, sequences
from .searching import Run, Band, Binary, Inside, Few, FewAt, same_simplex, starting_simplices

ASSUMPTIONS = [
    'minimizations end with their initial simplex (tolerances infinite), so a search is determined by the values at '
    'the vertices; minimizations themselves are the subject of C10 to C12',
    'equal positions have equal function values; the value is 0 (node) or 1',
    'the grid cells of the node container are the subject of C05',
]


def refine(ctx, symbolic=None, few=None, width=None, mode='default', open_values=False, grid=None, **kwargs):
    limits = [tuple(float(x) for x in lim) for lim in kwargs['limits']]
    kwargs['limits'] = limits
    if few == 'first':
        fct = FewAt(ctx, ())
    elif few is not None:
        fct = Few(ctx, few)
    elif width is not None:
        fct = Band(ctx, width, kwargs['periodic'])
    elif open_values:
        fct = Inside(ctx, limits)
    else:
        fct = Binary(ctx, 0, 1)
    if grid is not None:
        kwargs['waits'] = lambda pos: all(abs(float(x) * grid - round(float(x) * grid)) < 1e-6 for x in pos)
    options = dict(kwargs.pop('kwargs', {}))
    if mode == 'no recheck':
        options['recheck_pos_dist'] = False
    elif mode != 'default':
        options['recheck_count_cutoff'] = int(mode)
    if symbolic is not None:
        kwargs['simplices'] = [
            [[ctx.real('s{}_{}{}'.format(i, j, k), *limits[k]) if x is None else float(x) for k, x in enumerate(v)]
             for j, v in enumerate(s)] for i, s in enumerate(symbolic)
        ]
        for k, s in enumerate(kwargs['simplices']):
            for t in kwargs['simplices'][:k]:
                ctx.assume(ctx.not_(same_simplex(ctx, s, t)))
    if few == 'first':
        fct.positions = [s[0] for s in kwargs['simplices']]
    run = Run(ctx, fct=fct, kwargs=options, **kwargs)
    result = run.run()
    nodes = [[x for x in r.pos] for r in result.nodes]
    refined = run.refined()
    if run.stencil is None:
        ctx.check('nothing is refined', not refined)
        ctx.check('only the initial simplices', len(result.nodes) + len(result.rejected_results) <= len(run.start))
        ctx.reach('no stencil')
        return
    if nodes:
        ctx.reach('node')
    for n in nodes:
        ctx.check('node is close to a refined position',
                  ctx.any([run.closer(n, p) for p in refined]))
    for p in refined:
        ctx.check('refined position is a node', ctx.any([equivalent(ctx, n, p, limits, run.periodic) for n in nodes]))
        ctx.check('refined position is the position of a node', ctx.any([ctx.close(n, p) for n in nodes]))
    for i, p in enumerate(refined):
        for q in refined[:i]:
            ctx.reach('several refined')
            if mode == 'default':
                ctx.check('refined positions are apart', ctx.not_(run.closer(p, q, -1)))
    if len(nodes) > len(refined):
        ctx.reach('not refined again')
    # refining means minimizing the simplices of the stencil
    minimized = starting_simplices(result)
    for p in refined:
        for s in run.refinement_simplices([p]):
            ctx.check('stencil has been processed', ctx.any(
                [same_simplex(ctx, s, t) for t in minimized] + [run.close_vertices(s, nodes) > run.check_cutoff]
            ))
    # whatever else has been minimized than the initial simplices belongs to a refined position
    for t in minimized:
        ctx.check('minimized simplex belongs to a refined position', ctx.any(
            [same_simplex(ctx, s, t) for s in run.start + run.refinement_simplices()]
        ))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, need=(), weight=1, **params):
        res.append(Case(name, refine, params=params, need=['node'] + list(need) if params.get('stencil') else need,
                        budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    unit = [(0, 1)]
    right = [[[1.5], [2.]]]
    both = [[[1.5], [2.]], [[-1.5], [-2.]]]
    two = [[[None], [0.25]], [[None], [0.75]]]
    many = ['several refined', 'not refined again']
    add('no stencil', need=['no stencil'], limits=unit, periodic=True, mesh_size=(3, ), stencil=None, parallel=2,
        feature_size=0.3)
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        for parallel in (1, 3):
            add('1D mesh, {}, {} parallel'.format(word, parallel), limits=unit, periodic=periodic, mesh_size=(2, ),
                stencil=both, parallel=parallel, feature_size=0.9 if periodic else 1.5, open_values=not periodic,
                need=['several refined'], weight=5)
        add('1D arbitrary, {}, one at a time'.format(word), limits=unit, periodic=periodic, symbolic=two, stencil=right,
            parallel=1, feature_size=1.2, few='first', weight=10, need=['several refined', 'not refined again'],
            check_cutoff=2)
        for mode in ('default', 'no recheck', '1'):
            add('1D arbitrary, {}, {}'.format(word, mode), limits=unit, periodic=periodic, symbolic=two, stencil=right,
                parallel=2, feature_size=1.2, few='first', mode=mode, weight=10, need=['several refined', 'not refined again'] if mode == 'default' else [],
                check_cutoff=2)
        add('1D {}, exactly'.format(word), limits=unit, periodic=periodic, symbolic=[[[0.5], [0.5625]], [[None], [0.9375]]],
            stencil=right, parallel=1, feature_size=0.75, few='first', check_cutoff=2, tol=0., weight=3, need=many)
    for parallel in (2, 3):
        add('1D mesh, order of completion, {} parallel'.format(parallel), limits=unit, periodic=True, mesh_size=(2, ),
            stencil=right, schedule=True, parallel=parallel, feature_size=1.2, weight=9, check_cutoff=2, few=4, grid=2,
            need=['not refined again'])
    add('2D mesh', limits=unit * 2, periodic=True, mesh_size=(2, 1), parallel=2, feature_size=1.35, few=7, weight=9,
        check_cutoff=3, stencil=[[[1.5, 0.], [2., 0.], [1.5, 0.5]]])
    add('2D arbitrary', limits=unit * 2, periodic=True, parallel=2, feature_size=1.35, few='first', weight=9, check_cutoff=3,
        symbolic=[[[0.25, 0.25], [0.5, 0.5], [0.25, 0.5]], [[None, 0.3], [0.75, 0.5], [0.25, 0.75]]],
        stencil=[[[1.5, 0.], [2., 0.], [1.5, 0.5]]])
    add('1D automatic stencil', limits=unit, periodic=True, mesh_size=(2, ), parallel=2, feature_size=0.9, few=5,
        weight=5, stencil='auto')
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('band 1D, {}'.format(word), need=many, limits=unit, periodic=periodic, mesh_size=(14, ), parallel=4,
            width=(0.15, 0.3), stencil='auto', feature_size=0.3)
        add('band 2D, {}'.format(word), need=many if periodic else many[:1], limits=unit * 2, periodic=periodic, mesh_size=(5, 6), parallel=3,
            width=(0.08, 0.11), stencil='auto', feature_size=0.8)
    if deep:
        add('2D both arbitrary', limits=unit * 2, periodic=True, parallel=2, feature_size=1.35, few='first', weight=90,
            symbolic=[[[0.25, 0.25], [0.5, 0.5], [0.25, 0.5]], [[None, None], [0.75, 0.5], [0.25, 0.75]]],
            stencil=[[[1.5, 0.], [2., 0.], [1.5, 0.5]]], check_cutoff=3)
        add('1D mesh three, order of completion', limits=unit, periodic=True, mesh_size=(3, ), need=many,
            stencil=both, schedule=True, parallel=2, feature_size=0.9, weight=50, check_cutoff=2, few=5)
        add('1D arbitrary three', limits=unit, periodic=True, symbolic=two + [[[None], [0.5]]], stencil=right,
            parallel=3, feature_size=1.2, few=7, weight=50, need=many, check_cutoff=2)
        add('1D arbitrary, both vertices', limits=unit, periodic=True, symbolic=[[[None], [None]], [[None], [0.75]]],
            stencil=right, parallel=2, feature_size=1.2, few=5, weight=50, check_cutoff=2)
    return res + sequences(res,
        ['1D mesh, open, 1 parallel', '1D automatic stencil'],
        ['band 1D, open', '1D mesh, open, 3 parallel'],
        ['band 1D, periodic', '1D automatic stencil'],
    )
