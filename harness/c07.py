"""C07: the initial mesh covers the whole box evenly."""

import itertools

import numpy as np

from symx.case import Case
from .common import sequences
from . import runs

ASSUMPTIONS = ['the simplices are observed as the starting simplices of the minimizations of a search']


def det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    total = 0.
    for j in range(n):
        minor = [[x for k, x in enumerate(row) if k != j] for row in rows[1:]]
        total = total + (-1)**j * rows[0][j] * det(minor)
    return total


def as_kind(mesh_size, kind):
    if kind == 'array':
        return np.array(mesh_size)
    if kind == 'list':
        return list(mesh_size)
    if kind == 'numpy':
        return np.int64(mesh_size) if isinstance(mesh_size, int) else tuple(np.int32(m) for m in mesh_size)
    return mesh_size


def starting_simplices(ctx, limits, periodic, mesh_size):
    result = runs.search(
        ctx, lambda pos: 1., limits=limits, periodic=periodic, initial_mesh_size=mesh_size, gap_threshold=0.5,
        feature_size=50., refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT
    )
    return [r.simplex_history[0] for r in result.minimization_results]


def mesh(ctx, dim, periodic, mesh_size, kind, swap, expect=None, given_as=None):
    if kind == 'sym':
        limits = []
        for i in range(dim):
            lo = ctx.real('lower{}'.format(i), -4, 4)
            limits.append((lo, lo + ctx.real('size{}'.format(i), 0.25, 4)))
    else:
        limits = [tuple(float(x) for x in lim) for lim in kind]
    given = [lim[::-1] if swap else lim for lim in limits]
    simplices = starting_simplices(ctx, given, periodic, as_kind(mesh_size, given_as))
    sizes = expect or mesh_size
    axes = []
    for (lo, hi), m in zip(limits, sizes):
        if periodic:
            axes.append([lo + (hi - lo) * k / m for k in range(m)])
        else:
            axes.append([lo + (hi - lo) * k / (m - 1) if k else lo for k in range(m)])
    points = list(itertools.product(*axes))
    ctx.check('number of simplices', len(simplices) == len(points))
    hits = []
    for s in simplices:
        ctx.check('dim + 1 vertices', np.shape(s) == (dim + 1, dim))
        edges = [[s[k][i] - s[0][i] for i in range(dim)] for k in range(1, dim + 1)]
        ctx.check('not degenerate', det(edges) != 0)
        at = [
            k for k, p in enumerate(points)
            if ctx.is_true(ctx.any([ctx.close(list(v), list(p)) for v in s]))
        ]
        hits.append(at)
        ctx.check('starts at one mesh point', len(at) == 1)
    ctx.check('all mesh points', sorted(at[0] for at in hits) == list(range(len(points))))


def refused(ctx, dim, mesh_size):
    lo = ctx.real('lower', -4, 4)
    limits = [(lo, lo + ctx.real('size', 0.25, 4))] + [(0., 1.)] * (dim - 1)
    periodic = ctx.lazy_bool('periodic')
    calls = []
    try:
        runs.search(
            ctx, lambda pos: calls.append(pos) or 1., limits=limits, periodic=periodic, initial_mesh_size=mesh_size,
            gap_threshold=0.5, feature_size=50., refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT
        )
    except ValueError:
        ctx.check('nothing evaluated', not calls)
        ctx.reach('refused')
        return
    ctx.fail('wrong mesh size refused with ValueError')


def rounded(ctx, m, periodic):
    """The mesh in double-precision arithmetic"""
    hi = ctx.double('upper', 1., 2.)
    controller = make_controller([(0., hi)], periodic, 1)
    make = getattr(controller, 'get_initial_simplices', None)
    if make is not None:
        simplices = list(make((m, )))
    else:
        simplices = list(make_controller([(0., hi)], periodic, (m, )).state.simplex_queue.objects)
    ctx.check('number of simplices in double precision', len(simplices) == m)
    for i, s in enumerate(simplices):
        ctx.check('dim + 1 vertices', np.shape(s) == (2, 1))
        if periodic and i in (0, m - 1):
            ctx.check('in front of the upper limit', ctx.any([s[0][0] < hi, s[1][0] < hi]))


def make_controller(limits, periodic, mesh_size):
    from nodefinder.search._controller import Controller
    return Controller(
        gap_fct=lambda pos: 1., limits=limits, periodic=periodic, initial_state=None, save_file=None, load=False,
        load_quiet=False, initial_mesh_size=mesh_size, force_initial_mesh=False, gap_threshold=0.5, feature_size=50.,
        refinement_stencil=None, nelder_mead_kwargs=runs.ONE_SHOT, num_minimize_parallel=1
    )


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(periodic, mesh_size, dim, kind='sym', swap=False, expect=None, given_as=None):
        res.append(Case(
            'mesh {}{} dim={} periodic={}{}{}'.format(
                mesh_size if not isinstance(mesh_size, int) else 'int {}'.format(mesh_size), '' if given_as is None else ' as ' + given_as, dim, periodic,
                ' swapped' if swap else '', '' if kind == 'sym' else ' constant'
            ), mesh, params=dict(dim=dim, periodic=periodic, mesh_size=mesh_size, kind=kind, swap=swap, expect=expect,
                               given_as=given_as),
            need=['not degenerate', 'all mesh points'], budget=600, weight=int(np.prod(expect or mesh_size)) * dim,
            bounds='limits {}, sizes in [1/4, 4], mesh {}'.format(kind, mesh_size)
        ))

    for periodic in (True, False):
        for m in (1, 2, 3, 4, 5, 7, 10) if deep else (1, 2, 3, 5, 10):
            add(periodic, (m, ), 1)
        add(periodic, 3, 1, expect=(3, ))
        add(periodic, (3, ), 1, swap=True)
        for m in ((1, 2), (2, 3), (3, 2), (3, 3)) + (((4, 3), (2, 5)) if deep else ()):
            add(periodic, m, 2)
        add(periodic, 2, 2, expect=(2, 2))
        add(periodic, 3, 2, expect=(3, 3), given_as='numpy')
        for given_as in ('numpy', 'list', 'array'):
            add(periodic, (2, 3), 2, given_as=given_as)
            add(periodic, (3, ), 1, given_as=given_as)
        add(periodic, (2, 3), 2, swap=True)
        for m in ((2, 1, 2), (1, 2, 3)) + (((2, 2, 2), (3, 2, 2)) if deep else ()):
            add(periodic, m, 3)
        add(periodic, 2, 3, expect=(2, 2, 2), kind=[(0, 1), (-1, 1), (2, 5)])
        add(periodic, 10, 2, expect=(10, 10), kind=[(0, 1), (-1, 1)])
        add(periodic, (40, ), 1, kind=[(-1, 2)])
        add(periodic, (1, 2, 1, 2), 4, kind=[(0, 1), (-1, 1), (2, 5), (0, 1)])
        add(periodic, (4, 3, 5), 3, kind=[(0, 1), (-1, 1), (2, 5)])
        if deep:
            add(periodic, (2, 1, 2, 1), 4, kind=[(0, 1), (-1, 1), (2, 5), (0, 1)])
    for m in (7, 49) + ((3, 13, 5, 11, 23, 47, 98) if deep else ()):
        for periodic in (True, ) + ((False, ) if deep else ()):
            res.append(Case('rounding {} periodic={}'.format(m, periodic), rounded, params=dict(m=m, periodic=periodic),
                            opts={'fp': 'exact', 'fallback_timeout': 100000}, need=['number of simplices in double precision'],
                            budget=400, weight=50,
                            bounds='limits from 0 to any double in [1, 2], mesh size {}'.format(m)))
    for dim, m in ((1, (2, 2)), (2, (2, )), (2, (2, 2, 2)), (3, (2, 2)), (1, ())):
        res.append(Case('refused dim={} mesh={}'.format(dim, m), refused, params=dict(dim=dim, mesh_size=m),
                        need=['refused'], bounds='symbolic limits, periodic or not'))
    return res + sequences(res,
        ['mesh (2,) dim=1 periodic=True', 'mesh (2, 3) dim=2 periodic=False', 'mesh (3,) dim=1 periodic=False',
         'mesh int 3 dim=1 periodic=True'],
        ['mesh (2, 3) dim=2 periodic=True', 'mesh (3, 2) dim=2 periodic=False', 'mesh int 2 dim=2 periodic=True'],
    )
