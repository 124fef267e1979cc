"""C08: refinement stencils surround the node outside of the cutoff."""

import itertools
import math

import numpy as np

from symx.case import Case
from . import runs
from .c07 import det

ASSUMPTIONS = [
    'cases "any angle": cos and sin of each angle are any pair with c**2 + s**2 == 1',
    'cases "search": the stencil is observed through a search which refines a node at a symbolic position',
]


def check_stencil(ctx, stencil, dim, count=None):
    ctx.check('shape', np.ndim(stencil) == 3 and np.shape(stencil)[1:] == (dim + 1, dim))
    ctx.check('not empty', len(stencil) > 0)
    if count is not None:
        ctx.check('number of simplices', len(stencil) == count)
    for s in stencil:
        rows = [[x for x in v] for v in s]
        for v in rows:
            total = 0.
            for x in v:
                total = total + x * x
            ctx.check('outside of the cutoff', total > 1)
        edges = [[a - b for a, b in zip(v, rows[0])] for v in rows[1:]]
        d = det(edges)
        ctx.check('not degenerate', ctx.any([d > 1e-9, d < -1e-9]))


def auto(ctx, dim):
    from nodefinder.search.refinement_stencil import get_auto_stencil
    check_stencil(ctx, get_auto_stencil(dim=dim), dim)


def circle(ctx, points):
    from nodefinder.search import refinement_stencil
    for n in points:
        check_stencil(ctx, refinement_stencil.get_circle_stencil(num_points=n), 2, n)


class AnyAngle:
    """numpy with arbitrary values of cos and sin"""

    def __init__(self, ctx, base):
        self._base = base
        self._ctx = ctx
        self._known = {}

    def _pair(self, phi):
        phi = float(phi)
        if phi not in self._known:
            k = len(self._known)
            c, s = self._ctx.real('c{}'.format(k), -1, 1), self._ctx.real('s{}'.format(k), -1, 1)
            self._ctx.assume(c * c + s * s == 1)
            self._known[phi] = (c, s)
        return self._known[phi]

    def cos(self, phi):
        return self._pair(phi)[0] if np.ndim(phi) == 0 else self._base.cos(phi)

    def sin(self, phi):
        return self._pair(phi)[1] if np.ndim(phi) == 0 else self._base.sin(phi)

    def __getattr__(self, name):
        return getattr(self._base, name)


def circle_any_angle(ctx, num_points):
    from nodefinder.search import refinement_stencil
    base = refinement_stencil.np
    if ctx.symbolic:
        refinement_stencil.np = AnyAngle(ctx, base)
    try:
        stencil = refinement_stencil.get_circle_stencil(num_points=num_points)
    finally:
        refinement_stencil.np = base
    check_stencil(ctx, stencil, 2, num_points)


def mesh(ctx, mesh_size, multiplier=None):
    from nodefinder.search.refinement_stencil import get_mesh_stencil
    dim = len(mesh_size)
    if multiplier is None:
        multiplier = ctx.real('multiplier', 0.125, 8)
        stencil = get_mesh_stencil(mesh_size=list(mesh_size), dist_multiplier=multiplier)
    elif multiplier == 'default':
        stencil = get_mesh_stencil(mesh_size=list(mesh_size))
        multiplier = 2.5
    axes = [[2 * multiplier * k / (m - 1) - multiplier if k else -multiplier for k in range(m)] for m in mesh_size]
    points = [p for p in itertools.product(*axes) if not ctx.is_true(ctx.all([ctx.close(x, 0.) for x in p]))]
    ctx.check('number of simplices', len(stencil) == len(points))
    hits = []
    for s in stencil:
        ctx.check('dim + 1 vertices', np.shape(s) == (dim + 1, dim))
        edges = [[s[k][i] - s[0][i] for i in range(dim)] for k in range(1, dim + 1)]
        ctx.check('not degenerate', det(edges) != 0)
        at = [k for k, p in enumerate(points) if ctx.is_true(ctx.any([ctx.close(list(v), list(p)) for v in s]))]
        ctx.check('starts at one mesh point', len(at) == 1)
        hits.append(at[0])
    ctx.check('all mesh points', sorted(hits) == list(range(len(points))))


def refined(ctx, dim, periodic, size, feature, pos):
    """No simplex of the stencil is discarded because of the node itself."""
    from nodefinder.search.refinement_stencil import get_auto_stencil
    feature = ctx.real('feature', *feature) if isinstance(feature, tuple) else feature
    # constant components are written as numbers
    pos = ctx.array([ctx.real('pos{}'.format(i), *p) if isinstance(p, tuple) else p for i, p in enumerate(pos)])
    # the first simplex ends at pos, which becomes a node
    first = [[x for x in pos]]
    for i in range(dim):
        first.append([x + (0.0625 if i == j else 0) for j, x in enumerate(first[0])])

    def gap(x):
        if ctx.is_true(ctx.all([ctx.close(a, b) for a, b in zip(x, pos)])):
            return 0.
        return 1.

    result = runs.search(
        ctx, gap, limits=[(-size, size)] * dim, periodic=periodic,
        initial_state=make_state(ctx, dim, periodic, size, [first]), gap_threshold=0.5,
        feature_size=feature, nelder_mead_kwargs=runs.ONE_SHOT, recheck_pos_dist=True
    )
    ctx.check('one node', len(result.nodes) == 1)
    ctx.check(
        'all simplices of the stencil are minimized',
        len(result.minimization_results) == 1 + len(get_auto_stencil(dim=dim))
    )
    for r in result.rejected_results:
        for v in r.simplex_history[0]:
            d2 = 0.
            for a, b in zip(v, pos):
                d2 = d2 + (a - b)**2
            ctx.check('outside of the cutoff', d2 * 9 > feature * feature)


def make_state(ctx, dim, periodic, size, simplices):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer, ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    result = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=[(-size, size)] * dim, periodic=periodic), gap_threshold=0.5,
        dist_cutoff=2. * size
    )
    return ControllerState(
        result=result, simplex_queue=SimplexQueue(objects=simplices), position_queue=PositionQueue()
    )


def cases(tier):
    deep = tier == 'thorough'
    res = []
    for dim in range(1, 6 if deep else 5):
        res.append(Case('auto dim={}'.format(dim), auto, params=dict(dim=dim), need=['outside of the cutoff'],
                        bounds='constant', weight=dim**2))
    for points in (range(1, 21), range(21, 41)) + ((range(41, 101), range(101, 201)) if deep else ()):
        res.append(Case('circle {} to {} points'.format(points[0], points[-1]), circle,
                        params=dict(points=list(points)), need=['outside of the cutoff'], bounds='constant', weight=5))
    for n in (1, 2, 3, 4, 5, 7, 12, 30) + ((60, 100) if deep else ()):
        res.append(Case('circle any angle {} points'.format(n), circle_any_angle, params=dict(num_points=n),
                        need=['outside of the cutoff'], bounds='arbitrary rotations'))
    for m in ((1, ), (2, ), (3, ), (4, ), (5, ), (2, 2), (3, 3), (1, 3), (3, 2), (3, 3, 3), (2, 2, 2)) + (
        ((9, ), (4, 5), (5, 5), (3, 4, 2)) if deep else ()
    ):
        res.append(Case('mesh {}'.format(m), mesh, params=dict(mesh_size=m), need=['all mesh points'], weight=len(m),
                        bounds='symbolic dist_multiplier in [1/8, 8]'))
    for m in ((3, ), (3, 3), (2, 3, 3)):
        res.append(Case('mesh default {}'.format(m), mesh, params=dict(mesh_size=m, multiplier='default'),
                        need=['all mesh points'], bounds='constant'))
    for dim, periodic, size, feature, pos in (
        (1, True, 8, (1, 1.125), [(-1, 1)]), (1, False, 8, (1, 1.125), [(-1, 1)]), (1, False, 1, (15, 30), [(-1, 1)]),
        (1, True, 8, 1.5, [(-8, 8)]),
        (2, True, 8, 1.5, [(0.125, 0.1875)] * 2), (2, True, 8, (1.5, 1.53125), [0., 0.]),
        (2, True, 8, 1.5, [(-0.5, 0.5), 0.25]), (2, False, 1, 18., [(-1, 1), 0.25]),
        (3, True, 8, 1.5, [(0.125, 0.15625), 0.14, 0.14]), (3, True, 8, 1.5, [0.14, 7.99, (-8, -7.95)]),
        (3, False, 1, 18., [0.25, -0.5, (-0.0625, 0.0625)]),
    ) + (((2, False, 1, 18., [(-1, 1)] * 2), (3, True, 8, 1.5, [(0.125, 0.15625)] * 3)) if deep else ()):
        res.append(Case(
            'search dim={} periodic={} feature={} pos={}'.format(dim, periodic, feature, pos), refined,
            params=dict(dim=dim, periodic=periodic, size=size, feature=feature, pos=pos),
            need=['outside of the cutoff'], weight=dim * 10, budget=300,
            bounds='node in {} (each component), feature size in {}, box [-{}, {}]**dim'.format(pos, feature, size, size)
        ))
    return res
