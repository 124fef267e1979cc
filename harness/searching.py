"""Searches with symbolic function values, geometry and completion order."""

import itertools

import numpy as np

from . import runs
from .common import ref_distance, closer


class Binary(runs.Function):
    """Function which is 0 (a node) or 1 at each distinct position."""

    def value(self, pos):
        pos = [x for x in pos]
        for p, v in self.known:
            if self.ctx.is_true(self.ctx.all([a == b for a, b in zip(p, pos)])):
                return v
        v = 0. if self.ctx.lazy_bool('node{}'.format(len(self.known))) else 1.
        self.known.append((pos, v))
        return v


class Inside(Binary):
    """Function which is 0 or 1 within some limits and 1 outside."""

    def __init__(self, ctx, limits):
        super().__init__(ctx, 0, 1)
        self.limits = limits

    def value(self, pos):
        for x, (lo, hi) in zip(pos, self.limits):
            if self.ctx.is_true(self.ctx.any([x < lo, x > hi])):
                return 1.
        return super().value(pos)


class Few(Binary):
    """Function which is 0 or 1 at the first few distinct positions and 1 elsewhere."""

    def __init__(self, ctx, count):
        super().__init__(ctx, 0, 1)
        self.count = count

    def value(self, pos):
        if len(self.known) >= self.count:
            pos = [x for x in pos]
            for p, v in self.known:
                if self.ctx.is_true(self.ctx.all([a == b for a, b in zip(p, pos)])):
                    return v
            return 1.
        return super().value(pos)


class FewAt(Binary):
    """Function which is 0 or 1 at given positions and 1 elsewhere."""

    def __init__(self, ctx, positions):
        super().__init__(ctx, 0, 1)
        self.positions = positions

    def value(self, pos):
        for p in self.positions:
            if self.ctx.is_true(self.ctx.all([a == b for a, b in zip(p, pos)])):
                return super().value(pos)
        return 1.


class Band(runs.Function):
    """Function which is 0 within a band (of symbolic width) in the middle of the unit box and 1 elsewhere."""

    def __init__(self, ctx, width, periodic, axis=-1):
        super().__init__(ctx, 0, 1)
        self.periodic = periodic
        self.width = ctx.real('width', *width)
        self.axis = axis

    def value(self, pos):
        if not self.periodic and any(self.ctx.is_true(self.ctx.any([x < 0, x > 1])) for x in pos):
            return 1.
        return 0. if self.ctx.is_true(abs(pos[self.axis] % 1 - 0.5) <= self.width) else 1.


class OnlyAt(runs.Function):
    """Function which is 0 at given positions and 1 elsewhere."""

    def __init__(self, ctx, positions, tol=1e-9):
        super().__init__(ctx, 0, 1)
        self.positions = positions
        self.tol = tol

    def value(self, pos):
        for p in self.positions:
            if self.ctx.is_true(self.ctx.all([abs(a - b) <= self.tol for a, b in zip(p, pos)])):
                return 0.
        return 1.


def mesh_simplices(limits, periodic, mesh_size):
    """The initial mesh (C07): mesh points and offsets of half of the spacing."""
    dim = len(limits)
    axes, offs = [], []
    for (lo, hi), m in zip(limits, mesh_size):
        n = m if periodic else max(m - 1, 1)
        axes.append([lo + (hi - lo) * k / n for k in range(m)])
        offs.append((hi - lo) / (2 * m))
    res = []
    for p in itertools.product(*axes):
        rows = [list(p)]
        for i in range(dim):
            rows.append([x + (offs[i] if i == j else 0.) for j, x in enumerate(p)])
        res.append(rows)
    return res


def same_simplex(ctx, a, b):
    """Same vertices in any order (condition)."""
    if len(a) != len(b):
        return False
    return ctx.any([
        ctx.all([ctx.close(x, b[k]) for x, k in zip(a, perm)]) for perm in itertools.permutations(range(len(b)))
    ])


class Run:
    """A search, and what it should have done."""

    def __init__(self, ctx, *, limits, periodic, fct, stencil=None, schedule=False, batches=False, waits=None, parallel=50,
                 feature_size=0.9, simplices=None, mesh_size=None, check_cutoff=0, threshold=0.5, kwargs=None,
                 positions=(), known=(), refined=(), tol=1e-9):
        self.ctx = ctx
        self.tol = tol
        self.limits = [tuple(float(x) for x in lim) for lim in limits]
        self.periodic = periodic
        self.dim = len(limits)
        self.fct = fct
        self.cutoff = feature_size / 3
        if isinstance(stencil, str):
            from nodefinder.search.refinement_stencil import get_auto_stencil
            self.stencil = [[[float(x) for x in v] for v in s] for s in get_auto_stencil(dim=self.dim)]
        else:
            self.stencil = stencil
        self.check_cutoff = check_cutoff
        self.parallel = parallel
        self.schedule = runs.Schedule(ctx, fct, batches=batches, waits=waits) if schedule else None
        args = dict(
            limits=self.limits, periodic=periodic, feature_size=feature_size, gap_threshold=threshold,
            refinement_stencil=stencil if stencil is None or isinstance(stencil, str) else np.array(stencil),
            nelder_mead_kwargs=runs.ONE_SHOT, num_minimize_parallel=parallel, simplex_check_cutoff=check_cutoff
        )
        args.update(kwargs or {})
        if simplices is not None:
            args['initial_state'] = make_state(self.limits, periodic, self.cutoff, threshold, simplices, positions,
                                               known, refined)
            self.start = [[[x for x in v] for v in s] for s in simplices]
        else:
            args['initial_mesh_size'] = mesh_size
            self.start = mesh_simplices(self.limits, periodic, mesh_size)
        self.args = args

    def run(self, limit=4000):
        if self.schedule is not None:
            self.result = runs.search(self.ctx, self.schedule.gap, driver=self.schedule.driver, limit=limit, **self.args)
        else:
            self.result = runs.search(self.ctx, self.fct, limit=limit, **self.args)
        return self.result

    def distance(self, a, b):
        return ref_distance(self.ctx, a, b, self.limits, self.periodic)

    def closer(self, a, b, sign=1):
        return closer(self.ctx, a, b, self.limits, self.periodic, self.cutoff + sign * self.tol,
                      reach=3 if self.dim == 1 else 1)

    def refined(self):
        return [[x for x in p] for p in self.result.refined_results]

    def refinement_simplices(self, positions=None):
        res = []
        for p in (self.refined() if positions is None else positions):
            for s in self.stencil if self.stencil is not None else ():
                res.append([[x + self.cutoff * y for x, y in zip(p, v)] for v in s])
        return res

    def close_vertices(self, simplex, nodes):
        """Number of vertices closer than the cutoff to a node (not at exactly its position), as a term."""
        ctx = self.ctx
        if self.check_cutoff > self.dim:
            return 0.
        conds = []
        for v in simplex:
            near = []
            for n in nodes:
                same = ctx.all([a == b for a, b in zip(v, n)])
                near.append(ctx.all([self.closer(v, n), ctx.not_(same)]))
            conds.append(ctx.any(near))
        return ctx.count(conds)


def make_state(limits, periodic, cutoff, threshold, simplices, positions=(), known=(), refined=()):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer, ControllerState
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    result = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), gap_threshold=threshold,
        dist_cutoff=cutoff, minimization_results=list(known), refined_results=list(refined)
    )
    return ControllerState(
        result=result, simplex_queue=SimplexQueue(objects=simplices), position_queue=PositionQueue(objects=positions)
    )


def starting_simplices(result, skip=0):
    return [[[x for x in v] for v in r.simplex_history[0]] for r in result.minimization_results[skip:]]
