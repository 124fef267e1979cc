"""C10: minimization results tell the truth about the minimization."""

import math

import numpy as np

from symx.case import Case
from .common import sequences
from . import runs

ASSUMPTIONS = [
    'the function is arbitrary: each distinct position evaluated has an arbitrary value (equal positions have equal '
    'values) within the stated range',
]

INF = float('inf')


def longest_edge_sq(simplex):
    best = None
    for i in range(len(simplex)):
        for j in range(i):
            d2 = 0.
            for a, b in zip(simplex[i], simplex[j]):
                d2 = d2 + (a - b) * (a - b)
            best = d2 if best is None or best < d2 else best
    return best


def converged(ctx, simplex, values, xtol, ftol, slack=0):
    conds = []
    for v, f in zip(simplex[1:], values[1:]):
        conds.extend(abs(x - y) <= xtol + slack for x, y in zip(v, simplex[0]))
        conds.append(f - values[0] <= ftol + slack)
    return ctx.all(conds)


def over_cutoff(ctx, simplex, best, cutoff, slack):
    """best / longest edge > cutoff + slack"""
    if cutoff is None:
        return False
    e2 = longest_edge_sq(simplex)
    c = cutoff + slack
    if c >= 0:
        return ctx.all([best > 0, best * best > c * c * e2])
    return ctx.any([best > 0, best * best < c * c * e2])


def run_nm(ctx, fct, simplex, **kwargs):
    from nodefinder.search._minimization._nelder_mead import root_nelder_mead

    async def func(x):
        return fct(x)

    return runs.run_loop(root_nelder_mead(func, initial_simplex=simplex, **kwargs))


def start(ctx, dim, kind):
    if kind == 'sym':
        rows = [[ctx.real('x{}_{}'.format(i, j), -2, 2) for j in range(dim)] for i in range(dim + 1)]
    else:
        rows = [[float(x) for x in row] for row in kind]
    return rows


def truth(ctx, dim, simplex, maxiter, maxfev, xtol, ftol, cutoff, lo=-4, hi=4, keep_history=True,
          modifies=False, minimum=None, bottom=0., given='array'):
    # rounding may matter at the boundaries of what is compared
    slack = 1e-6 if simplex == 'sym' else 0
    rows = start(ctx, dim, simplex)
    if xtol == 'sym':
        xtol = ctx.real('xtol', 0, 2)
    if ftol == 'sym':
        ftol = ctx.real('ftol', 0, 2)
    if cutoff == 'sym':
        cutoff = ctx.real('cutoff', 0, 8)
    f = runs.Function(ctx, lo, hi) if minimum is None else runs.Valley(ctx, minimum, bottom)
    f.modifies = modifies
    kwargs = {}
    if maxiter is not None:
        kwargs['maxiter'] = maxiter
    if maxfev is not None:
        kwargs['maxfev'] = maxfev
    if cutoff is not None:
        kwargs['fprime_cutoff'] = cutoff
    if not keep_history:
        kwargs['keep_history'] = False
    given = {
        'array': ctx.array, 'lists': lambda x: x, 'tuples': lambda x: tuple(tuple(v) for v in x),
        'integers': lambda x: [[int(c) for c in v] for v in x],
        'integer array': lambda x: np.array([[int(c) for c in v] for v in x], dtype=int),
    }[given](rows)
    res = run_nm(ctx, f, given, xtol=xtol, ftol=ftol, **kwargs)
    maxiter = 200 * dim if maxiter is None else maxiter
    maxfev = 200 * dim if maxfev is None else maxfev
    # counts
    ctx.check('number of evaluations', res.num_fev == len(f.calls))
    # value and position
    ctx.check('value is lowest', ctx.all([res.value <= v for _, v in f.calls]))
    ctx.check('value was evaluated', ctx.any([ctx.close(res.value, v) for _, v in f.calls]))
    ctx.check('value at the position', ctx.close(f.value(res.pos), res.value))
    ctx.check('position evaluated', not f.known or len(f.known) <= len(f.calls))
    # the last simplex
    sim = [[x for x in v] for v in res.simplex_history[-1]]
    fsim = [f.value(v) for v in sim]
    ctx.check('best vertex', ctx.close(sim[0], list(res.pos)))
    # status
    over_fev = res.num_fev >= maxfev
    over_iter = res.num_iter >= maxiter
    status = int(res.status)
    success = bool(res.success)
    ctx.check('success and status agree', success == (status == 0))
    if success:
        ctx.reach('success')
        ctx.check('no limit hit', not over_fev and not over_iter)
        ctx.check('no cutoff hit', ctx.not_(over_cutoff(ctx, sim, res.value, cutoff, 1e-6)))
        ctx.check('converged', converged(ctx, sim, fsim, xtol, ftol, slack))
    else:
        ctx.check('some limit was hit', ctx.any([over_fev, over_iter, over_cutoff(ctx, sim, res.value, cutoff, -1e-6)]))
    text = res.message.lower()
    names = {1: 'evaluations', 2: 'iterations', 3: 'derivative'}
    if status == 1:
        ctx.reach('evaluation limit')
        ctx.check('evaluation limit hit', over_fev)
    elif status == 2:
        ctx.reach('iteration limit')
        ctx.check('iteration limit hit', over_iter)
    elif status == 3:
        ctx.reach('derivative cutoff')
        ctx.check('derivative cutoff hit', over_cutoff(ctx, sim, res.value, cutoff, -1e-6))
    else:
        ctx.check('status known', status == 0)
    for k, word in names.items():
        ctx.check('message', (word in text) == (k == status))
    ctx.check('message of success', ('success' in text) == success)
    # no iteration is started beyond a limit: the history shows where each one began
    if keep_history:
        hist = [[[x for x in v] for v in s] for s in res.simplex_history]
        ctx.check('at most maxiter', len(hist) <= max(1, maxiter))
        for s in hist[:-1]:
            ctx.check('continued below the derivative cutoff', ctx.not_(over_cutoff(ctx, s, f.value(s[0]), cutoff, 1e-6)))
            ctx.check('continued unconverged', ctx.not_(converged(ctx, s, [f.value(v) for v in s], xtol, ftol, -slack)))
        if len(hist) > 1:
            ctx.reach('iterated')
    # the last iteration began with fewer evaluations than the limit, and takes at most dim + 2
    ctx.check('evaluation limit', res.num_fev <= max(dim + 1, maxfev - 1 + dim + 2))
    ctx.check('iterations', res.num_iter <= max(1, maxiter))
    ctx.observe('value', res.value)
    ctx.observe('fev', res.num_fev)


def special(ctx, dim, simplex, maxiter, which):
    """Functions with infinite values."""
    rows = start(ctx, dim, simplex)
    n = [0]

    class Func(runs.Function):
        def value(self, pos):
            pos = [x for x in pos]
            for p, v in self.known:
                if self.ctx.is_true(self.ctx.all([a == b for a, b in zip(p, pos)])):
                    return v
            k = len(self.known)
            if self.ctx.lazy_bool('infinite{}'.format(k)):
                v = INF
            else:
                v = self.ctx.real('f{}'.format(k), -2, 2)
            self.known.append((pos, v))
            return v

    f = Func(ctx, -2, 2)
    res = run_nm(ctx, f, ctx.array(rows), xtol=0.3, ftol=0.5, maxiter=maxiter)
    ctx.check('number of evaluations', res.num_fev == len(f.calls))
    ctx.check('value is lowest', ctx.all([res.value <= v for _, v in f.calls]))
    value = f.value(res.pos)
    ctx.check('value at the position', ctx.close(value, res.value))
    if res.success:
        sim = [[x for x in v] for v in res.simplex_history[-1]]
        fs = [f.value(v) for v in sim]
        ctx.check('finite success', all(not isinstance(v, float) or v != INF for v in fs))
        ctx.check('converged', converged(ctx, sim, fs, 0.3, 0.5))


TWO = [[0., 0.], [1., 0.], [0., 1.]]


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, need=(), opts=None, **params):
        res.append(Case(name, truth, params=params, opts=opts or {}, need=['value at the position'] + list(need), budget=1500,
                        weight=(params['maxiter'] or 2) * params['dim'],
                        bounds='maxiter {maxiter}, maxfev {maxfev}, xtol {xtol}, ftol {ftol}, derivative cutoff '
                        '{cutoff}, simplex {simplex}'.format(**params)))

    add('1D tolerances', need=['success', 'iteration limit'], dim=1, simplex=[[0.], [1.]], maxiter=3 + deep, maxfev=None,
        xtol='sym', ftol='sym', cutoff=None)
    add('1D evaluations', need=['success', 'evaluation limit'], dim=1, simplex=[[0.], [1.]], maxiter=5 if deep else 4,
        maxfev=5, xtol=0.6, ftol='sym', cutoff=None)
    for maxfev in (0, 1, 2, 3, 4):
        add('1D {} evaluations'.format(maxfev), need=['evaluation limit'], dim=1, simplex=[[1.], [0.]], maxiter=3,
            maxfev=maxfev, xtol=0.6, ftol='sym', cutoff=None)
    for maxiter in (0, 1, 2):
        add('1D {} iterations'.format(maxiter), need=['iteration limit'], dim=1, simplex=[[1.], [0.]], maxiter=maxiter,
            maxfev=None, xtol='sym', ftol=0.5, cutoff=None)
    add('1D both limits', need=['evaluation limit', 'iteration limit'], dim=1, simplex=[[1.], [0.]], maxiter=3,
        maxfev=7, xtol=0.1, ftol=0.1, cutoff=None)
    add('1D derivative cutoff', need=['success', 'derivative cutoff', 'iterated'], dim=1, simplex=[[0.], [1.]],
        maxiter=3 + deep, maxfev=None, xtol=0.6, ftol=0.5, cutoff='sym')
    add('1D derivative cutoff zero', need=['success', 'derivative cutoff'], dim=1, simplex=[[0.], [1.]],
        maxiter=3, maxfev=None, xtol=0.6, ftol=0.5, cutoff=0.)
    add('1D positive values, cutoff', need=['success', 'derivative cutoff'], dim=1, simplex=[[0.], [2.]],
        maxiter=3 + deep, maxfev=None, xtol=1.1, ftol=0.5, cutoff=1., lo=0)
    add('1D without history', need=['success'], dim=1, simplex=[[0.], [1.]], maxiter=4, maxfev=None, xtol=0.6,
        ftol=0.5, cutoff=2., keep_history=False)
    add('1D symbolic simplex', need=['success'], dim=1, simplex='sym', maxiter=3 if deep else 2, maxfev=None,
        xtol='sym', ftol=0.5, cutoff=None)
    add('1D symbolic simplex, cutoff', need=['derivative cutoff'], dim=1, simplex='sym', maxiter=2, maxfev=None,
        xtol=0.5, ftol=0.5, cutoff=1.5)
    add('1D argument modified', need=['success', 'iterated'], dim=1, simplex=[[0.], [1.]], maxiter=3, maxfev=None,
        xtol=0.6, ftol=0.5, cutoff=None, modifies=True)
    add('2D argument modified', need=['iterated'], dim=2, simplex=TWO, maxiter=2, maxfev=None, xtol=0.5, ftol=0.5,
        cutoff=None, modifies=True)
    for given in ('lists', 'tuples', 'integers', 'integer array'):
        add('1D as {}'.format(given), need=['success', 'iterated'], dim=1, simplex=[[0.], [1.]], maxiter=3, maxfev=None,
            xtol=0.6, ftol=0.5, cutoff=None, given=given)
        add('2D as {}'.format(given), need=['iterated'], dim=2, simplex=TWO, maxiter=2, maxfev=None, xtol=0.5, ftol=0.5,
            cutoff=None, given=given)
    add('2D tolerances', need=['iterated'], dim=2, simplex=TWO, maxiter=3 if deep else 2, maxfev=None,
        xtol='sym', ftol='sym', cutoff=None)
    add('2D success', need=['success', 'iterated'], dim=2, simplex=TWO, maxiter=3 if deep else 2, maxfev=None, xtol=1.1, ftol=0.5,
        cutoff=None)
    add('2D derivative cutoff', need=['iterated', 'derivative cutoff'], dim=2, simplex=TWO, maxiter=2, maxfev=None,
        xtol=1.1, ftol=0.5, cutoff=1.)
    add('2D evaluations', need=['evaluation limit'], dim=2, simplex=TWO, maxiter=3, maxfev=5, xtol=0.5, ftol='sym',
        cutoff=None)
    eye = [[0.] * 4] + [[float(i == j) for i in range(4)] for j in range(4)]
    for dim, minimum, xtol, ftol in (
        (1, [(4.3125, 4.375)], 2.**-9, 2.**-12), (2, [(1.25, 1.2578125), -0.9], 2.**-6, 2.**-8),
        (3, [(0.75, 0.7501), -0.5, 1.25], 2.**-5, 2.**-6), (4, [(0.75, 0.7501), -0.5, 1.25, 0.3], 2.**-3, 2.**-3),
    ):
        simplex = [v[:dim] for v in eye[:dim + 1]]
        add('{}D long'.format(dim), need=['success', 'iterated'], dim=dim, simplex=simplex, maxiter=None, maxfev=None,
            xtol=xtol, ftol=ftol, cutoff=None, minimum=minimum)
        add('{}D long, cutoff'.format(dim), need=['derivative cutoff', 'iterated'], dim=dim, simplex=simplex,
            maxiter=None, maxfev=None, xtol=xtol, ftol=ftol, cutoff=2.5 if dim > 1 else 30., minimum=minimum, bottom=1.)
        add('{}D long, iteration limit'.format(dim), need=['iteration limit', 'iterated'], dim=dim, simplex=simplex,
            maxiter=11, maxfev=None, xtol=xtol, ftol=ftol, cutoff=None, minimum=minimum)
        add('{}D long, evaluation limit'.format(dim), need=['evaluation limit', 'iterated'], dim=dim, simplex=simplex,
            maxiter=None, maxfev=21, xtol=xtol, ftol=ftol, cutoff=None, minimum=minimum)
        add('{}D default limits'.format(dim), need=['evaluation limit', 'iterated'], dim=dim, simplex=simplex,
            maxiter=None, maxfev=None, xtol=-1., ftol=-1., cutoff=None, minimum=[(0.75, 0.75)] + minimum[1:],
            opts={'max_decisions': 20000})
    if deep:
        add('2D deeper', need=['success', 'iterated'], dim=2, simplex=TWO, maxiter=4, maxfev=None, xtol=1.1, ftol=0.5,
            cutoff=None)
        add('3D', need=['iterated'], dim=3, simplex=[[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], maxiter=2,
            maxfev=None, xtol=0.5, ftol=0.5, cutoff=None)
    for dim, simplex, maxiter in ((1, [[0.], [1.]], 3), (2, TWO, 2)):
        res.append(Case('infinite values {}D'.format(dim), special,
                        params=dict(dim=dim, simplex=simplex, maxiter=maxiter, which=None),
                        need=['value at the position'], budget=600,
                        bounds='each value infinite or in [-2, 2], {} iterations'.format(maxiter)))
    return res + sequences(res,
        ['2D long, cutoff', '3D long, iteration limit', '4D long, evaluation limit', '1D 2 evaluations', '3D long'],
        ['1D 1 evaluations', '1D default limits', '4D long', '1D 2 evaluations'],
    )
