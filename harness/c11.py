"""C11: each minimization iteration is a Nelder-Mead step and is recorded."""

import itertools

import numpy as np

from symx.case import Case
from .common import sequences
from . import runs
from .c10 import run_nm, start, TWO

ASSUMPTIONS = [
    'the function is arbitrary: each distinct position evaluated has an arbitrary value (equal positions have equal '
    'values) within the stated range',
]


def combine(a, x, b, y):
    return [a * p + b * q for p, q in zip(x, y)]


def step(ctx, f, sim, fsim):
    """The next simplex (unsorted), and the number of evaluations."""
    n = len(sim) - 1
    center = [sum(v[k] for v in sim[:-1]) / n for k in range(n)]
    worst = sim[-1]
    at = lambda t: combine(1 + t, center, -t, worst)  # noqa
    refl = at(1)
    f_refl = f.value(refl)
    if ctx.is_true(f_refl < fsim[0]):
        exp = at(2)
        f_exp = f.value(exp)
        if ctx.is_true(f_exp < f_refl):
            ctx.reach('expansion')
            return sim[:-1] + [exp], 2
        ctx.reach('reflection instead of expansion')
        return sim[:-1] + [refl], 2
    if ctx.is_true(f_refl < fsim[-2]):
        ctx.reach('reflection')
        return sim[:-1] + [refl], 1
    if ctx.is_true(f_refl < fsim[-1]):
        con = at(0.5)
        if ctx.is_true(f.value(con) <= f_refl):
            ctx.reach('outside contraction')
            return sim[:-1] + [con], 2
    else:
        con = at(-0.5)
        if ctx.is_true(f.value(con) < fsim[-1]):
            ctx.reach('inside contraction')
            return sim[:-1] + [con], 2
    ctx.reach('shrink')
    return [sim[0]] + [combine(0.5, sim[0], 0.5, v) for v in sim[1:]], 2 + n


def permuted(ctx, sim, expected):
    """sim contains exactly the expected vertices (condition)"""
    return ctx.any([
        ctx.all([ctx.close(a, expected[k]) for a, k in zip(sim, perm)])
        for perm in itertools.permutations(range(len(expected)))
    ])


def steps(ctx, dim, simplex, maxiter, xtol=0.05, ftol=0.05, cutoff=None, lo=-4, hi=4, presorted=False,
          minimum=None, maxfev=None):
    rows = start(ctx, dim, simplex)
    f = runs.Function(ctx, lo, hi) if minimum is None else runs.Valley(ctx, minimum)
    if presorted:
        first = [f.value(v) for v in rows]
        for a, b in zip(first[:-1], first[1:]):
            ctx.assume(a < b)
    kwargs = dict(xtol=xtol, ftol=ftol, maxiter=maxiter)
    if cutoff is not None:
        kwargs['fprime_cutoff'] = cutoff
    if maxfev is not None:
        kwargs['maxfev'] = maxfev
    res = run_nm(ctx, f, ctx.array(rows), **kwargs)
    calls = len(f.calls)
    hist = [[[x for x in v] for v in s] for s in res.simplex_history]
    fhist = [[v for v in vals] for vals in res.fun_simplex_history]
    ctx.check('same length', len(hist) == len(fhist))
    ctx.check('starts with the initial simplex', permuted(ctx, hist[0], rows))
    for s, vals in zip(hist, fhist):
        ctx.check('function values', ctx.all([ctx.close(f.value(v), val) for v, val in zip(s, vals)]))
        ctx.check('sorted', ctx.all([a <= b for a, b in zip(vals[:-1], vals[1:])]))
    explained = dim + 1
    for k in range(len(hist) - 1):
        expected, num = step(ctx, f, hist[k], fhist[k])
        explained += num
        ctx.check('step', permuted(ctx, hist[k + 1], expected))
        ctx.check('best value does not increase', fhist[k + 1][0] <= fhist[k][0])
    ctx.check('all iterations are recorded', calls <= explained)
    ctx.check('ends with the result', ctx.close(hist[-1][0], list(res.pos)))
    ctx.check('ends with the value', ctx.close(fhist[-1][0], res.value))
    # again without history
    short = run_nm(ctx, f, ctx.array(rows), keep_history=False, **kwargs)
    ctx.check('only the final simplex', np.shape(short.simplex_history) == (1, dim + 1, dim))
    final = [[x for x in v] for v in short.simplex_history[0]]
    ctx.check('same final simplex', permuted(ctx, final, hist[-1]))
    ctx.check('final simplex and position', ctx.close(final[0], list(short.pos)))
    ctx.check('same position', ctx.close(list(short.pos), list(res.pos)))
    vals = [f.value(v) for v in final]
    ctx.check('final simplex sorted', ctx.all([a <= b for a, b in zip(vals[:-1], vals[1:])]))
    ctx.observe('value', res.value)
    ctx.observe('pos', list(res.pos))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, need=(), **params):
        res.append(Case(name, steps, params=params, need=list(need) + ['step'], budget=1500,
                        weight=min(params['maxiter'], 9) * params['dim'],
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    every1 = ['expansion', 'reflection instead of expansion', 'outside contraction', 'inside contraction', 'shrink']
    every2 = every1 + ['reflection']
    add('1D', need=[x for x in every1 if x != 'reflection'], dim=1, simplex=[[0.], [1.]], maxiter=4 if deep else 3)
    add('1D other direction', need=['shrink'], dim=1, simplex=[[2.], [-1.]], maxiter=3)
    add('1D with cutoff', dim=1, simplex=[[0.], [1.]], maxiter=3, cutoff=1.5)
    add('1D symbolic simplex', dim=1, simplex='sym', maxiter=3 if deep else 2)
    add('2D', need=every2, dim=2, simplex=TWO, maxiter=2)
    for m in (3, 4, 5, 6):
        # limits which are reached in the middle of an iteration
        add('1D, {} evaluations'.format(m), dim=1, simplex=[[0.], [1.]], maxiter=4, maxfev=m)
    for m in (5, 6):
        add('2D, {} evaluations'.format(m), dim=2, simplex=TWO, maxiter=2, maxfev=m)
        add('3D, {} evaluations'.format(m + 2), dim=3, simplex=[[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], maxiter=2,
            maxfev=m + 2, presorted=True)
    add('2D skew', dim=2, simplex=[[0.5, 1.], [-1., 0.25], [2., -0.5]], maxiter=2)
    add('3D', need=every2, dim=3, simplex=[[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], maxiter=2,
        presorted=not deep)
    add('2D two steps presorted', need=every2, dim=2, simplex=TWO, maxiter=3, presorted=True)
    add('1D long', dim=1, simplex=[[0.], [1.]], maxiter=30, xtol=2.**-8, ftol=2.**-10, minimum=[(4.3125, 4.375)])
    add('2D long', dim=2, simplex=TWO, maxiter=17, xtol=2.**-6, ftol=2.**-8, minimum=[(1.25, 1.2578125), -0.9])
    add('2D long, other direction', dim=2, simplex=TWO, maxiter=14, xtol=2.**-6, ftol=2.**-8,
        minimum=[(-2.3, -2.28), 1.55])
    add('1D hundred iterations', dim=1, simplex=[[3.], [4.]], maxiter=100, xtol=-1., ftol=-1., minimum=[(0., 0.)])
    add('2D hundred iterations', dim=2, simplex=[[3., 0.], [4., 0.], [3., 1.]], maxiter=100, xtol=-1., ftol=-1.,
        minimum=[(0., 0.), 0.])
    if deep:
        add('2D two steps', need=every2, dim=2, simplex=TWO, maxiter=3)
        add('2D symbolic vertex', dim=2, simplex='sym', maxiter=2)
        add('4D', dim=4, simplex=np.vstack([np.zeros(4), np.eye(4)]).tolist(), maxiter=2)
    return res + sequences(res,
        ['2D long, other direction', '1D, 3 evaluations'],
    )
