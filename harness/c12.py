"""C12: the fake potential repels without falsifying results."""

import numpy as np

from symx.case import Case
from . import runs
from .common import ref_distance, point, sequences
from .c05 import make_result
from .c10 import run_nm, TWO
from .c11 import step, permuted

ASSUMPTIONS = ['the function is arbitrary; known nodes are within the neighbour cutoff of the container (C05)']
INF = float('inf')


def make_potential(ctx, limits, periodic, nodes, cutoff, width):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer
    from nodefinder.search._fake_potential import FakePotential
    container = SearchResultContainer(
        coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), gap_threshold=0.1, dist_cutoff=cutoff
    )
    pot = FakePotential(result=container, width=width)
    # nodes found later on count, too
    results = [make_result(n) for n in nodes]
    for r in results:
        container.add_result(r)
    return pot, [r.pos for r in results]


def expected_potential(ctx, pos, nodes, limits, periodic, width):
    for n in nodes:
        if ctx.is_true(ctx.all([a == b for a, b in zip(pos, n)])):
            continue
        if ctx.is_true(ref_distance(ctx, n, pos, limits, periodic) < width):
            return INF
    return 0.


def potential(ctx, limits, periodic, count, cutoff, width, reach):
    limits = [tuple(float(x) for x in lim) for lim in limits]
    if width == 'sym':
        width = ctx.real('width', cutoff / 4, cutoff)
    nodes = [point(ctx, 'n{}_'.format(i), limits, 0.) for i in range(count)]
    pos = point(ctx, 'p', limits, reach)
    pot, stored = make_potential(ctx, limits, periodic, nodes, cutoff, width)
    value = pot(pos)
    expected = expected_potential(ctx, pos, stored, limits, periodic, width)
    if expected == INF:
        ctx.reach('infinite')
    else:
        ctx.reach('zero')
    ctx.check('potential', ctx.close(value, expected))


def growing(ctx, limits, periodic, count, cutoff, width, reach, free=True):
    """The potential at the same positions before and after each node is found."""
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    pot, stored = make_potential(ctx, limits, periodic, [], cutoff, width)
    places = [
        ctx.array([ctx.real('p{}'.format(j), lo - reach, hi) if j == 0 else (lo + hi) / 2 for j, (lo, hi) in enumerate(limits)]),
        ctx.array([lo + (hi - lo) * 0.3 for lo, hi in limits])
    ]
    for i in range(count + 1):
        for pos in places:
            ctx.check('potential with {} nodes'.format(i), ctx.close(
                pot(pos), expected_potential(ctx, pos, stored, limits, periodic, width)
            ))
        if i < count:
            node = make_result(ctx.array([
                ctx.real('n{}'.format(i), lo, hi) if j == 0 and free else lo + (hi - lo) * (0.4 + 0.2 * i)
                for j, (lo, hi) in enumerate(limits)
            ]))
            pot.result.add_result(node)
            stored.append(node.pos)
            # not a node
            pot.result.add_result(make_result(ctx.array([x for x in places[1]]) + 0.01, value=1.))


class Sum:
    def __init__(self, f, pot):
        self.f = f
        self.pot = pot

    def value(self, pos):
        return self.f.value(pos) + self.pot(pos)


def joined(ctx, limits, periodic, simplex, nodes, maxiter, xtol=0.05, ftol=0.05, cutoff=0.45, presorted=False,
           modifies=False):
    from nodefinder.search._minimization import run_minimization
    limits = [tuple(float(x) for x in lim) for lim in limits]
    dim = len(limits)
    if nodes == 'sym':
        nodes = [point(ctx, 'n', limits, 0.)]
    else:
        nodes = [ctx.array([float(x) for x in n]) for n in nodes]
    pot, stored = make_potential(ctx, limits, periodic, nodes, cutoff, cutoff)
    f = runs.Function(ctx, -4, 4)
    f.modifies = modifies
    rows = [[float(x) for x in v] for v in simplex]
    if presorted:
        first = [f.value(v) for v in rows]
        for a, b in zip(first[:-1], first[1:]):
            ctx.assume(a < b)

    async def func(x):
        return f(x)

    kwargs = dict(xtol=xtol, ftol=ftol, maxiter=maxiter)
    res = runs.run_loop(run_minimization(
        func, initial_simplex=ctx.array(rows), fake_potential=pot, nelder_mead_kwargs=kwargs
    ))
    ctx.check('evaluations', res.num_fev == len(f.calls))
    hist = [[[x for x in v] for v in s] for s in res.simplex_history]
    fhist = [[v for v in vals] for vals in res.fun_simplex_history]
    n1 = len(res.ancestor.simplex_history)
    ctx.check('both histories', len(hist) == len(fhist) == n1 + len(res.child.simplex_history))
    ctx.check('iterations', res.num_iter == res.ancestor.num_iter + res.child.num_iter)
    ctx.check('iterations of both runs', res.num_iter == len(hist))
    # first run: on the function plus the potential
    g = Sum(f, lambda x: expected_potential(ctx, x, stored, limits, periodic, cutoff))
    ctx.check('starts with the initial simplex', permuted(ctx, hist[0], rows))
    for s, vals in zip(hist[:n1], fhist[:n1]):
        expected = [g.value(v) for v in s]
        if any(isinstance(x, float) and x == INF for x in expected):
            ctx.reach('infinite value')
        ctx.check('first run: values', ctx.all([ctx.close(a, b) for a, b in zip(expected, vals)]))
    for k in range(n1 - 1):
        expected, _ = step(ctx, g, hist[k], fhist[k])
        ctx.check('first run: step', permuted(ctx, hist[k + 1], expected))
    # second run: on the function alone
    last = hist[n1 - 1]
    enlarged = [[x0 + 1.5 * (x - x0) for x0, x in zip(last[0], v)] for v in last]
    ctx.check('starts with the enlarged simplex', permuted(ctx, hist[n1], enlarged))
    for s, vals in zip(hist[n1:], fhist[n1:]):
        ctx.check('second run: values', ctx.all([ctx.close(f.value(a), b) for a, b in zip(s, vals)]))
    direct = run_nm(ctx, f, ctx.array(enlarged), **kwargs)
    ctx.check('position of the second run', ctx.close(list(res.pos), list(direct.pos)))
    ctx.check('value of the second run', ctx.close(res.value, direct.value))
    ctx.check('value at the position', ctx.close(f.value(res.pos), res.value))
    ctx.check('status of the second run', res.status == direct.status and res.success == direct.success)
    ctx.check('message of the second run', res.message == direct.message)
    ctx.check('history of the second run', len(direct.simplex_history) == len(hist) - n1)
    ctx.check('ends with the position', ctx.close(hist[-1][0], list(res.pos)))


def without(ctx):
    """Without a fake potential there is one run on the function."""
    from nodefinder.search._minimization import run_minimization
    f = runs.Function(ctx, -4, 4)

    async def func(x):
        return f(x)

    kwargs = dict(xtol=0.05, ftol=0.05, maxiter=2)
    rows = [[0.], [1.]]
    res = runs.run_loop(run_minimization(func, initial_simplex=ctx.array(rows), nelder_mead_kwargs=kwargs))
    ctx.check('evaluations', res.num_fev == len(f.calls))
    direct = run_nm(ctx, f, ctx.array(rows), **kwargs)
    ctx.check('position', ctx.close(list(res.pos), list(direct.pos)))
    ctx.check('value', ctx.close(res.value, direct.value))
    ctx.check('status', res.status == direct.status and res.success == direct.success)


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=potential, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    for periodic in (True, False):
        p = 'periodic ' if periodic else 'open '
        need = ['infinite', 'zero']
        add(p + 'potential 1D', need=need, limits=[(0, 1)], periodic=periodic, count=1, cutoff=0.3, width='sym',
            reach=0.5)
        add(p + 'potential 1D two nodes', need=need, limits=[(0, 1)], periodic=periodic, count=2, cutoff=0.45,
            width='sym', reach=0.)
        add(p + 'potential 2D', need=need, limits=[(0, 1), (-1, 0)], periodic=periodic, count=1, cutoff=0.45,
            width=0.45, reach=0.)
        add(p + 'potential 1D, nodes found later', fct=growing, limits=[(0, 1)], periodic=periodic, count=2, cutoff=0.3,
            width=0.3, reach=0. if periodic else 0.5)
        add(p + 'potential 2D, nodes found later', fct=growing, limits=[(0, 1), (-1, 0)], periodic=periodic, count=2,
            cutoff=0.45, width=0.4, reach=0., free=False)
        if deep:
            add(p + 'potential 2D symbolic width', need=need, limits=[(0, 1), (-1, 0)], periodic=periodic, count=1,
                cutoff=0.45, width='sym', reach=0.25)
        need = ['first run: step', 'second run: values', 'infinite value']
        add(p + 'run 1D', fct=joined, need=need, limits=[(-2, 2)], periodic=periodic, simplex=[[0.], [1.]],
            nodes=[[0.25]], maxiter=2, weight=20)
        add(p + 'run 1D symbolic node', fct=joined, need=need, limits=[(0, 1)], periodic=periodic,
            simplex=[[0.], [0.5]], nodes='sym', maxiter=2, weight=30, presorted=not deep)
        add(p + 'run 1D, node at a vertex', fct=joined, need=need[:2], limits=[(-2, 2)], periodic=periodic,
            simplex=[[0.], [1.]], nodes=[[0.]], maxiter=2, weight=20)
        add(p + 'run 1D, infinite at start', fct=joined, need=need, limits=[(-2, 2)], periodic=periodic,
            simplex=[[0.], [0.25]], nodes=[[0.125]], maxiter=3, weight=25)
    add('run 1D, argument modified', fct=joined, need=['first run: step', 'second run: values', 'infinite value'],
        limits=[(-2, 2)], periodic=False, simplex=[[0.], [1.]], nodes=[[0.25]], maxiter=2, weight=20, modifies=True)
    add('run 2D', fct=joined, need=['second run: values'], limits=[(-2, 2)] * 2, periodic=False, simplex=TWO,
        nodes=[[0.1, 0.125]], maxiter=2, weight=50, presorted=True, xtol=1.75, ftol=1.)
    if deep:
        add('run 2D both', fct=joined, need=['first run: step'], limits=[(-2, 2)] * 2, periodic=False, simplex=TWO,
            nodes=[[0.1, 0.125]], maxiter=2, weight=50, presorted=True)
        add('run 1D long', fct=joined, need=['first run: step'], limits=[(-2, 2)], periodic=False,
            simplex=[[0.], [1.]], nodes=[[0.25]], maxiter=3, weight=60)
    res.append(Case('without potential', without, need=['value'], bounds='1D, two iterations'))
    return res + sequences(res,
        ['without potential', 'open potential 1D'],
        ['periodic potential 2D, nodes found later', 'open potential 2D, nodes found later'],
    )
