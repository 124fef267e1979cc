"""C28: the options of a search reach its minimizations."""

import collections
import functools
import types

import numpy as np

from symx.case import Case
from . import runs
from .common import in_sequence
from .c05 import make_result
from .searching import make_state, Few

ASSUMPTIONS = [
    'the function is arbitrary: each distinct position evaluated has an arbitrary value within the stated range',
    'what a minimization with given arguments does is the subject of C10 to C12: here the minimizations of a search '
    'are compared to minimizations with the arguments which are expected',
]
FIELDS = ('pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter', 'simplex_history',
          'fun_simplex_history')
INF = float('inf')


def coroutine(f):
    async def func(x):
        return f(x)
    return func


def plain(f):
    return lambda x: f(x)


def part(f):
    return functools.partial(lambda y, x: f(x) + y, 0.)


KINDS = {'coroutine': coroutine, 'plain function': plain, 'callable': lambda f: f, 'partial': part}
MAPPINGS = {
    'dict': dict, 'read only': lambda x: types.MappingProxyType(dict(x)),
    'chain': lambda x: collections.ChainMap({}, dict(x)),
}


def same_minimization(ctx, a, b, label=''):
    if hasattr(b, 'child'):
        ctx.check(label + 'two steps', hasattr(a, 'child'))
        same_minimization(ctx, a.ancestor, b.ancestor, label + 'first step ')
        same_minimization(ctx, a.child, b.child, label + 'second step ')
        return
    ctx.check(label + 'one step', not hasattr(a, 'child'))
    for key in FIELDS:
        ctx.check('{}{} recorded'.format(label, key), hasattr(a, key) == hasattr(b, key))
        if not hasattr(b, key):
            continue
        x, y = getattr(a, key), getattr(b, key)
        if key in ('success', 'status', 'message', 'num_fev', 'num_iter'):
            ctx.check(label + key, x == y)
        else:
            ctx.check(label + key, np.shape(x) == np.shape(y) and ctx.close(x, y))


def expected(ctx, f, simplex, kwargs, fake=None):
    """The minimization as it should have been, fake: (limits, periodic, width, nodes)"""
    from nodefinder.search._minimization import run_minimization
    pot = None
    if fake is not None:
        from nodefinder.coordinate_system import CoordinateSystem
        from nodefinder.search.result import SearchResultContainer
        from nodefinder.search._fake_potential import FakePotential
        limits, periodic, width, nodes = fake
        container = SearchResultContainer(
            coordinate_system=CoordinateSystem(limits=limits, periodic=periodic), gap_threshold=INF, dist_cutoff=width
        )
        for n in nodes:
            container.add_result(make_result(ctx.array([x for x in n])))
        pot = FakePotential(result=container, width=width)
    return runs.run_loop(run_minimization(
        coroutine(f.value), initial_simplex=ctx.array(simplex), fake_potential=pot, nelder_mead_kwargs=kwargs
    ))


def options(ctx, limits, periodic, simplices, given=(), maxiter=3, values=(0, 1), threshold=(0.1, 2.), feature=(1.6, 2.9),
            mapping='dict', kind='coroutine', fake=False, known=(), default='given', presorted=False):
    limits = [tuple(float(x) for x in lim) for lim in limits]
    f = runs.Function(ctx, *values)
    if not isinstance(threshold, float):
        threshold = ctx.real('threshold', *threshold)
    if not isinstance(feature, float):
        feature = ctx.real('feature', *feature)
    cutoff = feature / 3
    given = dict(given)
    for key, val in given.items():
        if isinstance(val, tuple):
            given[key] = ctx.real(key, *val)
    if maxiter is not None:
        given['maxiter'] = maxiter
    simplices = [[[float(x) for x in v] for v in s] for s in simplices]
    if presorted:
        for s in simplices:
            vals = [f.value(v) for v in s]
            for a, b in zip(vals[:-1], vals[1:]):
                ctx.assume(a < b)
    known = [make_result(ctx.array([float(x) for x in n]), value=-1.) for n in known]
    state = make_state(limits, periodic, cutoff, threshold, simplices, known=known)
    args = {}
    if fake or default == 'given':
        args['use_fake_potential'] = fake
    result = runs.search(
        ctx, KINDS[kind](f), limits=limits, periodic=periodic, feature_size=feature, gap_threshold=threshold,
        initial_state=state, refinement_stencil=None, nelder_mead_kwargs=MAPPINGS[mapping](given),
        num_minimize_parallel=1, simplex_check_cutoff=len(limits) + 1, **args
    )
    kwargs = dict(given)
    kwargs.setdefault('xtol', 0.03 * cutoff)
    kwargs.setdefault('ftol', 0.05 * threshold)
    done = [r for r in result.minimization_results if r.num_fev > 1]
    ctx.check('all simplices', len(done) == len(simplices))
    nodes = [[x for x in r.pos] for r in known]
    for s in simplices:
        res = expected(ctx, f, s, kwargs, (limits, periodic, cutoff, nodes) if fake else None)
        # the positions of results are normalized
        res_pos = result.coordinate_system.normalize_position(res.pos)
        hits = [r for r in done if len(simplices) == 1 or is_from(ctx, r, s)]
        ctx.check('minimized once', len(hits) == 1)
        hit = hits[0]
        ctx.check('position', ctx.close(list(hit.pos), list(res_pos)))
        if not hasattr(res, 'child'):
            res.pos = res_pos
        same_minimization(ctx, hit, res)
        if ctx.is_true(ctx.all([bool(res.success), res.value <= threshold])):
            nodes.append([x for x in res.pos])
            ctx.reach('node')
        ctx.reach('status {}'.format(int(res.status)))
        if hasattr(res, 'child'):
            ctx.reach('two steps')
            if any(isinstance(v, float) and v == INF for v in res.ancestor.fun_simplex_history[0]):
                ctx.reach('repelled')
                if len(nodes) > len(known):
                    ctx.reach('repelled or found')


def is_from(ctx, res, simplex):
    first = [[x for x in v] for v in (res.ancestor if hasattr(res, 'child') else res).simplex_history[0]]
    left = list(simplex)
    for v in first:
        for w in left:
            if ctx.is_true(ctx.close(v, list(w))):
                left.remove(w)
                break
    return not left


def same_search(ctx, limits, periodic, mesh, few, kinds, stencil=None, feature_size=0.9, parallel=2, **args):
    """The way the function is given does not matter."""
    limits = [tuple(float(x) for x in lim) for lim in limits]
    fct = Few(ctx, few)
    found = []
    for kind in kinds:
        fct.calls = []
        result = runs.search(
            ctx, KINDS[kind](fct), limits=limits, periodic=periodic, feature_size=feature_size, gap_threshold=0.5,
            refinement_stencil=stencil if stencil is None or isinstance(stencil, str) else np.array(stencil),
            initial_mesh_size=mesh, nelder_mead_kwargs=runs.ONE_SHOT, num_minimize_parallel=parallel, **args
        )
        found.append((result, list(fct.calls)))
    first, calls = found[0]
    for (other, more), kind in zip(found[1:], kinds[1:]):
        ctx.check('same number of evaluations', len(calls) == len(more))
        for name in ('nodes', 'rejected_results'):
            a, b = list(getattr(first, name)), list(getattr(other, name))
            ctx.check('same number of ' + name, len(a) == len(b))
            for x in a:
                ctx.check('same ' + name, ctx.any([
                    ctx.all([ctx.close(list(x.pos), list(y.pos)), ctx.close(x.value, y.value)]) for y in b
                ]))
        ctx.check('same number of refined positions', len(first.refined_results) == len(other.refined_results))
        for p in first.refined_results:
            ctx.check('same refined positions', ctx.any([ctx.close(list(p), list(q)) for q in other.refined_results]))
        if len(first.nodes):
            ctx.reach('nodes')


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, fct=options, need=(), weight=1, **params):
        res.append(Case(name, fct, params=params, need=need, budget=1500, weight=weight,
                        bounds=', '.join('{}={}'.format(*x) for x in params.items())))

    big, box, tri = [[[0.], [0.05]]], [(-2, 2)], [[[0., 0.], [0.027, 0.], [0., 0.02]]]
    both = ['status 0', 'status 2']
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('{}, defaults'.format(word), need=both, limits=box, periodic=periodic, simplices=big, weight=3)
        add('{}, value tolerance given'.format(word), need=both, limits=box, periodic=periodic, simplices=big,
            given={'ftol': (0., 0.5)}, mapping='read only', weight=3)
        add('{}, position tolerance given'.format(word), need=both, limits=box, periodic=periodic, simplices=big,
            given={'xtol': (0.01, 0.1)}, mapping='chain', kind='plain function', weight=3)
        add('{}, both tolerances given'.format(word), need=both, limits=box, periodic=periodic, simplices=big, default='unset',
            given={'xtol': (0., 0.05), 'ftol': (0., 0.5)}, kind='callable', feature=2., threshold=0.5, weight=2)
    add('derivative cutoff given', need=['status 3'], limits=box, periodic=True, simplices=big,
        given={'fprime_cutoff': (1., 20.)}, kind='partial', weight=3)
    add('number of evaluations given', need=['status 1', 'status 0'], limits=box, periodic=True, simplices=big,
        given={'maxfev': 6}, maxiter=None, threshold=0.5)
    add('without history', need=both, limits=box, periodic=True, simplices=big, given={'keep_history': False})
    add('two simplices', need=both, limits=box, periodic=False, simplices=[[[0.], [0.015]], [[1.], [1.02]]], maxiter=2,
        threshold=0.5, feature=2., weight=3)
    add('two dimensions', need=both, limits=box * 2, periodic=True, simplices=tri, maxiter=2, presorted=True, weight=5)
    add('two dimensions, tolerances', need=both, limits=box * 2, periodic=False, simplices=tri, maxiter=2, presorted=True,
        given={'xtol': (0., 0.05)}, feature=2., weight=4)
    for periodic in (True, False):
        word = 'periodic' if periodic else 'open'
        add('{}, fake potential'.format(word), need=['two steps', 'repelled'], limits=box, periodic=periodic,
            simplices=[[[0.], [0.75]]], known=[[0.5]], fake=True, maxiter=2, feature=(1.2, 2.7), threshold=0.5,
            given={'xtol': 0.8, 'ftol': 0.3}, weight=6)
        add('{}, fake potential, defaults'.format(word), need=['two steps'], limits=box, periodic=periodic,
            simplices=[[[0.], [0.05]]], known=[[-0.5]], fake=True, maxiter=2, feature=(1.6, 2.), weight=6)
        add('{}, fake potential, node found'.format(word), need=['two steps', 'repelled or found'], limits=box,
            periodic=periodic, simplices=[[[0.], [0.25]], [[0.5], [1.25]]], fake=True, maxiter=2, feature=2.4,
            threshold=0.5, given={'xtol': 0.9, 'ftol': 0.3, 'maxfev': 100}, presorted=True, weight=6)
        add('{}, fake potential, wider than the box'.format(word), need=['two steps', 'repelled'], limits=[(0, 1)],
            periodic=periodic, simplices=[[[0.6], [0.8]]], known=[[0.01]], fake=True, maxiter=1, feature=(1.9, 2.25),
            threshold=0.5, given={'xtol': 0.8, 'ftol': 0.3}, weight=4)
    add('known node without fake potential', need=['status 0'], limits=box, periodic=True, simplices=[[[0.], [0.75]]],
        known=[[0.5]], maxiter=3, feature=2.1, given={'xtol': 0.8, 'ftol': 0.3}, default='unset', weight=2)
    kinds = list(KINDS)
    unit = [(0, 1)]
    add('ways to give the function', fct=same_search, need=['nodes'], limits=unit, periodic=True, mesh=(2, ), few=3,
        kinds=kinds, stencil=[[[1.5], [2.]]], weight=3)
    add('ways to give the function, 2D', fct=same_search, need=['nodes'], limits=unit * 2, periodic=False, mesh=2, few=3,
        kinds=kinds, stencil='auto', feature_size=2.5, weight=5)
    add('ways to give the function, fake potential', fct=same_search, need=['nodes'], limits=unit, periodic=True, mesh=2,
        few=4, kinds=kinds[::-1], use_fake_potential=True, weight=3)
    if deep:
        add('long, defaults', need=both, limits=box, periodic=True, simplices=big, maxiter=5, weight=20)
        add('two dimensions, long', need=both, limits=box * 2, periodic=True, simplices=tri, maxiter=3, weight=50)
        add('fake potential, long', need=['two steps', 'repelled'], limits=box, periodic=True,
            simplices=[[[0.], [0.75]]], known=[[0.5]], fake=True, maxiter=3, feature=(1.2, 2.7), threshold=0.5,
            given={'xtol': 0.3, 'ftol': 0.3}, weight=40)
    for name, first, second in (
        ('options changed', dict(given={'maxfev': 3}, maxiter=None), dict(given={'keep_history': False, 'xtol': 0.03})),
        ('thresholds changed', dict(threshold=1.), dict(threshold=0.25, feature=2.4)),
        ('fake potential switched off', dict(fake=True, known=[[0.25]], given={'xtol': 0.3, 'ftol': 0.3}), dict(known=[[0.25]])),
    ):
        parts = [dict(dict(limits=box, periodic=True, simplices=big, maxiter=2, threshold=0.5, feature=2., presorted=True), **x)
                 for x in (first, second)]
        res.append(Case(name, in_sequence, params=dict(parts=[(options, x) for x in parts]), budget=600, weight=3,
                        bounds='two searches in one process'))
    return res
