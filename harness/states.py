"""Search states with symbolic content, saving and comparing them."""

import os

import numpy as np

from .common import scratch


def kind(v):
    if isinstance(v, (bool, np.bool_)):
        return 'bool'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, (int, np.integer)):
        return 'int'
    if isinstance(v, np.ndarray) and v.ndim:
        return 'array{}'.format(v.shape)
    if isinstance(v, (list, tuple)):
        return type(v).__name__
    if v is None:
        return 'none'
    return 'float'


def same(ctx, label, a, b):
    """a was saved, b was loaded."""
    ctx.check(label + ': type', kind(a) == kind(b), '{} {}'.format(kind(a), kind(b)))
    if kind(a) in ('str', 'int', 'bool'):
        ctx.check(label, a == b)
    else:
        ctx.check(label, ctx.close(a, b, 1e-9))


def same_result(ctx, label, a, b):
    """Minimization results (normalized positions are compared by the caller if needed)"""
    ctx.check(label + ': class', type(a) is type(b))
    if hasattr(a, 'child'):
        same_result(ctx, label + ' ancestor', a.ancestor, b.ancestor)
        same_result(ctx, label + ' child', a.child, b.child)
        for key in ('pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter', 'simplex_history',
                    'fun_simplex_history'):
            same(ctx, '{} {}'.format(label, key), getattr(a, key), getattr(b, key))
        return
    ctx.check(label + ': fields', sorted(vars(a)) == sorted(vars(b)))
    for key in vars(a):
        same(ctx, '{} {}'.format(label, key), getattr(a, key), getattr(b, key))


def same_cs(ctx, label, a, b):
    ctx.check(label + ': class', type(a) is type(b))
    same(ctx, label + ' limits', a.limits, b.limits)
    ctx.check(label + ' periodic', bool(a.periodic) == bool(b.periodic))
    ctx.check(label + ' dim', a.dim == b.dim)
    same(ctx, label + ' size', a.size, b.size)


def same_container(ctx, label, a, b):
    ctx.check(label + ': class', type(a) is type(b))
    same_cs(ctx, label + ' coordinate system', a.coordinate_system, b.coordinate_system)
    same(ctx, label + ' threshold', a.gap_threshold, b.gap_threshold)
    same(ctx, label + ' cutoff', a.dist_cutoff, b.dist_cutoff)
    for name in ('nodes', 'rejected_results'):
        x, y = list(getattr(a, name)), list(getattr(b, name))
        ctx.check('{} {}: number'.format(label, name), len(x) == len(y))
        for p, q in zip(x, y):
            same_result(ctx, '{} {}'.format(label, name), p, q)
    x, y = list(a.refined_results), list(b.refined_results)
    ctx.check(label + ' refined: number', len(x) == len(y))
    for p, q in zip(x, y):
        ctx.check(label + ' refined', ctx.close(list(p), list(q), 1e-9))


def rows(obj):
    """nested lists of a position or simplex"""
    return [[x for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v for v in obj]


def same_objects(ctx, label, x, y, ordered=True):
    """queued objects"""
    x, y = [rows(o) for o in x], [rows(o) for o in y]
    ctx.check(label + ': number', len(x) == len(y), '{} {}'.format(len(x), len(y)))

    def eq(p, q):
        return ctx.close(p, q, 1e-9) if np.shape(p) == np.shape(q) else False

    if ordered:
        for p, q in zip(x, y):
            ctx.check(label, eq(p, q))
    else:
        for p in x:
            ctx.check(label + ': kept', ctx.any([eq(p, q) for q in y]))
        for q in y:
            ctx.check(label + ': nothing else', ctx.any([eq(p, q) for p in x]))


def roundtrip(obj, times=1):
    from nodefinder import io
    with scratch() as path:
        name = os.path.join(path, 'file.hdf5')
        for _ in range(times):
            io.save(obj, name)
            obj = io.load(name)
    return obj
