"""Replaces random choices by choices of the solver (or by fixed ones)."""

import contextlib
import random

import numpy as np


@contextlib.contextmanager
def chance(order=None, subset=None):
    """
    order(list) -> permuted list: used for shuffling; subset(list, k) -> list for sampling.
    By default nothing is permuted, and the first elements are sampled.
    """
    if order is None:
        order = list
    if subset is None:
        subset = lambda values, k: order(values)[:k]  # noqa: E731

    def shuffle(x, *_args):
        x[:] = order(list(x))

    def sample(population, k, **_kwargs):
        if isinstance(population, (set, frozenset)):
            raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
        population = list(population)
        if not 0 <= k <= len(population):
            raise ValueError('Sample larger than population or is negative')
        return list(subset(population, k))

    def permutation(x):
        return np.array(order(list(range(x)) if isinstance(x, (int, np.integer)) else list(x)))

    names = [(random, 'shuffle', shuffle), (random, 'sample', sample), (random, 'choice', lambda x: subset(list(x), 1)[0]),
             (random, 'random', lambda: 0.5), (np.random, 'shuffle', shuffle), (np.random, 'permutation', permutation)]
    saved = [(mod, name, getattr(mod, name)) for mod, name, _ in names]
    try:
        for mod, name, new in names:
            setattr(mod, name, new)
        yield
    finally:
        for mod, name, old in saved:
            setattr(mod, name, old)
