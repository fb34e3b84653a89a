"""Ownership of numpy's global random functions.

Inside `controlled(choices, budget)` every draw the code makes through the
numpy.random module is answered by the explorer.  At most `budget` calls of a
run return something other than the default (identity order, first sample), in
analogy to a preemption bound; within the budget every alternative of every
call is enumerated.  The alternatives are all orders (up to four elements; the
reversal, rotations and adjacent transpositions beyond) and all samples.
"""

import contextlib
import itertools

import numpy


def orders(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    identity = list(range(n))
    result = [tuple(identity), tuple(reversed(identity))]
    result += [tuple(identity[k:] + identity[:k]) for k in range(1, n)]
    for k in range(n - 1):
        other = list(identity)
        other[k], other[k + 1] = other[k + 1], other[k]
        result.append(tuple(other))
    return result


@contextlib.contextmanager
def controlled(choices, budget):
    left = [budget]
    saved = {name: getattr(numpy.random, name)
             for name in ('choice', 'shuffle', 'permutation')}

    def reorder(n):
        return select(orders(n))

    def select(alternatives):
        if len(alternatives) < 2 or left[0] <= 0:
            return alternatives[0]
        pick = choices.pick(len(alternatives))
        if pick:
            left[0] -= 1
        return alternatives[pick]

    def shuffle(x):
        order = list(reorder(len(x)))
        if isinstance(x, numpy.ndarray):
            x[:] = x[order].copy()
        else:
            x[:] = [x[i] for i in order]

    def permutation(x):
        values = numpy.arange(x) if isinstance(x, (int, numpy.integer)) else numpy.array(x)
        return values[list(reorder(len(values)))]

    def choice(a, size=None, replace=True, p=None):
        values = numpy.arange(a) if isinstance(a, (int, numpy.integer)) else numpy.asarray(a)
        n = len(values)
        count = 1 if size is None else int(size)
        if replace:
            picks = list(select(list(
                itertools.combinations_with_replacement(range(n), count))))
        else:
            if count > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            picks = list(select(list(itertools.combinations(range(n), count))))
        if size is None:
            return values[picks[0]]
        return values[numpy.asarray(picks, dtype='int64')] if picks else values[:0]

    numpy.random.choice = choice
    numpy.random.shuffle = shuffle
    numpy.random.permutation = permutation
    try:
        yield
    finally:
        for name, function in saved.items():
            setattr(numpy.random, name, function)
