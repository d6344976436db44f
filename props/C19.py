"""C19: random split positions are sorted, in range and separated; impossible requests are refused."""
from engine.harness import Case, flat

ASSUMPTIONS = ["random numbers are free choices; executions with more draws than stated are cut"]


def splits(S, n, mhi=3, lhi=12, extra=2, mlo=1, llo=0, first=()):
    from czone.util.misc import get_N_splits
    S.max_draws(n + extra)
    if first:
        # a given start that leaves no room, so that the search starts over
        S.first_draws(S.choice('first', first))
    m = S.fork_int('m', mlo, mhi)
    l = S.fork_int('l', llo, lhi)
    possible = l - 2 * m > (n - 1) * m
    if not possible:
        if n:
            S.max_draws(n + 6, hang=True)
            S.check('impossible requests are refused', S.raises(lambda: get_N_splits(n, m, l, seed=3), ValueError))
            return
    out = list(get_N_splits(n, m, l, seed=3))
    S.check('as many positions as asked', len(out) == n)
    for k in range(n):
        S.check('positions keep away from both ends', S.And(out[k] >= m, out[k] < l - m))
        if k:
            S.check('positions are sorted and separated', out[k] - out[k - 1] >= m)


def repeated(S):
    """the same seed gives the same positions"""
    from czone.util.misc import get_N_splits
    n = S.choice('n', (1, 2))
    S.max_draws(2 * (n + 1))
    m, l = S.fork_int('m', 1, 2), 9
    seed = S.choice('seed', (0, 5))
    a = list(get_N_splits(n, m, l, seed=seed))
    get_N_splits(1, 1, 5)
    b = list(get_N_splits(n, m, l, seed=seed))
    S.check('the same seed gives the same positions', S.And(len(a) == len(b) == n, *[x == y for x, y in zip(a, b)]))


CASES = [
    Case('none', splits, 'no splits', kwargs=dict(n=0), terminates=True),
    Case('one', splits, '1 split, separation 1..3, length 0..12', kwargs=dict(n=1), terminates=True),
    Case('two', splits, '2 splits, separation 1..3, length 0..12', kwargs=dict(n=2), terminates=True),
    Case('three', splits, '3 splits, separation 1..2, length 0..9, one reseed', kwargs=dict(n=3, mhi=2, lhi=9), terminates=True),
    Case('four-again', splits, '4 splits, separation 2, length 12, after two starts that leave no room', kwargs=dict(n=4, mlo=2, mhi=2, llo=12, lhi=12, extra=3, first=((1, 1, 0), (4, 1, 0)))),
    Case('four-wide', splits, '4 splits, separation 5, length 27, after a start that leaves no room', kwargs=dict(n=4, mlo=5, mhi=5, llo=27, lhi=27, extra=3, first=((3, 1, 0, 0), (3, 1, 0, 1, 0)))),
    Case('repeated', repeated, '1 or 2 splits of 9, separation 1..2, seeds 0 and 5, asked twice', terminates=True),
    Case('four', splits, '4 splits, separation 1..2, length 0..12', kwargs=dict(n=4, mhi=2, lhi=12), terminates=True, thorough_only=True),
]
