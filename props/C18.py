"""C18: distance functions give the distance to the nearest periodic image."""
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["coordinates lie inside the periodic box"]


def points(S, name, n, dims):
    return [[S.real(f'{name}{i}.{k}', 0, 1) * dims[k] for k in range(3)] for i in range(n)]


def nearest2(S, a, b, dims, per):
    """squared distance to the nearest periodic image, for coordinates inside the box"""
    r = 0
    for k in range(3):
        d = S.abs(a[k] - b[k])
        if per[k]:
            d = S.min(d, dims[k] - d)
        r = r + d * d
    return r


def images(S, got, a, b, dims, per, label=''):
    S.eq(label + 'distance to the nearest image', got, nearest2(S, a, b, dims, per))


def box(S, sym):
    return [S.real(f'L{k}', 1, 20) for k in range(3)] if sym else [4.0, 5.0, 3.0]


def sdist(S, n=1, m=1, flags=None, sym=True):
    S.purify()
    from czone.util.measure import get_sdist_fun
    import numpy as np
    dims = box(S, sym)
    per = flags or tuple(S.choice(f'periodic{k}', (True, False)) for k in range(3))
    A, B = points(S, 'a', n, dims), points(S, 'b', m, dims)
    f = get_sdist_fun(S.arr(dims), *per)
    X, Y = S.arr(A)[:, :, None], S.arr([[[q[k] for q in B] for k in range(3)]])
    out = f(X, Y)
    got = rows(out)
    S.check('one distance per pair', len(got) == n and all(len(r) == m for r in got))
    for i in range(n):
        for j in range(m):
            images(S, got[i][j], A[i], B[j], dims, per)
    S.eq('inputs are not modified', flat(X), [x for p in A for x in p])
    back = rows(f(S.arr(B)[:, :, None], S.arr([[[q[k] for q in A] for k in range(3)]])))
    for i in range(n):
        for j in range(m):
            S.eq('the other way round: distance to the nearest image', back[j][i], nearest2(S, B[j], A[i], dims, per))


def plain(S):
    S.purify()
    from czone.util.measure import get_sdist_fun
    A, B = rows(S.array('a', (2, 3))), rows(S.array('b', (2, 3)))
    f = get_sdist_fun()
    got = flat(f(S.arr(A), S.arr(B)))
    for i in range(2):
        S.eq('plain squared distance', got[i], S.norm2(S.sub(A[i], B[i])))


def pdist(S, n=2, sym=True):
    S.purify()
    from czone.generator.amorphous_algorithms import get_p_dist
    dims = box(S, sym)
    A, b = points(S, 'a', n, dims), points(S, 'b', 1, dims)[0]
    X = S.arr(A)
    got = flat(get_p_dist(X, S.arr([b]), S.arr(dims)))
    S.check('one distance per atom', len(got) == n)
    for i in range(n):
        images(S, got[i], A[i], b, dims, (True, True, False))
    S.eq('inputs are not modified', X, [x for p in A for x in p])


def batch(S, n=2, m=2):
    """a candidate is accepted exactly when it is farther than the limit from all its atoms"""
    S.purify()
    from czone.generator.amorphous_algorithms import get_p_dist_batch
    dims = box(S, False)
    md2 = S.real('md2', 0.1, 4)
    A = [points(S, f'a{j}', n, dims) for j in range(m)]
    B = points(S, 'b', m, dims)
    got = flat(get_p_dist_batch(S.arr(A), S.arr(B), S.arr(dims), md2))
    S.check('one answer per candidate', len(got) == m)
    for j in range(m):
        v = [nearest2(S, a, B[j], dims, (True, True, False)) for a in A[j]]
        S.check('far candidates are accepted', S.Implies(S.And(*[x > md2 + 1e-6 for x in v]), got[j]))
        S.check('near candidates are rejected', S.Implies(S.Or(*[x < md2 - 1e-6 for x in v]), S.Not(got[j])))


CASES = [
    Case('plain', plain, '2 pairs, no periodicity'),
    Case('pair', sdist, 'any two points in any box, any periodicity'),
    Case('pairs', sdist, '2x2 points in a 4x5x3 box, any periodicity', kwargs=dict(n=2, m=2, sym=False)),
    Case('substrate', pdist, '2 atoms and a point, any box'),
    Case('batch', batch, '1 candidate, 2 atoms', kwargs=dict(m=1)),
    Case('batch-2', batch, '2 candidates, 1 atom each', kwargs=dict(n=1, m=2)),
]
