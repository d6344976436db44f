"""C30: the radial distribution counts every pair of points at its nearest-image distance, in steps of 0.1."""
from fractions import Fraction
from engine.harness import Case, flat
from props.C18 import nearest2

ASSUMPTIONS = ["no pair is within 1e-6 of the edge of a step"]


FIXED = ((0.125, 0.875, 0.9375), (0.875, 0.125, 0.625))


def rdf(S, corners=((0, 0, 0), (1.3, 0.9, 0.7)), n=2, cutoffs=(0.3, 0.5), flags=None, swap=True, line=None, fixed=FIXED):
    """two given points span the box; the others are anywhere in it"""
    from czone.util.measure import calc_rdf
    S.fork_casts(minmax=True)
    f = (lambda x: Fraction(str(x))) if S.symbolic else float
    per = S.choice('periodic', flags or [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)])
    cut = S.choice('cutoff', cutoffs)
    shift = (-3, 0.5, 7)
    lo = [f(x) for x in corners[0]]
    dims = [f(b) - f(a) for a, b in zip(*corners)]
    pts = [[0, 0, 0], list(dims)]
    for i in range(n):
        ax = (0, 1, 2) if line is None else (S.choice(f'axis{i}', line),)
        pts.append([S.real(f'p{i}.{k}', 0, 1) * dims[k] if k in ax else f(fixed[i][k]) * dims[k] for k in range(3)])
    if swap and S.choice('order', (False, True)):
        pts = pts[::-1]
    m = int(round(cut * 10))
    d2 = {(i, j): nearest2(S, pts[i], pts[j], dims, per) for i in range(len(pts)) for j in range(i)}
    X = S.arr([[x + f(a) + f(s) for x, a, s in zip(p, corners[0], shift)] for p in pts])
    keep = S.arr(X)
    out = calc_rdf(X, cutoff=cut, px=per[0], py=per[1], pz=per[2])
    for d in d2.values():
        for k in range(1, m + 1):
            e = f(k) / 10
            S.assume(S.Or(d < (e - f(1e-6)) ** 2, d > (e + f(1e-6)) ** 2))
    got = flat(out)
    S.check('one count for every step of 0.1 up to the cutoff', len(got) == m)
    for k in range(1, m):
        lo2, hi2 = (f(k) / 10) ** 2, (f(k + 1) / 10) ** 2
        want = sum((S.ite(S.And(d >= lo2, d < hi2), 2, 0) for d in d2.values()), 0)
        S.check('a step counts the pairs at that distance, both ways', got[k] == want)
    S.check('the first step is left empty', got[0] == 0)


def open_pair(S):
    """two points anywhere, no periodicity"""
    S.fork_casts()
    from czone.util.measure import calc_rdf
    a, b = flat(S.vec('a', lo=-3, hi=3)), flat(S.vec('b', lo=-3, hi=3))
    f = (lambda x: Fraction(str(x))) if S.symbolic else float
    d = S.norm2(S.sub(a, b))
    cut = S.choice('cutoff', (1.0, 0.7))
    m = int(round(cut * 10))
    S.assume(d < 4)
    for k in range(1, m + 1):
        S.assume(S.Or(d < (f(k) / 10 - f(1e-6)) ** 2, d > (f(k) / 10 + f(1e-6)) ** 2))
    got = flat(calc_rdf(S.arr([a, b]), cutoff=cut, px=False, py=False, pz=False))
    S.check('one count for every step of 0.1 up to the cutoff', len(got) == m)
    for k in range(1, m):
        S.check('a step counts the pair at that distance, both ways',
                got[k] == S.ite(S.And(d >= (f(k) / 10) ** 2, d < (f(k + 1) / 10) ** 2), 2, 0))
    S.check('the first step is left empty', got[0] == 0)


CASES = [
    Case('line', rdf, 'box 1.3 x 0.9 x 0.7 spanned by two points, one more anywhere on a line, any periodicity, cutoffs 0.3 and 0.5',
         kwargs=dict(n=1, line=(0, 1, 2), swap=False)),
    Case('lines', rdf, 'two more points on lines, periodic in all directions or in y and z, cutoff 0.5',
         kwargs=dict(n=2, line=(0,), cutoffs=(0.5,), swap=False, flags=((True, True, True), (False, True, True)))),
    Case('near', rdf, 'two more points close together on lines along y, cutoff 0.3',
         kwargs=dict(n=2, line=(1,), cutoffs=(0.3,), swap=False, flags=((False, False, False), (True, True, True)),
                     fixed=((0.25, 0, 0.8), (0.3, 0, 0.75)))),
    Case('long', rdf, 'two more points close together on lines along x, cutoff 0.4',
         kwargs=dict(n=2, corners=((0, 0, 0), (1.5, 0.9, 0.7)), line=(0,), cutoffs=(0.4,), swap=False, flags=((False, False, False), (True, False, True)),
                     fixed=((0, 0.25, 0.8), (0, 0.3, 0.75)))),
    Case('open', open_pair, 'two points anywhere within 2 of each other, cutoffs 1.0 and 0.7'),
    Case('lines-open', rdf, 'two more points on lines, periodic in at most one direction, cutoff 0.3',
         kwargs=dict(n=2, line=(0,), cutoffs=(0.3,), swap=False, flags=((False, False, False), (True, False, False), (False, False, True))), thorough_only=True),
    Case('one', rdf, 'one more point anywhere in the box', kwargs=dict(n=1), thorough_only=True),
]
