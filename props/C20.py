"""C20: rotation constructors return the rotation they are asked for."""
import math
from fractions import Fraction
from engine.harness import Case, flat, rows
from .common import mv, mat, FIXED

ASSUMPTIONS = ["real arithmetic; angles are exact (cos, sin) pairs on the unit circle"]
AXES = [(0, 0, 1), (0, 0, -2), (3, 4, 0), (2, -1, 2), (-2, 3, 6), (1, 0, 0), (0, -1, 0)]


def is_rotation(S, M, tol=1e-6):
    M = mat(M)
    for i in range(3):
        for j in range(i, 3):
            S.eq('rows are orthonormal', S.dot(M[i], M[j]), 1 if i == j else 0, tol=tol)
    S.eq('determinant is one', S.det3(M), 1, tol=tol)


def rodrigues(S, u, c, s):
    K = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
    return [[(c if i == j else 0) + (1 - c) * u[i] * u[j] + s * K[i][j] for j in range(3)] for i in range(3)]


def axis_angle(S, axes=AXES, free=False):
    from czone.transform import rot_v
    th = S.angle('theta')
    c, s = S.cs(th)
    if free:
        u = flat(S.unit('u'))
        v, turns = S.arr(u), 0
    else:
        k = S.real('k', 0, 5)
        S.assume(k > 0.1)
        a = S.choice('axis', axes)
        turns, mag = S.choice('turns', ((0, 1), (1, 1), (-2, 1), (0, Fraction(1, 10**6)), (0, 10**5)))
        if not S.symbolic:
            mag = float(mag)
        v = S.arr([k * mag * x for x in a])
        n = math.isqrt(sum(x * x for x in a))
        u = [Fraction(x, n) if S.symbolic else x / n for x in a]
    M = mat(rot_v(v, th + 2 * math.pi * turns if turns else th))
    S.eq('rotation about the axis by the angle', M, rodrigues(S, u, c, s))


def align_one(S, a):
    """v parallel to vt after rotation; minimal rotation (axis normal to both)"""
    from czone.transform import rot_vtv
    k = S.real('k', 0, 5)
    S.assume(k > 0.1)
    v = S.arr([k * x for x in a])
    b = S.unit('b')
    l = S.real('l', 0, 5)
    S.assume(l > 0.1)
    vt = S.arr([l * x for x in flat(b)])
    n = math.isqrt(sum(x * x for x in a))
    ca = S.dot(a, flat(b))              # n cos(theta)
    S.assume(S.Or(ca > -0.999 * n))
    S.assume(S.Or(ca < 0.999999 * n))
    M = mat(rot_vtv(v, vt))
    S.eq('first vector is turned onto the second', mv(M, list(a)), S.scale(n, flat(b)), tol=1e-5)
    ax = S.crossp(a, flat(b))
    S.eq('turning axis is fixed', mv(M, ax), ax, tol=1e-5)
    S.eq('right-handed frame stays right-handed', mv(M, S.crossp(ax, a)), S.scale(n, S.crossp(ax, flat(b))), tol=1e-5)


def align_fixed(S):
    """parallel and antiparallel vectors, any lengths"""
    from czone.transform import rot_vtv
    a = S.choice('a', ((1, 0, 0), (0, -1, 0), (0, 0, 1), (2, -1, 2), (-3, 0, 4), (1, 1, 1), (1, 2, 3), (-1, -1, 1),
                       (0, 1, 1), (1, 0, -1)))
    sg = S.choice('sense', (1, -1))
    k, l = S.real('k', 0, 5), S.real('l', 0, 5)
    S.assume(S.And(k > 0.1, l > 0.1))
    mag = S.choice('magnitudes', ((1, 1), (Fraction(1, 10**6), 1), (10**5, Fraction(1, 10**5))))
    k, l = [x * (m if S.symbolic else float(m)) for x, m in zip((k, l), mag)]
    M = rot_vtv(S.arr([k * x for x in a]), S.arr([sg * l * x for x in a]))
    S.eq('first vector is turned onto the second', mv(mat(M), list(a)), [sg * x for x in a], tol=1e-5)
    is_rotation(S, M, tol=1e-5)


def align_near(S):
    """vectors that are almost, but not quite, parallel or opposite"""
    from czone.transform import rot_vtv
    N = S.choice('n', (20, 200, 2000, 20000))
    sg = S.choice('sense', (1, -1))
    R = S.choice('frame', FIXED)
    d = N * N + 1
    f = Fraction if S.symbolic else (lambda x, y: x / y)
    b = [f(2 * N, d), 0, sg * f(N * N - 1, d)]        # angle 2/N to the axis
    num = (lambda M: M) if S.symbolic else (lambda M: [[float(x) for x in r] for r in M])
    a, b = mv(num(R), [0, 0, 1]), mv(num(R), b)
    k, l = S.real('k', 0, 5), S.real('l', 0, 5)
    S.assume(S.And(k > 0.1, l > 0.1))
    M = rot_vtv(S.arr([k * x for x in a]), S.arr([l * x for x in b]))
    S.eq('first vector is turned onto the second', mv(mat(M), a), b, tol=1e-7)
    ax = S.crossp(a, b)
    S.eq('turning axis is fixed', mv(mat(M), ax), ax, tol=1e-7)
    is_rotation(S, M, tol=1e-7)


def shapes(S):
    """vectors may come as lists, rows or columns; whole numbers are as good as any"""
    from czone.transform import rot_v, rot_vtv
    import numpy as np
    a, b = S.choice('pair', (((3, 4, 0), (0, 0, 5)), ((2, -1, 2), (-2, 3, 6)), ((0, 0, 2), (0, 0, -1)), ((1, 0, 0), (2, 0, 0))))
    k = S.real('k', 0, 5)
    S.assume(k > 0.1)
    v = [k * x for x in a]
    forms = {'list': list, 'tuple': tuple, 'flat': S.arr, 'row': lambda x: S.arr([list(x)]), 'column': lambda x: S.arr([[y] for y in x])}
    f = S.choice('form', tuple(forms))
    if f == 'list':
        v = list(a)         # whole numbers
    g = S.choice('form of the target', tuple(forms))
    na, nb = [math.isqrt(sum(x * x for x in q)) for q in (a, b)]
    M = mat(rot_vtv(forms[f](v), forms[g](list(b))))
    q = (lambda x, n: Fraction(x, n)) if S.symbolic else (lambda x, n: x / n)
    S.eq('first vector is turned onto the second', mv(M, [q(x, na) for x in a]), [q(x, nb) for x in b], tol=1e-5)
    is_rotation(S, M, tol=1e-5)
    if g == 'flat':
        th = S.angle('th')
        c, s = S.cs(th)
        S.eq('rotation about the axis by the angle', mat(rot_v(forms[f]([k * x for x in a]), th)), rodrigues(S, [q(x, na) for x in a], c, s))


def euler(S):
    from czone.transform import rot_zxz
    al, be, ga = S.angle('alpha'), S.angle('beta'), S.angle('gamma')
    conv = S.choice('convention', ('intrinsic', 'extrinsic', None))
    M = mat(rot_zxz(al, be, ga) if conv is None else rot_zxz(al, be, ga, convention=conv))

    def z(a):
        c, s = S.cs(a)
        return [[c, -s, 0], [s, c, 0], [0, 0, 1]]

    def x(a):
        c, s = S.cs(a)
        return [[1, 0, 0], [0, c, -s], [0, s, c]]

    def mm(A, B):
        return [[sum((A[i][k] * B[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]
    if conv == 'extrinsic':
        # documented order: fixed axes, gamma then beta then alpha
        ref = mm(z(al), mm(x(be), z(ga)))
    else:
        # moving axes, alpha then beta then gamma
        ref = mm(z(al), mm(x(be), z(ga)))
    S.eq('z-x-z rotation', M, ref)


def euler_bad(S):
    from czone.transform import rot_zxz
    S.check('unknown convention is rejected', S.raises(lambda: rot_zxz(0.1, 0.2, 0.3, convention='other')))


def align_many(S, rot='quat'):
    from czone.transform import rot_align
    R = mat(S.quat_rotation('R')) if rot == 'quat' else mat(S.z_rotation('R', axis=S.choice('ax', (0, 1, 2))))
    V = [[1, 0, 0], [0, 2, 0], [0, 1, 3]]
    M = mat(rot_align(S.arr(V), S.arr([mv(R, v) for v in V])))
    for v in V:
        S.eq('every vector is turned onto its target', mv(M, v), mv(R, v), tol=1e-5)
    is_rotation(S, M, tol=1e-5)


def angle_between(S):
    from czone.util.misc import vangle
    a = S.choice('a', ((1, 0, 0), (2, -1, 2), (3, 0, 4)))
    b = S.unit('b')
    k, l = S.real('k', 0, 5), S.real('l', 0, 5)
    S.assume(S.And(k > 0.1, l > 0.1))
    n = math.isqrt(sum(x * x for x in a))
    S.assume(S.And(S.dot(a, flat(b)) < 0.999 * n, S.dot(a, flat(b)) > -0.999 * n))
    th = vangle(S.arr([k * x for x in a]), S.arr([l * x for x in flat(b)]))
    c, s = S.cs(th)
    S.eq('cosine of the angle', c * n, S.dot(a, flat(b)), tol=1e-5)
    S.check('angle is in [0, pi]', s >= 0)


def angle_ends(S):
    """parallel and opposite vectors of any kind: the angle is 0 or pi"""
    from czone.util.misc import vangle
    a = S.choice('a', ((1.0, 1.0, 1.0), (2.0, 1.0, 1.0), (0.1, 0.2, 0.3), (-3.0, 1.0, 7.0), (0.0, 0.0, 2.0)))
    k = S.choice('k', (1.0, 3.0, -1.0, -0.7))
    th = float(vangle(S.arr(list(a)), S.arr([k * x for x in a])))
    S.check('parallel vectors enclose no angle, opposite ones half a turn', abs(th - (0 if k > 0 else math.pi)) < 1e-6)


CASES = [
    Case('axis-angle', axis_angle, f'axes k*{AXES}, any k in (0.1,5) x {1, 1e-6, 1e5}, any angle in (-pi,pi), plus 0, 1 or -2 whole turns'),
    Case('axis-angle-free', axis_angle, 'any unit axis, any angle', kwargs=dict(free=True)),
    *[Case(f'align-one-{i}', align_one, f'from k*{a}, any k, to any target direction (cos in (-0.999,0.999999)), any lengths',
           kwargs=dict(a=a)) for i, a in enumerate(((1, 0, 0), (0, -1, 0), (2, -1, 2), (3, 0, 4)))],
    Case('align-collinear', align_fixed, '10 directions, parallel and antiparallel, any lengths'),
    Case('align-near', align_near, 'angles 0.1, 0.01, 1e-3 and 1e-4 from parallel and opposite, in 4 frames, any lengths'),
    Case('shapes', shapes, '4 pairs of directions, any length, as list, tuple, flat array, row or column'),
    Case('euler', euler, 'any three angles in (-pi,pi), both conventions'),
    Case('euler-bad', euler_bad, 'unknown convention'),
    Case('align-many', align_many, '3 vectors, any rotation about x, y or z', kwargs=dict(rot='axis')),
    Case('align-many-any', align_many, '3 vectors, any rotation', thorough_only=True),
    Case('angle-between', angle_between, '3 directions x any direction, any lengths'),
    Case('angle-ends', angle_ends, '5 vectors and 4 multiples of each'),
]
