"""C06: surfaces move with their points under isometries."""
from engine.harness import Case, flat, rows
from .common import isometry, apply, mv, mat

ASSUMPTIONS = ["real arithmetic; transformed points outside a 1e-4 band around the surface"]
KINDS = ('translation', 'rotation', 'inversion', 'reflection')


def _check(S, obj, T, M, t, p, margin):
    """p interior before  <=>  T p interior after, for points that are clearly inside / outside"""
    q = apply(S, M, t, p)
    before = flat(obj.checkIfInterior(S.arr([flat(p)])))
    obj2 = T.applyTransformation_alg(obj)
    after = flat(obj2.checkIfInterior(S.arr([q])))
    S.observe('b', before)
    S.observe('a', after)
    S.check('interior membership moves with the surface', S.Implies(margin, S.Iff(before[0], after[0])))
    return obj2


def sphere(S, kinds=KINDS, rot='quat'):
    from czone.volume.algebraic import Sphere
    T, M, t = isometry(S, kinds, rot=rot)
    c, p = S.vec('c', lo=-10, hi=10), S.vec('p', lo=-10, hi=10)
    r = S.real('r', 0, 20)
    S.assume(r > 0.01)
    d2 = S.norm2(S.sub(p, c))
    o = _check(S, Sphere(radius=r, center=c), T, M, t, p, S.Or(d2 < r * r, d2 > (r + 1e-3) * (r + 1e-3)))
    S.eq('radius is unchanged', o.radius, r)
    S.eq('center moves as a point', o.center, apply(S, M, t, c))


def plane(S, kinds=KINDS, rot='quat'):
    from czone.volume.algebraic import Plane
    T, M, t = isometry(S, kinds, rot=rot)
    k = S.real('k', 0, 5)
    S.assume(k > 0.1)
    n = S.choice('n', ((0, 0, 1), (2, -1, 2), (0, 3, 4)))
    q, p = S.vec('q', lo=-10, hi=10), S.vec('p', lo=-10, hi=10)
    h = S.dot(n, S.sub(p, q))
    _check(S, Plane(normal=S.arr([k * x for x in n]), point=q), T, M, t, p, S.Or(h < 0, h > 1e-3))


def cylinder(S, kinds=KINDS, rot='axis', lmax=20):
    from czone.volume.algebraic import Cylinder
    T, M, t = isometry(S, kinds, rot=rot, origin=False)
    a = S.choice('axis', ((0, 0, 1), (2, -1, 2), (0, 3, 4)))
    q, p = S.vec('q', lo=-10, hi=10), S.vec('p', lo=-10, hi=10)
    r, L = S.real('r', 0, 20), S.real('L', 0, lmax)
    S.assume(S.And(r > 0.01, L > 0.01))
    d = S.sub(p, q)
    h = S.dot(a, d)
    a2 = S.norm2(a)
    rr = S.norm2(S.crossp(d, a))
    e = 1e-3
    inside = S.And(rr < a2 * r * r, 4 * h * h < a2 * L * L)
    outside = S.Or(rr > a2 * (r + e) * (r + e), 4 * h * h > a2 * (L + e) * (L + e))
    o = _check(S, Cylinder(axis=list(a), point=q, radius=r, length=L), T, M, t, p, S.Or(inside, outside))
    S.eq('radius and length are unchanged', [o.radius, o.length], [r, L])
    S.eq('center moves as a point', o.point, apply(S, M, t, q))
    S.eq('axis turns with the transform', S.crossp(mv(M, a), flat(o.axis)), [0, 0, 0])


def integers(S):
    """surfaces and moves given in whole numbers (a grid of sites) move like any other"""
    import numpy as np
    from czone.volume.algebraic import Sphere, Cylinder, Plane
    from czone.transform import Translation, Inversion, Rotation
    how = S.choice('move', ('real', 'whole', 'turn', 'invert'))
    q = [3, -2, 5]
    if how == 'real':
        t = flat(S.vec('t', lo=-10, hi=10))
        T, M = Translation(shift=S.arr(t)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif how == 'whole':
        t = [4, 0, -3]
        T, M = Translation(shift=np.array(t)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif how == 'turn':
        M, t = mat(S.z_rotation('R', axis=S.choice('axis', (0, 2)))), [0, 0, 0]
        T = Rotation(matrix=S.arr(M))
    else:
        o = flat(S.vec('o', lo=-10, hi=10))
        M, t = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [2 * x for x in o]
        T = Inversion(origin=S.arr(o))
    kind = S.choice('kind', ('sphere', 'cylinder', 'plane'))
    give = S.choice('given', ('array', 'list'))
    c = np.array(q) if give == 'array' else list(q)
    p = flat(S.vec('p', lo=-20, hi=20))
    d = S.sub(p, q)
    if kind == 'sphere':
        o = Sphere(radius=2, center=c)
        m = S.Or(S.norm2(d) < 3.99, S.norm2(d) > 4.01)
    elif kind == 'cylinder':
        o = Cylinder(axis=np.array([0, 0, 1]) if give == 'array' else [0, 0, 1], point=c, radius=2, length=6)
        rr = d[0] * d[0] + d[1] * d[1]
        m = S.Or(S.And(rr < 3.99, d[2] * d[2] < 8.99), rr > 4.01, d[2] * d[2] > 9.01)
    else:
        o = Plane(normal=np.array([0, 0, 1]) if give == 'array' else [0, 0, 1], point=c)
        m = S.Or(d[2] < 0, d[2] > 1e-3)
    o = _check(S, o, T, M, t, p, m)
    if kind != 'plane':
        S.eq('center moves as a point', o.center if kind == 'sphere' else o.point, S.addv(mv(M, q), t))
    S.check('the numbers given are left alone', list(c) == q)


CASES = [
    Case('integers', integers, 'a sphere, cylinder and plane at whole-number sites (arrays, lists); any or whole shift, turns by any angle, inversion'),
    Case('sphere', sphere, 'any centre, point, radius; translation, any rotation (angle != pi), inversion, 4 mirror normals; any origin'),
    Case('plane', plane, '3 normals x any length, any point; same transforms'),
    Case('cylinder', cylinder, '3 axes, any centre, radius, length; translations, rotations about x,y,z by any angle, inversion, mirrors'),
    Case('cylinder-long', cylinder, 'cylinders up to 500 long, translations and inversion', kwargs=dict(kinds=('translation', 'inversion'), lmax=500)),
    Case('cylinder-any-rotation', cylinder, 'any rotation', kwargs=dict(kinds=('rotation',), rot='quat'), thorough_only=True),
]
