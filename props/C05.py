"""C05: primitive surfaces (sphere, half space, finite cylinder): interior, distances, projection."""
from engine.harness import Case, flat, rows

TOL = 1e-5
ASSUMPTIONS = ["real arithmetic (no rounding); points inside the tolerance band |d| <= 2*tol are not claimed"]


def sphere(S, npts=2):
    from czone.volume.algebraic import Sphere
    r = S.real('r', 0, 20)
    S.assume(r > 0.001)
    c = S.vec('c')
    P = S.array('p', (npts, 3))
    s = Sphere(radius=r, center=c)
    got = flat(s.checkIfInterior(P))
    S.check('one answer per point', len(got) == npts)
    for i, p in enumerate(rows(P)):
        d2 = S.norm2(S.sub(p, c))
        S.observe(f'in{i}', got[i])
        S.check('points closer than the radius are interior', S.Implies(d2 < r * r, got[i]))
        S.check('points beyond the radius are exterior', S.Implies(d2 > (r + 2 * TOL) * (r + 2 * TOL), S.Not(got[i])))


def plane(S, npts=2, unnorm=True):
    from czone.volume.algebraic import Plane
    n = S.vec('n', lo=-5, hi=5)
    S.assume(S.norm2(n) > 0.01)
    q = S.vec('q')
    P = S.array('p', (npts, 3))
    pl = Plane(normal=n, point=q)
    S.eq('normal is unit', S.norm2(pl.normal), 1)
    for k in range(3):
        S.eq('normal keeps its direction', S.crossp(n, flat(pl.normal)), [0, 0, 0])
    S.check('normal keeps its sense', S.dot(n, flat(pl.normal)) > 0)
    got = flat(pl.checkIfInterior(P))
    sd = flat(pl.sdist_from_plane(P))
    ad = flat(pl.dist_from_plane(P))
    S.check('one answer per point', S.And(len(got) == npts, len(sd) == npts, len(ad) == npts))
    n2 = S.norm2(n)
    for i, p in enumerate(rows(P)):
        h = S.dot(n, S.sub(p, q))            # |n| * signed distance
        S.eq('signed distance', sd[i] * sd[i] * n2, h * h)
        S.check('sign of the distance', S.And(S.Implies(h > 0, sd[i] > 0), S.Implies(h < 0, sd[i] < 0)))
        S.check('distance is the absolute value', S.Or(ad[i] == sd[i], ad[i] == -sd[i]))
        S.check('distance is not negative', ad[i] >= 0)
        S.check('points behind the plane are interior', S.Implies(h < 0, got[i]))
        S.check('points in front of the plane are exterior',
                S.Implies(S.And(h > 0, h * h > n2 * (4 * TOL * TOL)), S.Not(got[i])))
        S.observe(f'in{i}', got[i])


def plane_project(S, npts=2):
    from czone.volume.algebraic import Plane
    n = S.vec('n', lo=-5, hi=5)
    S.assume(S.norm2(n) > 0.01)
    q = S.vec('q')
    P = S.array('p', (npts, 3))
    pl = Plane(normal=n, point=q)
    pr = rows(pl.project_point(P))
    S.check('one projection per point', len(pr) == npts)
    for p, x in zip(rows(P), pr):
        S.eq('projection lies on the plane', S.dot(n, S.sub(x, q)), 0)
        S.eq('displacement is along the normal', S.crossp(n, S.sub(p, x)), [0, 0, 0], tol=1e-5)


def plane_flip(S):
    from czone.volume.algebraic import Plane
    n = S.vec('n', lo=-5, hi=5)
    S.assume(S.norm2(n) > 0.01)
    q = S.vec('q')
    P = S.array('p', (1, 3))
    pl = Plane(normal=n, point=q)
    a = flat(pl.checkIfInterior(P))[0]
    pl = pl.flip_orientation()
    b = flat(pl.checkIfInterior(P))[0]
    h = S.dot(n, S.sub(rows(P)[0], q))
    S.check('flipping exchanges the sides',
            S.Implies(h * h > S.norm2(n) * (4 * TOL * TOL), S.Iff(a, S.Not(b))))


AXES = [(0, 0, 1), (3, 4, 0), (2, -1, 2), (1, 0, 0), (-2, 3, 6), (1, 1, 1), (1, 2, 0), (0, 1, -1)]


def cylinder(S, npts=1, axes=AXES, free=False):
    from czone.volume.algebraic import Cylinder
    if free:
        a = S.vec('a', lo=-3, hi=3)
        S.assume(S.norm2(a) > 0.01)
    else:
        k = S.real('k', 0, 4)
        S.assume(k > 0.1)
        a = S.arr([k * x for x in S.choice('axis', axes)])
    q = S.vec('q')
    r = S.real('r', 0, 20)
    L = S.real('L', 0, 20)
    S.assume(S.And(r > 0.001, L > 0.001))
    P = S.array('p', (npts, 3))
    cy = Cylinder(axis=a, point=q, radius=r, length=L)
    got = flat(cy.checkIfInterior(P))
    S.check('one answer per point', len(got) == npts)
    a2 = S.norm2(a)
    for i, p in enumerate(rows(P)):
        d = S.sub(p, q)
        h = S.dot(a, d)
        rr = S.norm2(S.crossp(d, a))         # |a|^2 * (distance to the axis)^2
        S.observe(f'in{i}', got[i])
        inside = S.And(rr < a2 * r * r, 4 * h * h < a2 * L * L)
        outside = S.Or(rr > a2 * (r + 2 * TOL) * (r + 2 * TOL), 4 * h * h > a2 * (L + 4 * TOL) * (L + 4 * TOL))
        S.check('points within radius and half length are interior', S.Implies(inside, got[i]))
        S.check('points beyond radius or half length are exterior', S.Implies(outside, S.Not(got[i])))


CASES = [
    Case('sphere', sphere, '2 points, centre and points in [-50,50]^3, radius in (0.001,20]'),
    Case('plane', plane, '2 points in [-50,50]^3, any normal of components in [-5,5]'),
    Case('plane-projection', plane_project, '2 points, any normal'),
    Case('plane-flip', plane_flip, '1 point, any normal'),
    Case('cylinder', cylinder, f'1 point; axis k*v for v in {AXES}, any k; any centre, radius and length in (0.001,20]'),
    Case('cylinder-batch', cylinder, '3 points, axis k*(2,-1,2)', kwargs=dict(npts=3, axes=[(2, -1, 2)])),
    Case('cylinder-free-axis', cylinder, '1 point, any axis in [-3,3]^3', kwargs=dict(free=True), thorough_only=True),
]
