"""C10: the bounding region of a volume encloses its whole interior."""
from engine.harness import Case, flat, rows, SBase

ASSUMPTIONS = ["enclosure is judged by support: in each direction tried, no interior point lies beyond all vertices; "
               "bounded regions; plane sets have fixed normals and free offsets"]
DIRS = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 1), (-1, 1, 0), (2, -1, 2), (-2, 1, -2),
        (3, -2, 6), (-1, -2, 5), (1, -4, -3))
T_ = 1e-4


def enclosed(S, V, ps, name, dirs=DIRS, cond=True):
    u = S.choice('u', dirs)
    V = rows(V)
    S.check(name + ': has vertices', S.Implies(cond, len(V) > 3))
    for p in ps:
        hp = S.dot(u, p)
        S.check(name, S.Implies(cond, S.Or(*[S.dot(u, v) >= hp - T_ for v in V])))


def in_sphere(S, p, c, r):
    return S.norm2(S.sub(p, c)) < r * r


def in_cyl(S, p, a, c, r, L):
    d = S.sub(p, c)
    a2 = S.norm2(a)
    h = S.dot(a, d)
    return S.And(S.norm2(d) * a2 - h * h < a2 * r * r, 4 * h * h < a2 * L * L)


def spheres(S, n=1, plane=False):
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere, Plane
    objs, conds = [], []
    p = flat(S.vec('p', lo=-30, hi=30))
    for k in range(n):
        c, r = flat(S.vec(f'c{k}', lo=-10, hi=10)), S.real(f'r{k}', 0, 10)
        S.assume(r > 0.01)
        objs.append(Sphere(radius=r, center=S.arr(c)))
        conds.append(in_sphere(S, p, c, r))
    if plane:
        q = flat(S.vec('q', lo=-10, hi=10))
        objs.insert(0, Plane(normal=[0, 3, 4], point=S.arr(q)))
        conds.append(S.dot([0, 3, 4], S.sub(p, q)) < 0)
    v = Volume(alg_objects=objs)
    bb = v.get_bounding_box()
    enclosed(S, bb, [p], 'sphere interior lies within the bounding region', cond=S.And(*conds), dirs=DIRS[:6] + DIRS[8:11])
    for k in range(n):
        S.eq('surfaces are unchanged', v.alg_objects[k + plane].center, flat(S.vec(f'c{k}', lo=-10, hi=10)))


FRAMES = {(0, 0, 1): ((1, 0, 0), (0, 1, 0)), (3, 4, 0): ((-4, 3, 0), (0, 0, 1)), (2, -1, 2): ((1, 2, 0), (4, -2, -5)),
          (1, 1, 1): ((1, -1, 0), (1, 1, -2)), (1, 0, -1): ((1, 0, 1), (0, 1, 0)), (0, 0, -1): ((0, 1, 0), (1, 0, 0)), (-2, 1, -2): ((1, 2, 0), (-4, 2, 5)), (-1, 5, 2): ((5, 1, 0), (2, -10, 26))}


def cylinder(S, axes, direct=False, dirs=DIRS[:3] + DIRS[6:9] + DIRS[10:11]):
    from czone.volume import Volume
    from czone.volume.algebraic import Cylinder
    a = S.choice('axis', axes)
    e1, e2 = FRAMES[a]
    c, r, L = flat(S.vec('c', lo=-10, hi=10)), S.real('r', 0, 10), S.real('L', 0, 10)
    S.assume(S.And(r > 0.01, L > 0.01))
    # any point of the cylinder, in the frame of its axis
    s, x, y = S.real('s', -20, 20), S.real('x', -20, 20), S.real('y', -20, 20)
    S.assume(S.And(4 * s * s * S.norm2(a) < L * L, x * x * S.norm2(e1) + y * y * S.norm2(e2) < r * r))
    cy = Cylinder(axis=list(a), point=S.arr(c), radius=r, length=L)
    bb = cy.get_bounding_box() if direct else Volume(alg_objects=[cy]).get_bounding_box()
    V = rows(bb)
    S.check('cylinder: has vertices', len(V) > 3)
    u = S.choice('u', ('axis', '-axis') + dirs)
    u = a if u == 'axis' else [-k for k in a] if u == '-axis' else u
    hp = s * S.dot(u, a) + x * S.dot(u, e1) + y * S.dot(u, e2)
    S.check('cylinder interior lies within the bounding region', S.Or(*[S.dot(u, S.sub(v, c)) >= hp - T_ for v in V]))


BOXN = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))
TETN = ((-1, 0, 0), (0, -1, 0), (0, 0, -1), (2, 1, 2))
WEDGE = ((0, 0, 1), (0, 0, -1), (0, 3, 4), (1, -1, 0), (-1, -1, 0))
SKEW = ((3, 4, 0), (-3, -4, 0), (-4, 3, 0), (4, -3, 0), (0, 0, 1), (0, 0, -1))


def slide_dirs(n):
    e = (0, 0, 1) if n[2] == 0 else (0, 1, 0) if n[1] == 0 else (1, 0, 0) if n[0] == 0 else (n[1], -n[0], 0)
    return e, SBase.crossp(list(n), list(e))


def crowd(S, n=9):
    """one small ball among many planes that bound nothing"""
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere, Plane
    c, p = flat(S.vec('c', lo=-10, hi=10)), flat(S.vec('p', lo=-30, hi=30))
    r = S.real('r', 0, 10)
    S.assume(r > 0.01)
    at = S.choice('sphere at', ('first', 'middle', 'last'))
    objs, cond = [], [in_sphere(S, p, c, r)]
    for k in range(n):
        m = ((0, 3, 4), (0, -3, 4), (0, 1, 4), (1, 0, 2), (-1, 0, 2))[k % 5]
        q = flat(S.vec(f'q{k}', lo=-5, hi=25))
        objs.append(Plane(normal=list(m), point=S.arr(q)))
        cond.append(S.dot(m, S.sub(p, q)) < 0)
    objs.insert({'first': 0, 'middle': n // 2, 'last': n}[at], Sphere(radius=r, center=S.arr(c)))
    enclosed(S, Volume(alg_objects=objs).get_bounding_box(), [p], 'interior lies within the bounding region', cond=S.And(*cond), dirs=DIRS[:6])


def cylinders(S, n=3):
    """several cylinders and planes that bound nothing"""
    from czone.volume import Volume
    from czone.volume.algebraic import Cylinder, Plane
    p = flat(S.vec('p', lo=-30, hi=30))
    objs, cond = [], []
    for k in range(n):
        a = ((0, 0, 1), (1, 0, 0), (0, 1, 0))[k % 3] if S.choice('axes', ('alike', 'mixed')) == 'mixed' else (0, 0, 1)
        c, r, L = flat(S.vec(f'c{k}', lo=-10, hi=10)), S.real(f'r{k}', 0, 10), S.real(f'L{k}', 0, 10)
        S.assume(S.And(r > 0.01, L > 0.01))
        objs.append(Cylinder(axis=list(a), point=S.arr(c), radius=r, length=L))
        cond.append(in_cyl(S, p, a, c, r, L))
    for k, m in enumerate(((0, 3, 4), (1, 0, 2))):
        q = flat(S.vec(f'q{k}', lo=-5, hi=25))
        objs.insert(2 * k, Plane(normal=list(m), point=S.arr(q)))
        cond.append(S.dot(m, S.sub(p, q)) < 0)
    enclosed(S, Volume(alg_objects=objs).get_bounding_box(), [p], 'interior lies within the bounding region', cond=S.And(*cond), dirs=DIRS[:6])


def planes(S, normals, order=(0,), extra=None, through='volume', span=6, dirs=DIRS, slide=False):
    """plane-bounded polyhedron; every plane offset is free"""
    from czone.volume import Volume
    from czone.volume.algebraic import Plane, Cylinder, get_bounding_box
    p = flat(S.vec('p', lo=-20, hi=20))
    base = flat(S.vec('base', lo=-8, hi=8))
    objs, cond = [], []
    for k, n in enumerate(normals):
        w = S.real(f'w{k}', 0, span)
        S.assume(w > 0.05)
        n2 = sum(x * x for x in n)
        pt = [base[i] + w * n[i] for i in range(3)]
        if slide:       # the plane may be given by any of its points
            e = slide_dirs(n)
            a, b = S.choice('slide', ((0, 0), (7, -11), (-20, 3)))
            s = -1 if slide == 'aside' and k % 2 else 1
            pt = [x + a * (u if k % 2 else -u) + s * b * w for x, u, w in zip(pt, *e)]
            if slide == 'aside' and n[0] == n[1] == 0:
                pt = [pt[0] + 40, pt[1] + 50, pt[2]]
        objs.append(Plane(normal=list(n), point=S.arr(pt)))
        cond.append(S.dot(n, S.sub(p, base)) < w * n2)
    if through == 'direct':
        bb, status = get_bounding_box(objs)
        S.check('bounded region is recognised', status == 0)
    else:
        if extra:
            objs.append(Cylinder(axis=[0, 0, 1], point=S.arr(base), radius=2.0, length=4.0))
            cond.append(in_cyl(S, p, (0, 0, 1), base, 2.0, 4.0))
        bb = Volume(alg_objects=objs).get_bounding_box()
    enclosed(S, bb, [p], 'plane-bounded interior lies within the bounding region', cond=S.And(*cond), dirs=dirs)


def empty(S):
    """contradictory planes are reported as such"""
    from czone.volume.algebraic import Plane, get_bounding_box
    base = flat(S.vec('base', lo=-8, hi=8))
    g = S.real('gap', 0, 5)
    S.assume(g > 0.05)
    objs = [Plane(normal=[1, 0, 0], point=S.arr(base)),
            Plane(normal=[-1, 0, 0], point=S.arr([base[0] + g, base[1], base[2]])),
            Plane(normal=[0, 1, 0], point=S.arr(base)), Plane(normal=[0, 0, 1], point=S.arr(base))]
    bb, status = get_bounding_box(objs)
    S.check('empty region is not reported as bounded', S.Or(status != 0, len(rows(bb)) == 0))


def points(S):
    """a point hull is its own bounding region, also with surfaces cutting it"""
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere, Plane
    import numpy as np
    which = S.choice('what', ('box', 'centred'))
    ctr = None if which == 'box' else S.vec('ctr', lo=-5, hi=5)
    a, b, c = (S.real(k, 0, 10) for k in 'abc')
    S.assume(S.And(a > 0.1, b > 0.1, c > 0.1))
    v = (a, b, c) if S.choice('as', ('numbers', 'arrays')) == 'numbers' else [S.arr([x]) for x in (a, b, c)]
    P = makeRectPrism(*v) if ctr is None else makeRectPrism(*v, center=ctr)
    dims = [a, b, c]
    lo = [0, 0, 0] if ctr is None else [x - d / 2 for x, d in zip(flat(ctr), dims)]
    S.check('a prism has eight corners', len(rows(P)) == 8)
    for sx in (0, 1):
        for sy in (0, 1):
            for sz in (0, 1):
                corner = [lo[0] + sx * a, lo[1] + sy * b, lo[2] + sz * c]
                S.check('every corner of the prism is present', S.Or(*[S.close(r, corner, 1e-6) for r in rows(P)]))


CASES = [
    Case('sphere', spheres, 'any centre and radius; 9 directions'),
    Case('spheres', spheres, '2 spheres and a plane', kwargs=dict(n=2, plane=True)),
    Case('cylinder', cylinder, 'axes (0,0,1),(3,4,0),(2,-1,2),(-1,5,2); any centre, radius, length; 9 directions',
         kwargs=dict(axes=((0, 0, 1), (3, 4, 0), (2, -1, 2), (-1, 5, 2)))),
    Case('cylinder-skew', cylinder, 'axes (1,1,1),(1,0,-1),(0,0,-1),(-2,1,-2)', kwargs=dict(axes=((1, 1, 1), (1, 0, -1), (0, 0, -1), (-2, 1, -2)), direct=True)),
    Case('cylinders', cylinders, '3 cylinders and 2 planes'),
    Case('box-planes', planes, '6 planes, free offsets', kwargs=dict(normals=BOXN)),
    Case('tetrahedron-planes', planes, '4 planes, free offsets', kwargs=dict(normals=TETN)),
    Case('tetrahedron-direct', planes, '4 planes, function called directly', kwargs=dict(normals=TETN, through='direct')),
    Case('wedge-planes', planes, '5 planes, free offsets', kwargs=dict(normals=WEDGE, dirs=DIRS[:6])),
    Case('planes-cylinder', planes, '6 planes + cylinder', kwargs=dict(normals=SKEW, extra=True, dirs=DIRS[:6])),
    Case('box-planes-slid', planes, '6 planes given by points far from the box', kwargs=dict(normals=BOXN, slide=True, dirs=DIRS[:6])),
    Case('skew-slid', planes, '6 planes not along the axes, given by points far aside', kwargs=dict(normals=SKEW, slide='aside', dirs=DIRS[:4])),
    Case('tetrahedron-slid', planes, '4 planes given by points far away', kwargs=dict(normals=TETN, slide=True, dirs=DIRS[:6])),
    Case('crowd', crowd, 'a sphere and 9 planes that bound nothing'),
    Case('empty', empty, '4 contradictory planes'),
    Case('prism', points, 'any box dimensions and centre'),
]
