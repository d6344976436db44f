"""C04: the interior of a convex object is the intersection of all its parts."""
import numpy as np
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["hull geometry of scipy replaced by its definition (convex combination); points within 1e-3 of a surface or 6e-6 of a hull not claimed"]
E_ = 1e-3        # about surfaces
H_ = 2e-6        # about hulls
BOX = [[0, 0, 0], [4, 0, 0], [0, 3, 0], [0, 0, 5], [4, 3, 0], [4, 0, 5], [0, 3, 5], [4, 3, 5]]
TET = [[0, 0, 0], [6, 0, 0], [0, 6, 0], [0, 0, 6]]


def _f(S, x):
    from fractions import Fraction
    return Fraction(x) if S.symbolic else x


def box_io(S, p, dims=(4, 3, 5), lo=(0, 0, 0)):
    ins = S.And(*[S.And(p[k] > lo[k] + H_, p[k] < lo[k] + dims[k] - H_) for k in range(3)])
    out = S.Or(*[S.Or(p[k] < lo[k] - H_, p[k] > lo[k] + dims[k] + H_) for k in range(3)])
    return ins, out


def tet_io(S, p, a=6):
    s = p[0] + p[1] + p[2]
    ins = S.And(*[p[k] > H_ for k in range(3)], s < a - 3 * H_)
    out = S.Or(*[p[k] < -H_ for k in range(3)], s > a + 3 * H_)
    return ins, out


def sph_io(S, p, c, r):
    d2 = S.norm2(S.sub(p, c))
    return d2 < r * r, d2 > (r + E_) * (r + E_)


def pl_io(S, p, n, q):
    h = S.dot(n, S.sub(p, q))
    return h < 0, h > E_ * 10


def cyl_io(S, p, c, r, L):
    """axis along z"""
    d = S.sub(p, c)
    rr = d[0] * d[0] + d[1] * d[1]
    return (S.And(rr < r * r, 2 * d[2] < L, -2 * d[2] < L),
            S.Or(rr > (r + E_) * (r + E_), 2 * d[2] > L + 2 * E_, -2 * d[2] > L + 2 * E_))


def parts(S, kinds, name=''):
    """list of (adder(volume), io(p)) for the requested parts; parameters symbolic"""
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    out = []
    for i, k in enumerate(kinds):
        nm = f'{name}{i}{k}'
        if k == 'sphere':
            c = S.vec(nm + '.c', lo=-10, hi=10)
            r = S.real(nm + '.r', 0, 10)
            S.assume(r > 0.01)
            out.append((Sphere(radius=r, center=c), lambda p, c=c, r=r: sph_io(S, p, c, r)))
        elif k == 'plane':
            n = S.choice(nm + '.n', ((1, 0, 0), (2, -1, 2)))
            q = S.vec(nm + '.q', lo=-10, hi=10)
            out.append((Plane(normal=list(n), point=q), lambda p, n=n, q=q: pl_io(S, p, n, q)))
        else:
            c = S.vec(nm + '.c', lo=-10, hi=10)
            r, L = S.real(nm + '.r', 0, 10), S.real(nm + '.L', 0, 10)
            S.assume(S.And(r > 0.01, L > 0.01))
            out.append((Cylinder(axis=[0, 0, 1], point=c, radius=r, length=L),
                        lambda p, c=c, r=r, L=L: cyl_io(S, p, c, r, L)))
    return out


def claim(S, vol, ios, P, name='interior is the intersection of the parts'):
    got = vol.checkIfInterior(P)
    pts = rows(P) if len(P.shape) == 2 else [flat(P)]
    S.check('a row of answers', tuple(np.shape(got)) == (len(pts),))
    got = flat(got)
    S.check('one answer per point', len(got) == len(pts))
    for i, p in enumerate(pts):
        ins = S.And(*[io(p)[0] for io in ios]) if ios else True
        out = S.Or(*[io(p)[1] for io in ios]) if ios else False
        S.observe('in', got[i])
        S.check(name, S.And(S.Implies(ins, got[i]), S.Implies(out, S.Not(got[i]))))


def algebraic(S, kinds, npts=2):
    from czone.volume import Volume
    ps = parts(S, kinds)
    P = S.array('p', (npts, 3), -12, 12)
    how = S.choice('how', ('constructor', 'added', 'mixed'))
    if how == 'constructor':
        v = Volume(alg_objects=[a for a, _ in ps])
    elif how == 'added':
        v = Volume()
        for a, _ in ps:
            v.add_alg_object(a)
    else:
        v = Volume(alg_objects=[a for a, _ in ps[:1]])
        for a, _ in ps[1:]:
            v.add_alg_object(a)
    claim(S, v, [io for _, io in ps], P)
    claim(S, v, [io for _, io in ps], S.arr(rows(P)[0]), 'a single point may be passed flat')


def with_hull(S, shape='box', kinds=('sphere',), npts=1):
    from czone.volume import Volume, makeRectPrism
    import numpy as np
    ps = parts(S, kinds)
    P = S.array('p', (npts, 3), -12, 12)
    if shape == 'box':
        pts, io = makeRectPrism(4, 3, 5), (lambda p: box_io(S, p))
    elif shape == 'cbox':
        pts, io = makeRectPrism(4, 3, 5, center=np.array([1.0, -2.0, 0.5])), \
            (lambda p: box_io(S, p, lo=(-1, -3.5, -2)))
    else:
        pts, io = np.array(TET, dtype=float), (lambda p: tet_io(S, p))
    v = Volume(points=pts, alg_objects=[a for a, _ in ps] or None)
    claim(S, v, [io] + [i for _, i in ps], P)


def edited(S):
    """history: points replaced / extended, objects added, then asked again"""
    from czone.volume import Volume, makeRectPrism
    import numpy as np
    P = S.array('p', (1, 3), -12, 12)
    v = Volume(points=np.array(TET, dtype=float))
    ios = [lambda p: tet_io(S, p)]
    claim(S, v, ios, P, 'interior before edits')
    for step in range(2):
        op = S.choice(f'op{step}', ('replace', 'extend', 'extend-one', 'extend-inside', 'sphere', 'plane'))
        if op == 'replace':
            v.points = makeRectPrism(4, 3, 5)
            ios[0] = lambda p: box_io(S, p)
            hull = 'box'
        elif op == 'extend-inside':
            v.addPoints(np.array([[1, 0.5, 0.5], [0.5, 1, 0.5], [0.5, 0.5, 1], [0.5, 0.5, 0.5], [0.75, 0.75, 0.5]]))
        elif op in ('extend', 'extend-one'):
            # extend to a box that contains whatever was there before
            new = makeRectPrism(8, 8, 8, center=np.array([4.0, 4.0, 4.0]))
            if op == 'extend':
                v.addPoints(new)
            else:
                for q in new:
                    v.addPoints(q)
            ios[0] = lambda p: box_io(S, p, dims=(8, 8, 8))
        else:
            (a, io), = parts(S, (op,), name=f's{step}')
            v.add_alg_object(a)
            ios.append(io)
        claim(S, v, ios, P, 'interior after edits')


def tolerant(S):
    """the tolerance of a hull widens it, and only by that much; it can be set at any time"""
    from czone.volume import Volume
    import numpy as np
    P = S.array('p', (1, 3), 0.5, 4)
    when = S.choice('when', ('at first', 'later', 'copied'))
    t = S.choice('tolerance', (0.01, 0.2))
    v = Volume(points=np.array(TET, dtype=float), **({} if when == 'later' else dict(tolerance=t)))
    if when == 'later':
        v.tolerance = t
    if when == 'copied':
        v = v.from_volume()
    S.check('the tolerance is the one given', v.tolerance == t)
    got = flat(v.checkIfInterior(P))[0]
    p = rows(P)[0]
    s = p[0] + p[1] + p[2]
    S.check('points up to the tolerance beyond a face are inside', S.Implies(s < 6 * (1 + t) - 1e-3, got))
    S.check('points farther than the tolerance are outside', S.Implies(s > 6 * (1 + t) + 1e-3, S.Not(got)))


def symbolic_hull(S):
    """four symbolic vertices: interior = strict positive barycentric weights"""
    from czone.volume import Volume
    V = S.array('v', (4, 3), -5, 5)
    p = S.array('p', (1, 3), -6, 6)
    W = rows(V)
    D = S.det3([S.sub(W[i], W[3]) for i in range(3)])
    S.assume(S.Or(D > 0.5, D < -0.5))
    # p given by its weights
    vol = Volume(points=V)
    got = flat(vol.checkIfInterior(p))[0]
    q = rows(p)[0]
    ws = []
    for i in range(4):
        r = list(W)
        r[i] = q
        ws.append(S.det3([S.sub(r[k], r[3]) for k in range(3)]))
    sgn = lambda w: w * D
    ins = S.And(*[sgn(w) > 0.01 for w in ws])
    out = S.Or(*[sgn(w) < -0.01 for w in ws])
    S.observe('in', got)
    S.check('interior is the convex hull', S.And(S.Implies(ins, got), S.Implies(out, S.Not(got))))


CASES = [
    Case('two-surfaces', algebraic, '2 surfaces of any kinds, all parameters symbolic', kwargs=dict(kinds=('sphere', 'plane'))),
    Case('three-surfaces', algebraic, 'sphere, plane, cylinder', kwargs=dict(kinds=('cylinder', 'sphere', 'plane'), npts=1)),
    Case('planes', algebraic, '3 planes', kwargs=dict(kinds=('plane', 'plane', 'plane'), npts=1)),
    Case('empty', algebraic, 'no parts: all of space', kwargs=dict(kinds=(), npts=1)),
    Case('box', with_hull, 'box hull', kwargs=dict(kinds=(), npts=2)),
    Case('centred-box', with_hull, 'centred box hull with sphere', kwargs=dict(shape='cbox')),
    Case('box-surfaces', with_hull, 'box hull with sphere and plane', kwargs=dict(kinds=('sphere', 'plane'))),
    Case('tetrahedron-surfaces', with_hull, 'tetrahedron hull with cylinder', kwargs=dict(shape='tet', kinds=('cylinder',))),
    Case('edits', edited, 'histories of 2 edits out of 6 kinds'),
    Case('tolerant', tolerant, 'tetrahedron, tolerance 0.01 or 0.2 given in 3 ways, any point about its slanted face'),
    Case('symbolic-hull', symbolic_hull, 'any 4 vertices in [-5,5]^3'),
]
