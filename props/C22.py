"""C22: snapping to a lattice plane returns a plane of the (strained) lattice, the one asked for."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import mv, FIXED
from props.C08 import LAT, ORTHO, mm, bases_of, crystal
from props.C13 import inverse, exact, strained, TR

ASSUMPTIONS = ["real arithmetic; homogeneous strain only"]
HKL = ((1, 1, 1), (0, 0, 2), (1, -2, 1), (-1, 0, 0), (2, 1, 3))
MODES = ('nearest', 'floor', 'ceil')


def plane_claims(S, pl, p, G, o, mode):
    """G: reciprocal vector (lattice points have integer G.(x-o)), up to sense the plane normal"""
    n = flat(pl.normal)
    S.eq('normal is perpendicular to the lattice planes', S.crossp(n, G), [0, 0, 0], tol=1e-5)
    S.check('normal points the way of the indices', S.dot(n, G) > 0)
    q = flat(pl.point)
    i0 = S.dot(G, S.sub(p, o))
    i1 = S.dot(G, S.sub(q, o))
    k = S.int_near('index', i1)
    S.check('the plane passes through lattice points', S.And(i1 - k <= 1e-6, k - i1 <= 1e-6))
    S.eq('the point moves along the normal', S.crossp(S.sub(q, p), G), [0, 0, 0], tol=1e-4)
    d = i1 - i0
    if mode == 'nearest':
        S.check('no plane is nearer', S.And(d <= 0.5 + 1e-6, d >= -0.5 - 1e-6))
    else:
        S.check('the next plane is taken', S.And(d <= 1 + 1e-6, d >= -1 - 1e-6))
        if mode == 'floor':
            S.check('floor moves towards the origin', S.And(S.Implies(i0 >= 0, S.And(d <= 1e-6, i1 >= -1e-6)), S.Implies(i0 <= 0, S.And(d >= -1e-6, i1 <= 1e-6))))
        else:
            S.check('ceil moves away from the origin', S.And(S.Implies(i0 >= 1e-6, d >= -1e-6), S.Implies(i0 <= -1e-6, d <= 1e-6)))


def snap(S, hkls=HKL, turn=None, scale=None, strain=None, smode='crystal', own=False, free=False, before=False):
    from czone.volume.algebraic import snap_plane_near_point
    from czone.transform import Rotation
    from czone.transform.strain import HStrain
    lat = LAT
    if free:
        a = [S.real(f'a{k}', 2, 6) for k in range(3)]
        lat = ([[a[i] if i == j else 0 for j in range(3)] for i in range(3)], LAT[1], LAT[2])
        from czone.generator import Generator
        o0 = S.vec('g.o', lo=-5, hi=5)
        g, o = Generator(structure=S.structure(*lat), origin=o0), flat(o0)
        B = [[lat[0][j][i] for j in range(3)] for i in range(3)]
    else:
        g, o = crystal(S)
        B = exact(S, bases_of(S))
    if strain is not None and before:
        # the strained crystal is used before it is turned, moved and scaled
        g.strain_field = HStrain(matrix=strain, mode=smode)
        snap_plane_near_point(S.arr([3, 1, 2]), g, (1, 0, 0))
        if S.choice('supplied', (False, True)):
            g.supply_atoms(S.arr([o, S.addv(o, [0.5, 0.25, 0.125])]))
        from czone.transform import Translation
        t = S.vec('t', lo=-5, hi=5)
        g.transform(Translation(shift=t))
        o = S.addv(o, flat(t))
    if turn is not None:
        R = exact(S, FIXED[turn])
        g.transform(Rotation(matrix=S.arr(R), origin=S.arr(o)))
        B = mm(R, B)
    if scale:
        g.voxel.scale = S.arr(list(scale)) if isinstance(scale, tuple) else scale
        B = [[x * k for x, k in zip(r, scale if isinstance(scale, tuple) else (scale,) * 3)] for r in B]
    if strain is not None:
        so = flat(S.vec('so', lo=-5, hi=5)) if own else o
        st = HStrain(matrix=strain, mode=smode, **(dict(origin=S.arr(so)) if own else {}))
        if not before:
            g.strain_field = st
        M = exact(S, strain if len(flat(strain)) == 9 else [[strain[i] if i == j else 0 for j in range(3)] for i in range(3)])
        st_ = lambda x: strained(S, M, smode, B0, inverse(B0), so, x)
        B0 = [r[:] for r in B]
        o2 = st_(o)
        cols = [S.sub(st_(S.addv(o, [B0[i][j] for i in range(3)])), o2) for j in range(3)]
        B = [[cols[j][i] for j in range(3)] for i in range(3)]
        o = o2
    hkl = S.choice('hkl', hkls)
    mode = S.choice('mode', MODES)
    p = S.vec('p', lo=-20, hi=20)
    pl = snap_plane_near_point(p, g, hkl, mode=mode) if mode != 'nearest' else snap_plane_near_point(p, g, hkl)
    inv = inverse(B)
    G = [sum((inv[i][j] * hkl[i] for i in range(3)), 0) for j in range(3)]
    plane_claims(S, pl, flat(p), G, o, mode)
    S.eq('the point handed in is not modified', p, [S.real(f'p[{k}]', -20, 20) for k in range(3)])


CASES = [
    Case('skew', snap, 'skew lattice, any origin and point, 5 index triples'),
    Case('turned', snap, 'rotated skew lattice', kwargs=dict(turn=3, hkls=HKL[:3])),
    Case('any-constants', snap, 'orthogonal lattice with any constants', kwargs=dict(free=True, hkls=((0, 0, 2), (0, -1, 0)))),
    Case('scaled', snap, 'scaled rotated lattice', kwargs=dict(scale=2, turn=0, hkls=HKL[:3])),
    Case('scaled-axes', snap, 'rotated lattice scaled differently along its axes', kwargs=dict(scale=(1.0, 2.0, 0.5), turn=2, hkls=((1, 1, 1), (1, -2, 1)))),
    Case('strained', snap, 'skew lattice, diagonal strain in crystal axes', kwargs=dict(strain=(1.5, 0.5, 1.25), hkls=HKL[:3])),
    Case('strained-standard', snap, 'skew lattice, diagonal strain in Cartesian axes', kwargs=dict(strain=(1.5, 0.5, 1.25), hkls=HKL[:3], smode='standard')),
    Case('sheared', snap, 'skew lattice, full strain matrix, own origin', kwargs=dict(strain=((1.25, 0.5, 0), (0, 1, 0.25), (-0.25, 0, 0.75)), hkls=HKL[:3], own=True)),
    Case('sheared-standard', snap, 'rotated lattice, full strain matrix in Cartesian axes', kwargs=dict(strain=((1.25, 0.5, 0), (0, 1, 0.25), (-0.25, 0, 0.75)), turn=3, hkls=HKL[:3], smode='standard')),
    Case('used-before', snap, 'strained crystal used, then moved anywhere, turned and scaled, then snapped; both axes conventions', kwargs=dict(strain=(1.5, 0.5, 1.25), turn=3, scale=2, before=True, hkls=HKL[:2])),
    Case('used-before-standard', snap, 'the same with Cartesian strain', kwargs=dict(strain=(1.5, 0.5, 1.25), turn=3, before=True, hkls=HKL[:1], smode='standard')),
    Case('all-indices', snap, 'skew rotated strained lattice, 16 index triples', thorough_only=True,
         kwargs=dict(strain=(1.5, 0.5, 1.25), turn=3, hkls=tuple((h, k, l) for h in (-1, 0, 2) for k in (-2, 0, 1) for l in (-1, 1)))),
]
