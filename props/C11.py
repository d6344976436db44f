"""C11: a crystal generator supplies every lattice atom of the region it is asked to fill, once, and nothing else."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import mv, FIXED
from props.C08 import mm

ASSUMPTIONS = ["fractional site coordinates in [-1,1); regions are the convex hulls of the given vertices"]


def extents(S, tri=False, nv=3):
    """tiling range covers the unit cell of every point between the vertices"""
    from czone.volume.voxel import Voxel
    if tri:
        a, b, c = (S.real(k, 0, 8) for k in 'abc')
        S.assume(S.And(a > 0.5, b > 0.5, c > 0.5))
        B = S.choice('B', ([[a, 0, 0], [0, b, 0], [0, 0, c]], [[0, b, 0], [0, 0, c], [a, 0, 0]]))
    else:
        B = S.choice('B', (((3, 1, 0), (0, 4, Fraction(1, 2)), (1, 0, 5)), ((2, 0, 0), (0, 3, 0), (0, 0, 7)),
                           ((Fraction(-3, 2), 2, 1), (2, 1, 0), (0, 1, -3))))
    o = flat(S.vec('o', lo=-5, hi=5))
    k = 1
    sc = S.choice('scale', (None, 2, 'axes'))
    kw = {}
    if sc == 2:
        kw['scale'] = 2.0
    elif sc == 'axes':
        kw['scale'] = S.arr([1.0, 2.0, 0.5])
    ks = {None: (1, 1, 1), 2: (2, 2, 2), 'axes': (1, 2, Fraction(1, 2))}[sc]
    vox = Voxel(bases=S.arr(B), origin=S.arr(o), **kw)
    SB = [[B[i][j] * ks[j] for j in range(3)] for i in range(3)]
    S.eq('scaled lattice vectors', vox.sbases, SB)
    # vertices and the point, by their fractional coordinates
    V = [flat(S.vec(f'v{j}', lo=-4, hi=4)) for j in range(nv)]
    P = [S.addv(mv(SB, v), o) for v in V]
    mn, mx = vox.get_extents(S.arr(P))
    mn, mx = flat(mn), flat(mx)
    p = flat(S.vec('p', lo=-4, hi=4))
    for i in range(3):
        between = S.And(S.Or(*[v[i] <= p[i] for v in V]), S.Or(*[v[i] >= p[i] for v in V]))
        S.check('tiling starts at or before every point', S.Implies(between, mn[i] <= p[i] + 1e-9))
        S.check('tiling ends at or after every point', S.Implies(between, mx[i] >= p[i] - 1e-9))


LATS = {'skew': ([[3, 0, 0], [1, 4, 0], [0, Fraction(1, 2), 5]], (11, 17), ([0, 0, 0], [0.5, 0.25, 0.75])),
        'cubic': ([[3, 0, 0], [0, 3, 0], [0, 0, 3]], (11,), ([0, 0, 0],)),
        'behind': ([[3, 0, 0], [0, 3, 0], [0, 0, 3]], (11,), ([-0.5, -0.375, -0.4375],)),
        'three': ([[3, 0, 0], [0, 4, 0], [1, 0, 4]], (11, 17, 14), ([0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5])),
        'many': ([[3, 0, 0], [0, 4, 0], [1, 0, 4]], (11, 17, 14, 11, 17, 14, 11, 17, 14, 8, 8),
                 ([0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0.125, 0.25, 0.0625], [0.1875, 0.75, 0.3125], [0.8125, 0.625, 0.5625],
                  [0.3125, 0.0625, 0.9375], [0.71875, 0.53125, 0.03125], [0.65625, 0.96875, 0.84375], [0.5, 0.25, 0.25], [0.0625, 0.6875, 0.4375])),
        'neg': ([[3, 0, 0], [0, 4, 0], [1, 0, 4]], (11, 17), ([-0.25, 0.5, 0], [0.5, -0.5, 0.875]))}


def supply(S, lat='skew', turn=None, scale=None, box=((0, 0, 0), (2, 3, 2)), span=1, nmax=4, verts=None):
    from czone.generator import Generator
    from czone.transform import Rotation
    A, sp, fr = LATS[lat]
    o = flat(S.vec('o', lo=-span, hi=span))
    g = Generator(structure=S.structure(A, sp, fr), origin=S.arr(o))
    B = [[Fraction(A[j][i]) for j in range(3)] for i in range(3)]
    if not S.symbolic:
        B = [[float(x) for x in r] for r in B]
    if turn is not None:
        R = FIXED[turn]
        if not S.symbolic:
            R = [[float(x) for x in r] for r in R]
        g.transform(Rotation(matrix=S.arr(R)))
        o = mv(R, o)
        B = mm(R, B)
    if scale:
        g.voxel.scale = float(scale)
        B = [[x * scale for x in r] for r in B]
    if verts is None:
        verts = [[box[i][k] for k, i in enumerate(ix)] for ix in ((a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1))]
    coords, species = g.supply_atoms(S.arr([[float(x) for x in v] for v in verts]))
    got, spc = rows(coords), [int(x) for x in flat(species)]
    S.check('positions and species pair up', len(got) == len(spc))
    # nothing foreign: each atom is a lattice site of its species; each site once
    n = [S.int(f'n{k}', -nmax, nmax) for k in range(3)]
    seen = set()
    for q, s in zip(got, spc):
        d = S.sub(q, o)
        key = None
        for site, (f, t) in enumerate(zip(fr, sp)):
            if t != s:
                continue
            # lattice index from the known vectors (Cramer)
            num = S.det3(B)
            idx = []
            for k in range(3):
                C = [list(r) for r in B]
                for i in range(3):
                    C[i][k] = d[i]
                x = S.det3(C) / num - (Fraction(f[k]) if S.symbolic else f[k])
                x = x.const() if hasattr(x, 'const') else x
                idx.append(x)
            if all(x is not None for x in idx) and all(abs(x - round(x)) < 1e-6 for x in idx):
                key = (site, tuple(int(round(x)) for x in idx))
        S.check('every atom is a lattice site of its species', key is not None)
        S.check('no atom is supplied twice', key not in seen)
        seen.add(key)
    # completeness: any site inside the region is among the atoms supplied
    for site, (f, t) in enumerate(zip(fr, sp)):
        q = S.addv(mv(B, [a + (Fraction(b) if S.symbolic else b) for a, b in zip(n, f)]), o)
        if len(verts) == 8:
            lo, hi = [min(v[k] for v in verts) for k in range(3)], [max(v[k] for v in verts) for k in range(3)]
            inside = S.And(*[S.And(q[k] >= lo[k] + 1e-6, q[k] <= hi[k] - 1e-6) for k in range(3)])
        else:
            ws = [S.real(f'w{j}', 0, 1) for j in range(len(verts))]
            inside = S.And(sum(ws, 0) == 1 if S.symbolic else abs(sum(ws) - 1) < 1e-9,
                           *[S.close([q[k]], [sum((w * v[k] for w, v in zip(ws, verts)), 0)], 1e-9) for k in range(3)])
        mine = [k[1] for k in seen if k is not None and k[0] == site]
        S.check('every site in the region is supplied',
                S.Implies(inside, S.Or(*[S.And(*[n[k] == m[k] for k in range(3)]) for m in mine])))


CASES = [
    Case('tiling', extents, '3 lattices, 3 scales, any origin, 3 vertices'),
    Case('tiling-orthogonal', extents, 'any orthogonal lattice constants, 2 vertices', kwargs=dict(tri=True, nv=2)),
    Case('skew', supply, 'skew 2-site lattice, origin within 1, box 2x3x2'),
    Case('cubic', supply, 'cubic lattice, origin within 2, box 4x2x1 away from the origin',
         kwargs=dict(lat='cubic', box=((-7, 4, -1), (-3, 6, 0)), span=2, nmax=5)),
    Case('negative-sites', supply, 'sites given with negative coordinates', kwargs=dict(lat='neg', box=((0, 0, 0), (3, 2, 2)), span=0.75)),
    Case('three-elements', supply, 'three sites of three elements', kwargs=dict(lat='three', box=((0, 0, 0), (2, 3, 2)), span=0.5)),
    Case('many-sites', supply, 'eleven sites of four elements', kwargs=dict(lat='many', box=((0, 0, 0), (1, 1, 1)), span=0.2, nmax=3)),
    Case('turned', supply, 'rotated lattice', kwargs=dict(turn=2, span=0.75)),
    Case('turned-skew', supply, 'rotated about (1,1,1)-like axis', kwargs=dict(turn=3, span=0.5), thorough_only=True),
    Case('scaled', supply, 'scaled by 2', kwargs=dict(lat='cubic', scale=2, span=2, box=((0, 0, 0), (5, 4, 4)))),
    Case('tetrahedron', supply, 'tetrahedral region', kwargs=dict(verts=((0, 0, 0), (5, 0, 0), (0, 4, 0), (1, 1, 4)), span=0.5)),
    *[Case('long-' + 'xyz'[i], supply, 'long thin region, 9 cells', kwargs=dict(
        lat='behind', box=tuple(tuple((1, 2.25)[e] if k != i else (-1, 26)[e] for k in range(3)) for e in (0, 1)), span=0.25, nmax=10)) for i in range(3)],
    Case('slab', supply, 'flat region, wide', kwargs=dict(lat='cubic', box=((-5, -5, 0.25), (5, 5, 0.5)), span=1)),
]
