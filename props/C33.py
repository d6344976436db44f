"""C33: a crystal built from a unit cell or a space group has the cell, the sites and the symmetry it was given."""
import math
from fractions import Fraction
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["angles are taken from a list, lengths and site coordinates are free; sites given to space groups are in general position; "
               "sites are compared up to whole lattice vectors; pymatgen applies the operations of a group as tabulated"]

ANGLES = {'triclinic': ((80, 95, 110), (60, 75, 85.5), (100, 100, 70), (62, 118, 95)),
          'right': ((90, 90, 90),), 'hexagonal': ((90, 90, 120),), 'rhombohedral': ((70, 70, 70), (55.25, 55.25, 55.25)),
          'monoclinic': ((90, 105, 90), (90, 92.5, 90))}


def cell_claims(S, g, L, A):
    """lengths and mutual angles of the vectors the crystal is tiled with"""
    B = rows(g.voxel.sbases)
    cols = [[B[i][j] for i in range(3)] for j in range(3)]
    cos = {(1, 2): A[0], (0, 2): A[1], (0, 1): A[2]}
    for i in range(3):
        for j in range(i, 3):
            k = 1 if i == j else math.cos(math.radians(cos[i, j]))
            want = L[i] * L[j] * (Fraction(k) if S.symbolic else k)
            S.eq('cell vectors have the given lengths' if i == j else 'cell vectors enclose the given angles', S.dot(cols[i], cols[j]), want, tol=1e-5)
    S.check('cell vectors are right-handed', S.det3(B) > 0)


def sites_claim(S, g, want, name):
    """the same sites, up to whole cells; want: (element, fractional coordinates)"""
    got = [(int(z), flat(c)) for z, c in zip(g.species, rows(g.coords))]
    S.check('as many elements as positions', len(list(g.species)) == len(rows(g.coords)))
    S.check(name + ': no site is missing or added', len(got) == len(want))
    for z, c in want:
        alike = []
        for y, d in got:
            if y != z:
                continue
            e = S.sub(d, c)
            ks = [x.const() if hasattr(x, 'const') else None for x in e]
            if S.symbolic and any(k is not None and abs(k - round(k)) > Fraction(1, 10**7) for k in ks):
                continue
            if S.symbolic and all(k is not None for k in ks):
                alike = [True]
                break
            alike.append(S.And(*[S.close([x], [S.int_near('', x)], 1e-6) for x in e]))
        S.check(name, S.Or(*alike) if alike else False)


def lengths(S, kind):
    a, b, c = (S.real(k, 2, 12) for k in 'abc')
    if kind in ('hexagonal',):
        b = a
    if kind in ('rhombohedral', 'cubic'):
        b = c = a
    return [a, b, c]


def unit_cell(S, n=2):
    from czone.generator import Generator
    L = lengths(S, 'triclinic')
    A = S.choice('angles', ANGLES['triclinic'] + ANGLES['right'] + ANGLES['hexagonal'])
    Z = ([11, 17, 14, 11, 8, 22] * 3)[:n]
    F = [flat(S.vec(f'f{k}', lo=-1, hi=1)) for k in range(n)]
    o = S.vec('o', lo=-5, hi=5)
    how = S.choice('origin', ('given', 'default'))
    g = Generator.from_unit_cell(Z=Z, coords=S.arr(F), cellDims=S.arr(L) if S.choice('dims', ('array', 'list')) == 'array' else L, cellAngs=list(A),
                                 **(dict(origin=o) if how == 'given' else {}))
    cell_claims(S, g, L, A)
    got = [(int(z), flat(c)) for z, c in zip(g.species, rows(g.coords))]
    S.check('one site each', len(got) == n)
    for k in range(n):
        S.check('each site keeps its element', got[k][0] == Z[k])
        S.eq('each site is where it was given, up to whole cells', [x - S.int_near('', x) for x in S.sub(got[k][1], F[k])], [0, 0, 0])
    S.eq('origin', g.origin, o if how == 'given' else [0, 0, 0])


GROUPS = {  # symbol or number, lattice kind, operations (computed from the tables, see ops)
    'numbers': ((1, 'triclinic'), (2, 'triclinic'), (14, 'monoclinic'), (62, 'right'), (76, 'tetragonal'), (146, 'hexagonal'), (186, 'hexagonal'), (198, 'cubic')),
    'symbols': (('P1', 'triclinic'), ('P2_1/c', 'monoclinic'), ('Pnma', 'right'), ('P4_1', 'tetragonal'), ('P6_3mc', 'hexagonal'), ('P2_13', 'cubic'), ('P-1', 'triclinic')),
    'settings': (('Pbnm', 'right'), ('Pmcn', 'right'), ('Pnnn:2', 'right'), ('Pnnn:1', 'right'), ('R3:R', 'rhombohedral'), ('R-3:R', 'rhombohedral'), ('R-3:H', 'hexagonal'), ('P4/n:2', 'tetragonal'), ('P4/n:1', 'tetragonal')),
}
KINDS = ((2, 'triclinic'), (15, 'monoclinic'), (74, 'right'), (142, 'tetragonal'), (194, 'hexagonal'), (230, 'cubic'))
GROUPS['more'] = tuple((n, next(k for m, k in KINDS if n <= m)) for n in
                      (3, 5, 7, 9, 15, 19, 33, 43, 60, 70, 82, 88, 92, 99, 113, 122, 144, 152, 155, 161, 167, 173, 180, 188, 194, 195, 199, 205))
GENERAL = ((Fraction(13, 100), Fraction(31, 100), Fraction(7, 100)), (Fraction(41, 100), Fraction(11, 100), Fraction(23, 100)))


def operations(sg):
    """operations of the group, as tabulated"""
    from pymatgen.symmetry.groups import SpaceGroup
    g = SpaceGroup.from_int_number(sg) if isinstance(sg, int) else SpaceGroup(sg)
    return [[[Fraction(float(v)).limit_denominator(48) for v in r] for r in op.affine_matrix] for op in g.symmetry_ops]


def space_group(S, which, both=None, sites=2):
    from czone.generator import Generator
    sg, kind = S.choice('group', GROUPS[which])
    L = lengths(S, {'tetragonal': 'hexagonal'}.get(kind, kind))
    A = S.choice('angles', ANGLES.get(kind, ANGLES['right'])[:1 if which == 'more' else 2])
    Z = [38, 8][:sites]
    e = [flat(S.vec(f'e{k}', lo=-0.01, hi=0.01)) for k in range(sites)]
    F = [[(x if S.symbolic else float(x)) + d for x, d in zip(c, ee)] for c, ee in zip(GENERAL, e)]
    o = S.vec('o', lo=-5, hi=5)
    kw = dict(sgn=sg) if isinstance(sg, int) else dict(sym=sg)
    if both:
        kw['sym'] = both        # the number prevails
    g = Generator.from_spacegroup(Z=Z, coords=S.arr(F), cellDims=L, cellAngs=list(A), origin=o, **kw)
    cell_claims(S, g, L, A)
    ops = operations(sg)
    if not S.symbolic:
        ops = [[[float(x) for x in r] for r in m] for m in ops]
    want = [(z, [m[i][0] * f[0] + m[i][1] * f[1] + m[i][2] * f[2] + m[i][3] for i in range(3)]) for z, f in zip(Z, F) for m in ops]
    sites_claim(S, g, want, 'every image of a site under the group is a site')
    S.eq('origin', g.origin, o)


def special(S):
    """well-known crystals: sites on symmetry elements appear once"""
    from czone.generator import Generator
    h = 0.5
    q, t, e = 0.25, 0.75, 0.125
    name, kw, Z, F, kind, want = S.choice('crystal', (
        ('fcc', dict(sgn=225), [79], [[0, 0, 0]], 'cubic', [(79, p) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h))]),
        ('fcc by name', dict(sym='Fm-3m'), [79], [[0, 0, 0]], 'cubic', [(79, p) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h))]),
        ('rock salt', dict(sgn=225), [11, 17], [[0, 0, 0], [h, h, h]], 'cubic',
         [(11, p) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h))] + [(17, p) for p in ((h, h, h), (0, 0, h), (0, h, 0), (h, 0, 0))]),
        ('bcc', dict(sgn=229), [26], [[0, 0, 0]], 'cubic', [(26, (0, 0, 0)), (26, (h, h, h))]),
        ('diamond', dict(sgn=227, sym='P1'), [14], [[0, 0, 0]], 'cubic',
         [(14, p) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h), (q, q, q), (t, t, q), (t, q, t), (q, t, t))]),
        ('diamond, second origin', dict(sym='Fd-3m:2'), [14], [[e, e, e]], 'cubic',
         [(14, [x + e for x in p]) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h))] +
         [(14, [x - e for x in p]) for p in ((0, 0, 0), (h, h, 0), (h, 0, h), (0, h, h))]),
        ('hcp', dict(sym='P6_3/mmc'), [12], [[1 / 3, 2 / 3, q]], 'hexagonal', [(12, (1 / 3, 2 / 3, q)), (12, (2 / 3, 1 / 3, t))]),
        ('wurtzite', dict(sgn=186), [30, 16], [[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, 0.375]], 'hexagonal',
         [(30, (1 / 3, 2 / 3, 0)), (30, (2 / 3, 1 / 3, h)), (16, (1 / 3, 2 / 3, 0.375)), (16, (2 / 3, 1 / 3, 0.875))]),
    ))
    L = lengths(S, kind)
    A = ANGLES['hexagonal'][0] if kind == 'hexagonal' else (90, 90, 90)
    g = Generator.from_spacegroup(Z=Z, coords=S.arr(F), cellDims=L, cellAngs=list(A), **kw)
    cell_claims(S, g, L, A)
    sites_claim(S, g, want, 'the crystal has its sites')
    S.eq('default origin', g.origin, [0, 0, 0])


def voxel(S):
    """tiling vectors of any shape and scale, and their duals"""
    from czone.volume.voxel import Voxel
    u, w = S.choice('frame', (((1, 0, 0), (0, 1, 0)), ((2, -1, 2), (1, 2, 0)), ((0, 3, 4), (1, 4, -3))))
    x = S.crossp(list(u), list(w))
    k, t = S.real('k', -5, 5), S.real('t', -2, 2)
    S.assume(S.And(k * k > 0.01, S.Or(t > 0.02, t < -0.02)))
    B = [list(u), [k * a + t * b for a, b in zip(u, w)], x]         # vectors, down to 0.3 degrees apart
    B = [B[i] for i in S.choice('order', ((0, 1, 2), (2, 0, 1), (1, 2, 0)))]
    M = [[B[j][i] for j in range(3)] for i in range(3)]
    vox = Voxel(bases=S.arr(M))
    S.eq('tiling vectors are those given', vox.sbases, M)
    how = S.choice('scale', ('one', 'number', 'array', 'each', 'row', 'directions'))
    f = [S.real(f's{i}', 0.25, 4) for i in range(3)]
    if how == 'one':
        f = [1, 1, 1]
    elif how in ('number', 'array'):
        f = [f[0]] * 3
        vox.scale = f[0] if how == 'number' else S.arr([f[0]])
    else:
        vox.scale = S.arr(f) if how == 'each' else S.arr([f]) if how == 'row' else S.arr([[v] for v in f])
    SM = [[M[i][j] * f[i if how == 'directions' else j] for j in range(3)] for i in range(3)]
    S.eq('scaled tiling vectors', vox.sbases, SM)
    S.eq('unscaled vectors are kept', vox.bases, M)
    rec = rows(vox.reciprocal_bases)
    for i in range(3):
        for j in range(3):
            S.eq('reciprocal vectors are dual', S.dot(rec[i], [SM[r][j] for r in range(3)]), 1 if i == j else 0)
    o = S.vec('o', lo=-5, hi=5)
    vox.origin = o
    S.eq('origin', vox.origin, o)


CASES = [
    Case('voxel', voxel, '3 frames, vectors from 0.3 degrees apart, 6 forms of scale'),
    Case('unit-cell', unit_cell, '2 sites anywhere, any lengths, 6 sets of angles'),
    Case('unit-cell-large', unit_cell, '12 sites anywhere, any lengths, 6 sets of angles', kwargs=dict(n=12)),
    Case('group-numbers', space_group, '8 groups by number, 2 sites', kwargs=dict(which='numbers')),
    Case('group-symbols', space_group, '7 groups by symbol, 2 sites', kwargs=dict(which='symbols')),
    Case('group-settings', space_group, '9 groups in other settings and origins, 2 sites', kwargs=dict(which='settings')),
    Case('group-number-and-symbol', space_group, '8 groups by number, with another symbol', kwargs=dict(which='numbers', both='Pbam')),
    Case('more-groups', space_group, '28 more groups by number, 1 site', kwargs=dict(which='more', sites=1)),
    Case('special', special, '8 crystals with sites on symmetry elements'),
]
