"""C12: transforming a crystal moves every atom it supplies by the transformation (or turns only its axes)."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import isometry, apply, mv, FIXED, mat
from props.C08 import LAT, ORTHO, mm, bases_of, crystal, check_crystal

ASSUMPTIONS = ["isometries; combined transformations use uniform basis flags; arbitrary rotations are tried on orthogonal lattices"]


def frame(S, kinds, rot, lat, steps=1):
    g, o = crystal(S, lat=lat)
    B = bases_of(S, lat)
    coords = rows(g.coords)
    for k in range(steps):
        T, M, t = isometry(S, kinds, name=f'T{k}', rot=rot, normals=((0, 3, 4), (1, 1, 1), (2, -1, 2)))
        basis = S.choice(f'basis{k}', (False, True))
        T.basis_only = basis
        if S.choice(f'lock{k}', (True, False)) is False:
            T.locked = False        # locking concerns volumes; generators always follow
        g.transform(T)
        B = mm(M, B)
        if not basis:
            o = apply(S, M, t, o)
        check_crystal(S, g, B, o, 'transformed crystal')
    for a, b in zip(rows(g.coords), coords):
        S.eq('fractional sites are unchanged', a, b)
    S.check('species are unchanged', [int(x) for x in g.species] == list(lat[1]))
    rec = rows(g.voxel.reciprocal_bases)
    cols = [[B[i][j] for i in range(3)] for j in range(3)]
    for i in range(3):
        for j in range(3):
            S.eq('reciprocal vectors are dual', S.dot(rec[i], cols[j]), 1 if i == j else 0)


def combined(S, kinds, rot='fixed'):
    """a combined transformation equals its parts in order"""
    from czone.transform import MultiTransform
    g, o = crystal(S)
    h = g.from_generator()
    basis = S.choice('basis', (False, True))
    ts = []
    for k in range(2):
        T, M, t = isometry(S, kinds, name=f'T{k}', rot=rot, origin=(k == 0))
        T.basis_only = basis
        ts.append(T)
        h.transform(T)
    how = S.choice('how', ('list', 'single', 'derived'))
    if how == 'list':
        g.transform(MultiTransform(ts))
    elif how == 'single':
        m = MultiTransform()
        for T in ts:
            m.add_transform(T)
        g.transform(m)
    else:
        g = g.from_generator(transformation=ts)
    check_crystal(S, g, rows(h.voxel.bases), flat(h.origin), 'combined')


def atoms(S, kinds=('rotation', 'inversion', 'reflection', 'translation'), basis=False):
    """atoms supplied after the transformation are the transformed atoms, over the transformed region"""
    from czone.generator import Generator
    A, sp, fr = LAT
    f = (lambda x: Fraction(x)) if S.symbolic else float
    o = flat(S.vec('o', lo=-0.3, hi=0.3))
    g = Generator(structure=S.structure(A, sp, fr), origin=S.arr(o))
    T, M, t = isometry(S, kinds, rot='fixed', origin=False, normals=((0, 3, 4), (2, -1, 2)))
    if kinds == ('translation',):
        S.assume(S.And(*[S.And(x > -2, x < 2) for x in flat(t)]))
    T.basis_only = basis
    g.transform(T)
    box = [[a, b, c] for a in (0, 2) for b in (0.5, 2.5) for c in (-1, 1)]
    region = [S.addv(mv(M, S.sub(v, o)), o) for v in box] if basis else [apply(S, M, t, v) for v in box]
    coords, species = g.supply_atoms(S.arr(region))
    got, spc = rows(coords), [int(x) for x in flat(species)]
    B = [[f(x) for x in r] for r in bases_of(S)]
    n = [S.int(f'n{k}', -2, 2) for k in range(3)]
    for fx, z in zip(fr, sp):
        q = S.addv(mv(B, [a + f(b) for a, b in zip(n, fx)]), o)
        inside = S.And(q[0] > 1e-6, q[0] < 2 - 1e-6, q[1] > 0.5 + 1e-6, q[1] < 2.5 - 1e-6, q[2] > -1 + 1e-6, q[2] < 1 - 1e-6)
        w = S.addv(mv(M, S.sub(q, o)), o) if basis else apply(S, M, t, q)
        S.check('the image of every atom is supplied, with its species',
                S.Implies(inside, S.Or(*[S.close(p, w, 1e-6) for p, s in zip(got, spc) if s == z])))


def build(S):
    """order of attaching structure and origin does not matter; frames come from the structure"""
    from czone.generator import Generator
    from czone.transform import Translation
    st = S.structure(*LAT)
    o = S.vec('o', lo=-5, hi=5)
    how = S.choice('how', ('both', 'origin first', 'structure first', 'replace'))
    if how == 'both':
        g = Generator(origin=o, structure=st)
    elif how == 'origin first':
        g = Generator(origin=o)
        g.structure = st
    elif how == 'structure first':
        g = Generator(structure=st)
        S.eq('default origin', g.origin, [0, 0, 0])
        g.origin = o
    else:
        g = Generator(origin=o, structure=S.structure(*ORTHO))
        g.structure = st
    check_crystal(S, g, bases_of(S), flat(o), 'built')
    h = Generator(structure=st)
    g.transform(Translation(shift=S.arr([1.0, 2.0, 3.0])))
    S.eq('generators of one structure are independent', h.origin, [0, 0, 0])


CASES = [
    Case('frame', frame, 'skew lattice; translations, inversions, mirrors, any origin',
         kwargs=dict(kinds=('translation', 'inversion', 'reflection'), rot='fixed', lat=LAT)),
    Case('frame-turned', frame, 'skew lattice, 4 rotations', kwargs=dict(kinds=('rotation',), rot='fixed', lat=LAT)),
    Case('frame-turned-any', frame, 'orthogonal lattice, rotation about x, y or z by any angle', kwargs=dict(kinds=('rotation',), rot='axis', lat=ORTHO)),
    Case('frame-any-rotation', frame, 'orthogonal lattice, any rotation', kwargs=dict(kinds=('rotation',), rot='quat', lat=ORTHO), thorough_only=True),
    Case('frame-twice', frame, 'two steps', kwargs=dict(kinds=('rotation', 'translation', 'inversion'), rot='fixed', lat=LAT, steps=2), limits=dict(paths=3000)),
    Case('combined', combined, 'two parts', kwargs=dict(kinds=('translation', 'rotation', 'inversion'))),
    Case('atoms', atoms, 'inversion, 2 mirrors; box of 2x2x2', kwargs=dict(kinds=('inversion', 'reflection'))),
    Case('atoms-turned', atoms, '4 rotations', kwargs=dict(kinds=('rotation',))),
    Case('atoms-shifted', atoms, 'any shift', kwargs=dict(kinds=('translation',))),
    Case('atoms-axes-only', atoms, 'axes-only rotation', kwargs=dict(kinds=('rotation',), basis=True)),
    Case('build', build, '4 ways to assemble'),
]
