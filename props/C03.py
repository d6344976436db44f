"""C03: populating a volume keeps exactly the supplied atoms that are inside it."""
from engine.harness import Case, flat, rows
from props.common import Slab, kept_exactly, outside_shell, point_generator
from props.C04 import parts, box_io, tet_io, TET

ASSUMPTIONS = ["generators supply given atoms, or the lattice generator on a symbolic lattice origin; points near a boundary not claimed"]


def exact(S, kinds=('sphere', 'plane'), hull=None, natoms=2, coincide=False):
    from czone.volume import Volume, makeRectPrism
    import numpy as np
    ps = parts(S, kinds)
    ios = [io for _, io in ps]
    pts = None
    if hull == 'box':
        pts = makeRectPrism(4, 3, 5)
        ios.append(lambda p: box_io(S, p))
    elif hull == 'tet':
        pts = np.array(TET, dtype=float)
        ios.append(lambda p: tet_io(S, p))
    atoms = [flat(S.vec(f'a{k}', lo=-12, hi=12)) for k in range(natoms)]
    if coincide:
        atoms[1] = list(atoms[0])       # two atoms at one place are two atoms
    # species may repeat; tags identify atoms here
    tags = [11 + k for k in range(natoms)]
    g = point_generator(S, atoms, tags)
    v = Volume(points=pts, alg_objects=[a for a, _ in ps] or None, generator=g)
    exp = []
    for t, p in zip(tags, atoms):
        ins = S.And(*[io(p)[0] for io in ios])
        out = S.Or(*[io(p)[1] for io in ios]) if ios else False
        S.assume(S.Or(ins, out))
        exp.append((t, p, ins))
    v.populate_atoms()
    kept_exactly(S, 'volume', v.species, v.atoms, exp)
    nums, pos = S.atoms_view(v.ase_atoms)
    kept_exactly(S, 'volume (exported)', S.arr(nums), S.arr(pos) if len(pos) else pos, exp)
    v.populate_atoms()
    kept_exactly(S, 'volume populated again', v.species, v.atoms, exp)


def crystal(S, move=None, span=0.9):
    """a lattice generator in a box: every lattice atom in the box, with its own species, exactly once;
    with `move`, the volume was transformed first and the atoms are the transformed ones"""
    from czone.volume import Volume, makeRectPrism
    from czone.generator import Generator
    import numpy as np
    a = (3, 4, 5)
    fr = [[0, 0, 0], [0.5, 0.5, 0.5]]
    sp = [11, 17]
    o = S.vec('o', lo=-span, hi=span)
    g = Generator(structure=S.structure([[3.0, 0, 0], [0, 4.0, 0], [0, 0, 5.0]], sp, fr), origin=o)
    dims = (3.5, 4.5, 2.5)
    v = Volume(points=makeRectPrism(*dims), generator=g)
    where = lambda q: q
    if move is not None:
        where = move(S, v)
    v.populate_atoms()
    got = rows(v.atoms)
    spc = flat(v.species)
    S.check('positions and species pair up', len(got) == len(spc))
    exp = []
    for i in range(-3, 5):
        for j in range(-3, 5):
            for k in range(-3, 5):
                for f, s in zip(fr, sp):
                    q = [o[n] + a[n] * ((i, j, k)[n] + f[n]) for n in range(3)]
                    lo = [a[n] * ((i, j, k)[n] + f[n]) - span for n in range(3)]
                    hi = [x + 2 * span for x in lo]
                    if any(hi[n] < 0 or lo[n] > dims[n] for n in range(3)):
                        continue
                    ins, out = box_io(S, q, dims)
                    S.assume(S.Or(ins, out))
                    exp.append((s, where(q), ins))
    total = sum((S.ite(c, 1, 0) for _, _, c in exp), 0)
    S.check('as many atoms as lattice sites inside', total == len(got))
    for p, s in zip(got, spc):
        S.check('every atom is a lattice site of its species, inside',
                S.Or(*[S.And(c, S.close(p, q, 1e-6)) for t, q, c in exp if t == int(s)]))
    for x in range(len(got)):
        for y in range(x):
            S.check('no site twice', S.Not(S.close(got[x], got[y], 1e-3)))


CASES = [
    Case('surfaces', exact, 'sphere and plane, 2 atoms'),
    Case('cylinder', exact, 'cylinder and plane, 1 atom', kwargs=dict(kinds=('cylinder', 'plane'), natoms=1)),
    Case('box', exact, 'box hull and plane, 2 atoms', kwargs=dict(kinds=('plane',), hull='box', natoms=2)),
    Case('tetrahedron', exact, 'tetrahedral hull, 3 atoms', kwargs=dict(kinds=(), hull='tet', natoms=3)),
    Case('coincident', exact, 'sphere and plane, 3 atoms of which two coincide', kwargs=dict(natoms=3, coincide=True)),
    Case('nothing', exact, 'no atoms supplied', kwargs=dict(kinds=('sphere',), natoms=0)),
    Case('crystal', crystal, 'two-species 3x4x5 crystal, any origin within 0.9, box 3.5x4.5x2.5'),
]
