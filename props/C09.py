"""C09: copies and derived objects are equal to their source and independent of it."""
from engine.harness import Case, flat, rows
from props.common import isometry, apply, mv, I3
from props.C08 import crystal, bases_of, mm, LAT, BOX

ASSUMPTIONS = ["isometries with symbolic parameters; independence judged on region, surfaces, points, crystal frame, priority and tolerance"]


def snap(S, v):
    """everything observable about a volume, as plain values"""
    out = {'priority': v.priority, 'n': len(v.alg_objects)}
    if v.points is not None:
        out['points'] = rows(v.points)
    for k, a in enumerate(v.alg_objects):
        nm = type(a).__name__
        if nm == 'Sphere':
            out[f's{k}'] = flat(a.center) + [a.radius]
        elif nm == 'Plane':
            out[f's{k}'] = flat(a.point) + flat(a.normal)
        else:
            out[f's{k}'] = flat(a.point) + flat(a.axis) + [a.radius, a.length]
    if v.generator is not None:
        out['bases'] = rows(v.generator.voxel.bases)
        out['origin'] = flat(v.generator.origin)
    return out


def equal(S, label, a, b):
    S.check(label + ': same shape', set(a) == set(b))
    for k in a:
        if k in b:
            S.eq(label + ': ' + k.rstrip('0123456789'), a[k], b[k])


def base_volume(S, hull=False, prio=3, tol=1e-7):
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    g, o = crystal(S)
    c = S.vec('c', lo=-6, hi=6)
    surf = [Sphere(radius=2.5, center=c), Plane(normal=[2, -1, 2], point=c),
            Cylinder(axis=[0, 0, 1], point=c, radius=1.5, length=4)]
    v = Volume(points=makeRectPrism(*BOX) if hull else None, alg_objects=surf, generator=g, priority=prio, tolerance=tol)
    return v, g, surf, flat(c), o


def disturb(S, v, how):
    """change one volume in place"""
    from czone.transform import Translation
    from czone.volume import makeRectPrism
    from czone.volume.algebraic import Sphere
    t = S.vec('d.t', lo=-5, hi=5)
    S.assume(S.dot(t, [1, 1, 1]) > 1)
    if how == 'transform':
        v.transform(Translation(shift=t))
    elif how == 'surface':
        v.alg_objects[0].center = t
        v.alg_objects[0].radius = 9.0
    elif how == 'add':
        v.add_alg_object(Sphere(radius=1.0, center=t))
    elif how == 'priority':
        v.priority = -7
    elif how == 'generator':
        v.generator.transform(Translation(shift=t))
    elif how == 'origin':
        v.generator.origin = t
    elif how == 'points':
        v.points = makeRectPrism(1, 1, 1)
    elif how == 'append':
        v.addPoints(S.arr([[9.0, 9.0, 9.0]]))
    elif how == 'inplace':
        v.points[0, 0] = 17.0


EDITS = ('transform', 'surface', 'add', 'priority', 'generator', 'origin')


def plain_copy(S, hull=False, edits=EDITS):
    prio, tol = S.choice('settings', ((3, 1e-7), (-2, 1e-3), (0, 1e-12)))
    v, g, surf, c, o = base_volume(S, hull, prio, tol)
    before = snap(S, v)
    w = v.from_volume()
    equal(S, 'copy equals source', before, snap(S, w))
    S.check('copy keeps its tolerance', w.tolerance == v.tolerance)
    S.check('copy is a new object', w is not v)
    how = S.choice('edit', edits)
    if S.choice('which', ('copy', 'source')) == 'copy':
        disturb(S, w, how)
        equal(S, 'editing the copy leaves the source', before, snap(S, v))
    else:
        disturb(S, v, how)
        equal(S, 'editing the source leaves the copy', before, snap(S, w))
    # the objects the volume was made from were not changed either
    S.eq('crystal handed in is unchanged', g.origin, o)
    S.eq('crystal handed in is unchanged', g.voxel.bases, bases_of(S))
    S.eq('surfaces handed in are unchanged', flat(surf[0].center) + [surf[0].radius], c + [2.5])


def derived(S):
    """transformed copies and replaced parts"""
    from czone.generator import Generator
    from czone.volume.algebraic import Sphere
    v, g, surf, c, o = base_volume(S)
    before = snap(S, v)
    T, M, t = isometry(S, ('translation', 'rotation', 'inversion'), rot='fixed')
    how = S.choice('how', ('transformed', 'generator', 'priority', 'priority zero', 'surfaces', 'no surfaces', 'points', 'tolerance', 'generator+transformed'))
    o2 = flat(S.vec('o2', lo=-5, hi=5))
    B2 = [[2.0, 0, 0], [0, 7.0, 0], [0.5, 0, 3.0]]
    g2 = Generator(structure=S.structure(B2, [5], [[0, 0, 0]]), origin=S.arr(o2))
    B2c = [[B2[j][i] for j in range(3)] for i in range(3)]
    want = dict(before)
    ap = lambda x: apply(S, M, t, x)
    if how == 'transformed':
        w = v.from_volume(transformation=[T])
    elif how == 'generator':
        w = v.from_volume(generator=g2)
        want.update(bases=B2c, origin=o2)
    elif how == 'priority':
        w = v.from_volume(priority=11)
        want.update(priority=11)
    elif how == 'priority zero':
        w = v.from_volume(priority=0)
        want.update(priority=0)
    elif how == 'no surfaces':
        w = v.from_volume(alg_objects=[])
        want = {k: x for k, x in want.items() if not k.startswith('s')}
        want.update(n=0)
    elif how == 'points':
        P = [[1.0, 0, 0], [0, 2.0, 0], [0, 0, 3.0], [4.0, 4.0, 4.0]]
        w = v.from_volume(points=S.arr(P))
        want.update(points=P)
    elif how == 'tolerance':
        w = v.from_volume(tolerance=1e-12)
        S.check('tolerance asked for', w.tolerance == 1e-12)
    elif how == 'surfaces':
        w = v.from_volume(alg_objects=[Sphere(radius=1.25, center=S.arr(o2))])
        want = {k: x for k, x in want.items() if not k.startswith('s')}
        want.update(s0=o2 + [1.25], n=1)
    else:
        w = v.from_volume(generator=g2, transformation=[T])
        want.update(bases=B2c, origin=o2)
    if 'transformed' in how:
        want['bases'] = mm(M, rows(want['bases']))
        want['origin'] = ap(want['origin'])
        want['s0'] = ap(c) + [2.5]
        want['s1'] = ap(c) + [x / 3 for x in mv(M, [2, -1, 2])]
        want['s2'] = ap(c) + mv(M, [0, 0, 1]) + [1.5, 4]
    got = snap(S, w)
    if 's2' in want and 's2' in got:
        # the axis of a cylinder is a line: compare up to sense
        S.eq('derived volume: axis is parallel', S.crossp(got['s2'][3:6], want['s2'][3:6]), [0, 0, 0])
        for d in (got, want):
            d['s2'] = d['s2'][:3] + d['s2'][6:]
    equal(S, 'derived volume', want, got)
    equal(S, 'source is unchanged', before, snap(S, v))
    S.eq('replacement crystal is unchanged', g2.origin, o2)
    S.eq('replacement crystal is unchanged', g2.voxel.bases, B2c)
    if how == 'transformed':
        w2 = v.from_volume(transformation=[T, T])
        S.eq('listed transformations apply in turn', w2.alg_objects[0].center, ap(ap(c)))
        S.eq('listed transformations apply in turn', w2.generator.origin, ap(ap(o)))


def union_copy(S):
    from czone.volume import Volume, MultiVolume
    from czone.volume.algebraic import Sphere
    vols = []
    for k in range(2):
        g, _ = crystal(S, f'g{k}')
        vols.append(Volume(alg_objects=[Sphere(radius=1.5 + k, center=S.vec(f'c{k}', lo=-6, hi=6))], generator=g, priority=k))
    prio = S.choice('priority', (4, -3))
    m = MultiVolume(vols, priority=prio)
    before = [snap(S, v) for v in vols]
    t = flat(S.vec('t', lo=-6, hi=6))
    from czone.transform import Translation
    how = S.choice('how', ('plain', 'moved'))
    w = m.from_volume(transformation=[Translation(shift=S.arr(t))]) if how == 'moved' else m.from_volume()
    S.check('copy keeps priority and members', S.And(w.priority == prio, len(w.volumes) == 2))
    for a, b in zip(before, w.volumes):
        want = dict(a)
        if how == 'moved':
            want['origin'] = S.addv(a['origin'], t)
            want['s0'] = S.addv(a['s0'][:3], t) + a['s0'][3:]
        equal(S, 'member of the copy', want, snap(S, b))
    for a, v in zip(before, m.volumes):
        equal(S, 'source members are unchanged', a, snap(S, v))
    edit = S.choice('edit', EDITS)
    disturb(S, w.volumes[1], edit)
    w.transform(Translation(shift=S.arr([1.0, 2.0, 3.0])))
    for a, v in zip(before, m.volumes):
        equal(S, 'editing the copy leaves the source', a, snap(S, v))
    S.check('editing the copy leaves the source list', len(m.volumes) == 2)


def crystal_copy(S):
    """copies of generators: frame, strain and chemistry settings travel, nothing is shared"""
    from czone.transform.strain import HStrain
    from czone.transform.post import ChemicalSubstitution
    from czone.transform import Translation
    g, o = crystal(S)
    s = S.vec('s', lo=-2, hi=2)
    if S.choice('strained', (True, False)):
        g.strain_field = HStrain(matrix=s, mode='standard')
    if S.choice('doped', (True, False)):
        g.post_transform = ChemicalSubstitution([11], [5], 0.25)
    T, M, t = isometry(S, ('translation', 'rotation', 'inversion'), rot='axis', origin=False)
    moved = S.choice('moved', (True, False))
    h = g.from_generator(transformation=[T]) if moved else g.from_generator()
    S.eq('frame of the copy', h.voxel.bases, mm(M, bases_of(S)) if moved else bases_of(S))
    S.eq('origin of the copy', h.origin, apply(S, M, t, o) if moved else o)
    S.check('species and sites travel', list(h.species) == list(g.species))
    S.eq('species and sites travel', h.coords, g.coords)
    S.check('settings travel', S.And((h.strain_field is None) == (g.strain_field is None),
                                     (h.post_transform is None) == (g.post_transform is None)))
    S.eq('source frame is unchanged', g.voxel.bases, bases_of(S))
    S.eq('source origin is unchanged', g.origin, o)
    if g.strain_field is not None:
        S.eq('strain travels', rows(h.strain_field.matrix), [[s[i] if i == j else 0 for j in range(3)] for i in range(3)])
        h.strain_field.matrix = [9.0, 9.0, 9.0]
        S.eq('strain of the source is unchanged', rows(g.strain_field.matrix), [[s[i] if i == j else 0 for j in range(3)] for i in range(3)])
    if g.post_transform is not None:
        h.post_transform.frac = 0.75
        S.check('chemistry of the source is unchanged', g.post_transform.frac == 0.25)
    hows = S.choice('edit', ('replace', 'in place'))
    if hows == 'in place':
        h.voxel.bases[0, 0] = 41.0
        h.voxel.origin[1] = 43.0
        h.origin[0] = 42.0
        if h.strain_field is not None:
            h.strain_field.matrix[1, 1] = 44.0
    else:
        h.transform(Translation(shift=S.arr([1.0, 2.0, 3.0])))
        h.origin = S.arr([7.0, 7.0, 7.0])
        h.voxel.scale = 2.0
    S.eq('source origin is unchanged by later edits', g.origin, o)
    S.eq('source frame is unchanged by later edits', g.voxel.sbases, bases_of(S))
    if g.strain_field is not None:
        S.eq('strain of the source is unchanged by later edits', rows(g.strain_field.matrix), [[s[i] if i == j else 0 for j in range(3)] for i in range(3)])


def attach(S):
    """attaching a generator to a volume copies it; an explicit origin goes to the copy only"""
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere
    g, o = crystal(S)
    o2 = S.vec('o2', lo=-5, hi=5)
    how = S.choice('how', ('constructor', 'constructor+origin', 'method', 'method+origin'))
    sph = [Sphere(radius=2.0, center=S.arr([0.0, 0.0, 0.0]))]
    if how.startswith('constructor'):
        kw = {'gen_origin': o2} if 'origin' in how else {}
        v = Volume(alg_objects=sph, generator=g, **kw)
    else:
        v = Volume(alg_objects=sph)
        if 'origin' in how:
            v.add_generator(g, origin=o2)
        else:
            v.add_generator(g)
    S.eq('origin of the attached crystal', v.generator.origin, o2 if 'origin' in how else o)
    S.eq('frame of the attached crystal', v.generator.voxel.bases, bases_of(S))
    S.eq('crystal handed in keeps its origin', g.origin, o)
    g.origin = S.arr([8.0, 8.0, 8.0])
    S.eq('later edits of the crystal do not reach the volume', v.generator.origin, o2 if 'origin' in how else o)


def surface_copy(S):
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    c = flat(S.vec('c', lo=-6, hi=6))
    kind = S.choice('kind', ('sphere', 'plane', 'cylinder'))
    a = {'sphere': lambda: Sphere(radius=2.5, center=S.arr(c)),
         'plane': lambda: Plane(normal=[2, -1, 2], point=S.arr(c)),
         'cylinder': lambda: Cylinder(axis=[0, 0, 1], point=S.arr(c), radius=1.5, length=4)}[kind]()
    T, M, t = isometry(S, ('translation', 'rotation', 'inversion'), rot='axis')
    place = lambda x: flat(x.center) if kind == 'sphere' else flat(x.point)
    if S.choice('moved', (True, False)):
        b = a.from_alg_object(transformation=[T])
        S.eq('moved copy', place(b), apply(S, M, t, c))
    else:
        b = a.from_alg_object()
        S.eq('plain copy', place(b), c)
    S.check('copy is a new object of the same kind', S.And(b is not a, type(b) is type(a)))
    S.eq('source is unchanged', place(a), c)
    if kind == 'plane':
        S.eq('source normal is unchanged', S.scale(3, flat(a.normal)), [2, -1, 2])
    if kind == 'sphere':
        b.radius, b.center = 9.0, S.arr([1.0, 1.0, 1.0])
        S.eq('editing the copy leaves the source', place(a) + [a.radius], c + [2.5])
    else:
        b.point = S.arr([1.0, 1.0, 1.0])
        S.eq('editing the copy leaves the source', place(a), c)


def molecule_copy(S):
    from czone.molecule import molecule
    from czone.transform import Translation
    pos = [flat(S.vec(f'a{k}', lo=-6, hi=6)) for k in range(3)]
    m = molecule.Molecule(S.arr([8, 1, 1]), S.arr(pos))
    track = S.choice('origin', ('default', 'atom', 'point'))
    if track == 'atom':
        m.set_origin(idx=1)
    elif track == 'point':
        m.set_origin(point=S.arr(S.addv(pos[0], pos[1])))
    og = flat(m.origin)
    m.priority = 5
    m.print_warnings = False
    t = flat(S.vec('t', lo=-6, hi=6))
    if S.choice('moved', (True, False)):
        n = m.from_molecule(transformation=[Translation(shift=S.arr(t))])
    else:
        n, t = m.from_molecule(), [0, 0, 0]
    S.check('copy keeps species and priority', S.And([int(x) for x in flat(n.species)] == [8, 1, 1], n.priority == 5))
    for k in range(3):
        S.eq('atoms of the copy', rows(n.atoms)[k], S.addv(pos[k], t))
    S.eq('origin of the copy', n.origin, S.addv(og, t))
    edit = S.choice('edit', ('update', 'remove', 'species', 'origin', 'inplace'))
    if edit == 'update':
        n.update_positions(S.arr([[1.0, 2.0, 3.0]] * 3))
    elif edit == 'remove':
        n.remove_atoms([0])
    elif edit == 'species':
        n.update_species(S.arr([3, 3, 3]))
    elif edit == 'origin':
        n.set_origin(idx=2)
    else:
        n.atoms[0, 0] = 99.0
        n.species[0] = 3
    S.check('source species are unchanged', [int(x) for x in flat(m.species)] == [8, 1, 1])
    S.check('source has all its atoms', len(rows(m.atoms)) == 3)
    for k in range(3):
        S.eq('source atoms are unchanged', rows(m.atoms)[k], pos[k])
    S.eq('source origin is unchanged', m.origin, og)


CASES = [
    Case('volume', plain_copy, 'sphere+plane+cylinder+crystal, 6 kinds of edit on either side'),
    Case('volume-hull', plain_copy, 'with a box hull; edits of points', kwargs=dict(hull=True, edits=('points', 'append', 'inplace', 'priority'))),
    Case('derived', derived, 'transformed / replaced parts; translations, inversions, 4 rotations, any origin'),
    Case('union', union_copy, 'union of 2, plain or moved, 6 edits'),
    Case('crystal', crystal_copy, 'generator with strain and substitution on/off'),
    Case('attach', attach, '4 ways to attach'),
    Case('surface', surface_copy, '3 kinds of surface'),
    Case('molecule', molecule_copy, '3 atoms, 3 kinds of origin, 5 edits'),
]
