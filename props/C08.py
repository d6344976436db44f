"""C08: transforming a volume moves its region, and its crystal with it exactly when the transformation is locked."""
from engine.harness import Case, flat, rows
from props.common import isometry, apply, mv, mat, point_generator, I3, Slab, outside_shell, kept_exactly

ASSUMPTIONS = ["isometries; sequences combined in one transformation use uniform lock and basis flags; "
               "points within 1e-3 of a boundary not claimed"]
E_ = 1e-3
LAT = ([[3, 0, 0], [1, 4, 0], [0, 0.5, 5]], [11, 17], [[0, 0, 0], [0.5, 0.5, 0.25]])


ORTHO = ([[3, 0, 0], [0, 4, 0], [0, 0, 5]], [11, 17], [[0, 0, 0], [0.5, 0.5, 0.25]])


def crystal(S, name='g', lat=LAT):
    from czone.generator import Generator
    o = S.vec(name + '.o', lo=-5, hi=5)
    return Generator(structure=S.structure(*lat), origin=o), flat(o)


def bases_of(S, lat=LAT):
    """columns are the lattice vectors"""
    return [[lat[0][j][i] for j in range(3)] for i in range(3)]


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def flags(S, T, name=''):
    lock = S.choice('lock' + name, (True, False))
    basis = S.choice('basis' + name, (False, True))
    T.locked, T.basis_only = lock, basis
    return lock, basis


def check_crystal(S, g, B, o, label):
    S.eq(label + ': lattice vectors of the crystal', g.voxel.bases, B)
    S.eq(label + ': origin of the crystal', g.origin, o)


def surfaces(S, kinds=('translation', 'inversion', 'reflection'), rot='axis', steps=1, surface='sphere'):
    """sphere or half space with a crystal, one or more transforms with any flags"""
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere, Plane
    lat = ORTHO if rot == 'quat' else LAT
    g, o = crystal(S, lat=lat)
    B = bases_of(S, lat)
    c = flat(S.vec('c', lo=-6, hi=6))
    p = flat(S.vec('p', lo=-9, hi=9))
    d = S.sub(p, c)
    if surface == 'sphere':
        r = S.real('r', 0, 10)
        S.assume(r > 0.1)
        obj = Sphere(radius=r, center=S.arr(c))
        ins, out = S.norm2(d) < r * r, S.norm2(d) > (r + E_) * (r + E_)
    else:
        n = (2, -1, 2)
        obj = Plane(normal=list(n), point=S.arr(c))
        ins, out = S.dot(n, d) < 0, S.dot(n, d) > 5 * E_
    v = Volume(alg_objects=[obj], generator=g)
    q = p
    for k in range(steps):
        T, M, t = isometry(S, kinds, name=f'T{k}', rot=rot, normals=((0, 3, 4), (1, 1, 1)))
        lock, basis = flags(S, T, str(k))
        v.transform(T)
        q = apply(S, M, t, q)
        if lock:
            B = mm(M, B)
            if not basis:
                o = apply(S, M, t, o)
        check_crystal(S, v.generator, B, o, f'after step {k}')
    got = flat(v.checkIfInterior(S.arr([q])))
    S.observe('in', got)
    S.check('the region moves with its points', S.And(S.Implies(ins, got[0]), S.Implies(out, S.Not(got[0]))))
    S.check('number of surfaces is unchanged', len(v.alg_objects) == 1)


BOX = (4, 3, 5)


def hull(S, kinds, rot='axis', gen='crystal'):
    """point hull (box): the points move, the interior moves"""
    from czone.volume import Volume, makeRectPrism
    from czone.generator import AmorphousGenerator, NullGenerator
    o = None
    if gen == 'crystal':
        g, o = crystal(S)
    elif gen == 'amorphous':
        g = AmorphousGenerator()
    elif gen == 'null':
        g = NullGenerator()
    else:
        g = None
    B = bases_of(S)
    P = makeRectPrism(*BOX)
    v = Volume(points=P, generator=g)
    # a spectator built from the same inputs must not move
    twin = Volume(points=P, generator=g)
    T, M, t = isometry(S, kinds, rot=rot, origin=False, normals=((0, 3, 4),))
    lock, basis = flags(S, T)
    p = flat(S.vec('p', lo=-2, hi=6))
    v.transform(T)
    for a, b in zip(rows(v.points), rows(makeRectPrism(*BOX))):
        S.eq('corner points move', a, apply(S, M, t, b))
    S.eq('points handed in are not changed', P, makeRectPrism(*BOX))
    S.check('no points added or lost', len(rows(v.points)) == 8)
    if gen == 'crystal':
        if lock:
            B = mm(M, B)
            if not basis:
                o2 = apply(S, M, t, o)
        check_crystal(S, v.generator, B, o2 if lock and not basis else o, 'hull volume')
        check_crystal(S, twin.generator, bases_of(S), o, 'other volume')
    got = flat(v.checkIfInterior(S.arr([apply(S, M, t, p)])))
    S.observe('in', got)
    ins = S.And(*[S.And(p[k] > E_, p[k] < BOX[k] - E_) for k in range(3)])
    out = S.Or(*[S.Or(p[k] < -E_, p[k] > BOX[k] + E_) for k in range(3)])
    S.check('the region moves with its points', S.And(S.Implies(ins, got[0]), S.Implies(out, S.Not(got[0]))))
    old = flat(twin.checkIfInterior(S.arr([p])))
    S.check('other volumes do not move', S.And(S.Implies(ins, old[0]), S.Implies(out, S.Not(old[0]))))


def tiny(S, steps=1):
    """small moves far from the origin count as well"""
    from czone.volume import Volume, makeRectPrism
    at = S.choice('at', ((0, 0, 0), (100, -200, 300), (5000, 0, 0)))
    g, o = crystal(S)
    corners = rows(makeRectPrism(*BOX, center=S.arr([float(x) for x in at])))
    v = Volume(points=makeRectPrism(*BOX, center=S.arr([float(x) for x in at])), generator=g)
    for k in range(steps):
        from czone.transform import Translation
        t = flat(S.vec(f't{k}', lo=-0.01, hi=0.01))
        v.transform(Translation(shift=S.arr(t)))
        corners = [S.addv(c, t) for c in corners]
        o = S.addv(o, t)
    for a, b in zip(rows(v.points), corners):
        S.eq('corner points move', a, b)
    check_crystal(S, v.generator, bases_of(S), o, 'after small moves')


def union(S, nested=False):
    """every member of a union moves, with its own crystal"""
    from czone.volume import Volume, MultiVolume
    from czone.volume.algebraic import Sphere
    T, M, t = isometry(S, ('translation', 'rotation', 'inversion'), rot='axis')
    lock, basis = flags(S, T)
    vols, keep = [], []
    for k in range(3 if nested else 2):
        g, o = crystal(S, f'g{k}')
        c = flat(S.vec(f'c{k}', lo=-6, hi=6))
        vols.append(Volume(alg_objects=[Sphere(radius=k + 1.5, center=S.arr(c))], generator=g))
        keep.append((c, k + 1.5, o))
    if nested:
        mvol = MultiVolume([MultiVolume(vols[:2]), vols[2]])
    else:
        mvol = MultiVolume(vols)
    mvol.transform(T)
    for v, (c, r, o) in zip(vols, keep):
        B, oo = bases_of(S), o
        if lock:
            B = mm(M, B)
            oo = o if basis else apply(S, M, t, o)
        check_crystal(S, v.generator, B, oo, 'member')
        S.eq('member region moves once', v.alg_objects[0].center, apply(S, M, t, c))
        S.eq('member size is unchanged', v.alg_objects[0].radius, r)


def combined(S, kinds=('translation', 'rotation', 'inversion')):
    """a combined transformation acts like its parts in order"""
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere, Plane
    from czone.transform import MultiTransform
    g, o = crystal(S, lat=ORTHO)
    c = flat(S.vec('c', lo=-6, hi=6))
    v = Volume(alg_objects=[Sphere(radius=2.0, center=S.arr(c)), Plane(normal=[2, -1, 2], point=S.arr(c))], generator=g)
    lock, basis = S.choice('lock', (True, False)), S.choice('basis', (False, True))
    ts, B, cc, n = [], bases_of(S, ORTHO), c, [2, -1, 2]
    for k in range(2):
        T, M, t = isometry(S, kinds, name=f'T{k}', rot='axis', origin=(k == 0))
        T.locked, T.basis_only = lock, basis
        ts.append(T)
        cc = apply(S, M, t, cc)
        n = mv(M, n)
        if lock:
            B = mm(M, B)
            if not basis:
                o = apply(S, M, t, o)
    v.transform(MultiTransform(ts))
    check_crystal(S, v.generator, B, o, 'combined')
    S.eq('sphere moves', v.alg_objects[0].center, cc)
    S.eq('plane point moves', v.alg_objects[1].point, cc)
    S.eq('plane normal turns', S.scale(3, flat(v.alg_objects[1].normal)), n)


def many(S, kinds=('translation', 'rotation', 'inversion', 'reflection'), steps=1, hulled=False):
    """a volume of several surfaces of the same kind, alike or not: each of them moves, once"""
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    same = S.choice('alike', (True, False))
    cs = [flat(S.vec(f'c{k}', lo=-6, hi=6)) for k in range(2)]
    ps = [flat(S.vec(f'q{k}', lo=-6, hi=6)) for k in range(2)]
    ys = [flat(S.vec(f'y{k}', lo=-6, hi=6)) for k in range(2)]
    radii = (3.0, 3.0 if same else 4.0)
    normals = ([2, -1, 2], [2, -1, 2] if same else [-1, 2, 2])
    surf = [Sphere(radius=radii[0], center=S.arr(cs[0])), Plane(normal=normals[0], point=S.arr(ps[0])),
            Sphere(radius=radii[1], center=S.arr(cs[1])), Cylinder(axis=[0, 0, 1], point=S.arr(ys[0]), radius=2.0, length=5.0),
            Plane(normal=normals[1], point=S.arr(ps[1])), Cylinder(axis=[0, 0, 1], point=S.arr(ys[1]), radius=2.0, length=5.0)]
    kw = dict(points=makeRectPrism(*BOX)) if hulled else {}
    v = Volume(alg_objects=surf, **kw)
    p = flat(S.vec('p', lo=-2, hi=6))
    was = flat(v.checkIfInterior(S.arr([p])))
    q, ns = p, [list(n) for n in normals]
    cor = rows(makeRectPrism(*BOX))
    for k in range(steps):
        T, M, t = isometry(S, kinds, name=f'T{k}', rot='fixed', origin=not hulled, normals=((0, 3, 4), (1, 1, 1)))
        v.transform(T)
        cs, ps, ys = [[apply(S, M, t, x) for x in l] for l in (cs, ps, ys)]
        ns = [mv(M, n) for n in ns]
        q = apply(S, M, t, q)
        cor = [apply(S, M, t, x) for x in cor]
    objs = list(v.alg_objects)
    S.check('number of surfaces is unchanged', len(objs) == 6)
    for kind, where in ((Sphere, cs), (Plane, ps), (Cylinder, ys)):
        mine = [o for o in objs if isinstance(o, kind)]
        S.check('surfaces keep their kind', len(mine) == 2)
        for j, o in enumerate(mine):
            S.eq(f'{kind.__name__} {j} moves once', o.center if kind is Sphere else o.point, where[j])
            if kind is Sphere:
                S.eq('sphere keeps its radius', o.radius, radii[j])
            if kind is Plane:
                S.eq('plane normal turns', S.scale(3, flat(o.normal)), ns[j])
            if kind is Cylinder:
                S.eq('cylinder keeps its size', [o.radius, o.length], [2.0, 5.0])
    if hulled:
        for a, b in zip(rows(v.points), cor):
            S.eq('corner points move', a, b)
    now = flat(v.checkIfInterior(S.arr([q])))
    S.observe('in', now)


def populate(S):
    """the populated atoms are the moved atoms"""
    from props.C03 import crystal as filled
    from czone.transform import Rotation, Translation

    def move(S, v):
        t = [1, -2.5, 0.25]
        first = S.choice('first', (True, False))
        R = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
        if first:
            v.transform(Translation(shift=S.arr(t)))
        v.transform(Rotation(matrix=S.arr(R)))
        if not first:
            v.transform(Translation(shift=S.arr(t)))
        return lambda q: mv(R, S.addv(q, t)) if first else S.addv(mv(R, q), t)
    filled(S, move, span=0.2)


CASES = [
    Case('sphere', surfaces, 'sphere + crystal, one transform, any lock/basis flags'),
    Case('sphere-turned', surfaces, 'sphere + crystal, any rotation', kwargs=dict(kinds=('rotation',), rot='quat')),
    Case('half-space-twice', surfaces, 'half space + crystal, two transforms with own flags',
         kwargs=dict(surface='plane', steps=2, kinds=('translation', 'inversion'))),
    Case('half-space-turned', surfaces, 'half space + crystal, rotation about an axis by any angle or mirror',
         kwargs=dict(surface='plane', kinds=('rotation', 'reflection'))),
    Case('sphere-thrice', surfaces, 'sphere + crystal, three transforms', kwargs=dict(steps=3, kinds=('translation', 'inversion')), thorough_only=True),
    Case('hull', hull, 'box hull + crystal; translation, inversion, mirror', kwargs=dict(kinds=('translation', 'inversion', 'reflection'))),
    Case('hull-turned', hull, 'box hull + crystal; 4 rotations', kwargs=dict(kinds=('rotation',), rot='fixed')),
    Case('hull-turned-any', hull, 'box hull + crystal; rotation about an axis by any angle', kwargs=dict(kinds=('rotation',)), thorough_only=True),
    Case('hull-amorphous', hull, 'box hull + amorphous generator', kwargs=dict(kinds=('translation', 'inversion'), gen='amorphous')),
    Case('hull-null', hull, 'box hull + empty generator', kwargs=dict(kinds=('translation',), gen='null')),
    Case('hull-bare', hull, 'box hull without generator', kwargs=dict(kinds=('translation', 'inversion'), gen=None)),
    Case('tiny', tiny, 'box hull + crystal, near or far; any shift below 0.01'),
    Case('union', union, 'union of 2'),
    Case('union-nested', union, 'nested union of 3', kwargs=dict(nested=True)),
    Case('combined', combined, 'combined transformation of two parts'),
    Case('many', many, 'six surfaces, two of each kind, alike or not; one transform'),
    Case('many-hulled', many, 'six surfaces and a box hull; one transform without origin', kwargs=dict(hulled=True)),
    Case('populate', populate, 'crystal-filled box, quarter turn and a shift in either order, any lattice origin within 0.2, then populated'),
]
