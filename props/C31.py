"""C31: parameters outside their domain are refused and change nothing; those inside are taken as given."""
from engine.harness import Case, flat, rows
from props.common import FIXED, mat, mv

ASSUMPTIONS = ["values within 1e-3 (relative) of the edge of a domain are not claimed unless the edge is zero"]


def judge(S, label, do, valid):
    """exactly the valid values are taken; returns whether this one was"""
    bad = S.raises(do)
    S.check(label + ': exactly the valid values are taken', S.Iff(valid, not bad))
    return not bad


def positive(S):
    """radii, lengths, densities, distances and tolerances"""
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    from czone.generator import AmorphousGenerator
    x = S.real('x', -5, 5)
    S.assume(S.Or(x <= 0, x > 1e-6))
    what = S.choice('what', ('sphere.radius', 'cylinder.radius', 'cylinder.length', 'sphere.tol', 'plane.tol', 'density', 'min_dist'))
    cls, attr = what.split('.') if '.' in what else ('amorphous', what)
    new = S.choice('new', (True, False)) and attr not in ('tol', 'density')
    old = 2.5
    build = {'sphere': lambda **k: Sphere(**dict(dict(radius=old, center=[0, 0, 1.0]), **k)),
             'cylinder': lambda **k: Cylinder(**dict(dict(axis=[0, 0, 1], point=[0, 1.0, 0], radius=old, length=old), **k)),
             'plane': lambda **k: Plane(normal=[0, 0, 1], point=[0, 0, old]),
             'amorphous': lambda **k: AmorphousGenerator(**dict(dict(min_dist=old), **k))}[cls]
    if new:
        if judge(S, what + ' (new object)', lambda: build(**{attr: x}), x > 0):
            S.eq('a new object has the value asked for', getattr(build(**{attr: x}), attr), x)
        return
    o = build()
    if attr in ('tol', 'density'):
        setattr(o, attr, old)

    def do():
        setattr(o, attr, x)
    ok = judge(S, what, do, x > 0)
    S.eq('the value is the last one taken', getattr(o, attr), x if ok else old)
    if cls == 'sphere' and attr == 'radius':
        p = flat(S.vec('p', lo=-8, hi=8))
        r = x if ok else old
        d2 = S.norm2(S.sub(p, [0, 0, 1]))
        S.assume(S.Or(d2 < r * r, d2 > (r + 1e-3) * (r + 1e-3)))
        S.check('the region follows the value taken', S.Iff(flat(o.checkIfInterior(S.arr([p])))[0], d2 < r * r))


def vectors(S):
    """normals, axes, centres, points, shifts and origins"""
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    from czone.transform import Translation, Rotation, HStrain
    from czone.volume import Voxel
    import numpy as np
    what = S.choice('what', ('normal', 'axis', 'center', 'point', 'shift', 'origin', 'strain origin', 'cell origin'))
    o, attr = {'normal': (lambda: Plane(normal=[0, 3, 4], point=[0, 0, 0]), 'normal'),
               'axis': (lambda: Cylinder(axis=[0, 3, 4], point=[0, 0, 0], radius=1.0, length=1.0), 'axis'),
               'center': (lambda: Sphere(radius=1.0, center=[1.0, 2, 3]), 'center'),
               'point': (lambda: Plane(normal=[0, 3, 4], point=[1.0, 2, 3]), 'point'),
               'shift': (lambda: Translation(shift=[1.0, 2, 3]), 'shift'),
               'origin': (lambda: Rotation(matrix=np.eye(3), origin=np.array([1.0, 2, 3])), 'origin'),
               'strain origin': (lambda: HStrain(matrix=[1, 1, 1], origin=np.array([1.0, 2, 3])), 'origin'),
               'cell origin': (lambda: Voxel(origin=np.array([1.0, 2, 3])), 'origin')}[what]
    o = o()
    n = S.choice('n', (2, 3, 4))
    v = [S.real(f'v{k}', -3, 3) for k in range(n)]
    S.assume(S.Or(S.And(*[x == 0 for x in v]), S.Or(*[S.Or(x > 1e-3, x < -1e-3) for x in v])))
    unit = what in ('normal', 'axis')
    old = [0, 0.6, 0.8] if unit else [1, 2, 3]
    valid = S.Or(*[x != 0 for x in v]) if n == 3 and unit else n == 3
    a = S.arr(v)

    def do():
        setattr(o, attr, a)
    ok = judge(S, what, do, valid)
    got = flat(getattr(o, attr))
    S.check('three components', len(got) == 3)
    if ok and unit:
        S.eq('made a unit vector', S.norm2(got), 1)
        S.eq('along the vector given', S.crossp(got, v), [0, 0, 0])
        S.check('not against it', S.dot(got, v) > 0)
    else:
        S.eq('the vector is the last one taken', got, v if ok else old)


SHAPED = ('normal', 'axis', 'axis point', 'center', 'point', 'shift', 'origin', 'strain origin', 'cell origin')


def shaped(S):
    """vectors of the wrong shape are refused; columns are taken as the vectors they hold"""
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    from czone.transform import Translation, Inversion, HStrain
    from czone.volume import Voxel
    import numpy as np
    what = S.choice('what', SHAPED)
    attr = what.split()[-1]
    shape = S.choice('shape', ((3, 2), (2, 3), (3, 3), (1,), (2, 2), (3, 1)))
    if shape == (3, 1):
        S.assume(what not in ('strain origin', 'cell origin'))
    old = [1.0, 2, 3]
    o = {'normal': lambda: Plane(normal=old, point=[0, 0, 0]), 'axis': lambda: Cylinder(axis=old, point=[0, 0, 0], radius=1.0, length=1.0),
         'axis point': lambda: Cylinder(axis=[0, 0, 1], point=old, radius=1.0, length=3.0),
         'center': lambda: Sphere(radius=2.0, center=old), 'point': lambda: Plane(normal=[0, 3, 4], point=old),
         'shift': lambda: Translation(shift=old), 'origin': lambda: Inversion(origin=np.array(old)),
         'strain origin': lambda: HStrain(matrix=[1, 1, 1], origin=np.array(old)), 'cell origin': lambda: Voxel(origin=np.array(old))}[what]()
    v = flat(S.vec('v', lo=-3, hi=3))
    S.assume(S.norm2(v) > 0.01)
    col = shape == (3, 1)
    a = S.arr([[x] for x in v]) if col else np.arange(1.0, 1 + int(np.prod(shape))).reshape(shape)

    def do():
        setattr(o, attr, a)
    S.check('taken exactly when it is a vector', S.raises(do) != col)
    now = v if col else old
    unit = what in ('normal', 'axis')
    got = flat(getattr(o, attr))
    S.check('three components', len(got) == 3)
    if unit:
        S.eq('along the vector last taken', S.crossp(got, now), [0, 0, 0])
        S.check('not against it', S.dot(got, now) > 0)
    else:
        S.eq('the vector is the last one taken', got, now)
    if what in ('strain origin', 'cell origin', 'normal', 'axis'):
        return
    p = flat(S.vec('p', lo=-5, hi=5))
    q = S.arr([p, old])
    d = S.sub(p, now)
    if what == 'shift':
        S.eq('moves by the vector', rows(o.applyTransformation(q))[0], S.addv(p, now))
    elif what == 'origin':
        S.eq('turned about the point', rows(o.applyTransformation(q))[0], S.sub(S.scale(2, now), p))
    else:
        m = {'center': S.norm2(d) - 4, 'point': 3 * d[1] + 4 * d[2], 'axis point': d[0] * d[0] + d[1] * d[1] - 1}[what]
        S.assume(S.Or(m > 1e-3, m < -1e-3))
        inside = m < 0
        if what == 'axis point':
            S.assume(S.Or(S.abs(d[2]) > 1.501, S.abs(d[2]) < 1.499))
            inside = S.And(inside, S.abs(d[2]) < 1.5)
        S.check('the region follows', S.Iff(flat(o.checkIfInterior(q))[0], inside))


def rotation(S):
    """exactly the proper rotations are rotations"""
    from czone.transform import Rotation
    kind = S.choice('kind', ('rotation', 'scaled', 'mirrored', 'sheared', 'stretched', 'skew', 'shape'))
    R = S.quat_rotation('R') if kind == 'rotation' else S.arr(S.choice('R', FIXED)) if kind in ('scaled', 'mirrored') else None
    if kind == 'rotation':
        M = R
    elif kind == 'scaled':
        s = S.real('s', -2, 2)
        S.assume(S.Or(s < 0.999, s > 1.001))
        M = S.arr([[s * x for x in r] for r in rows(R)])
    elif kind == 'mirrored':
        k = S.choice('axis', (0, 1, 2))
        M = S.arr([[-x if j == k else x for j, x in enumerate(r)] for r in rows(R)])
    elif kind == 'sheared':
        k = S.real('k', -2, 2)
        S.assume(S.Or(k < -1e-3, k > 1e-3))
        i, j = S.choice('entry', ((0, 1), (2, 0), (1, 2)))
        M = S.arr([[1 if a == b else k if (a, b) == (i, j) else 0 for b in range(3)] for a in range(3)])
    elif kind == 'skew':                         # unit axes that are not at right angles
        M = S.choice('M', ([[1, 0.6, 0], [0, 0.8, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [-0.6, 0, 0.8]]))
        M = S.arr(M)
    elif kind == 'stretched':                    # volume kept, lengths not
        k = S.real('k', 0.2, 5)
        S.assume(S.Or(k < 0.999, k > 1.001))
        M = S.arr([[k, 0, 0], [0, 1 / k, 0], [0, 0, 1]])
    else:
        import numpy as np
        M = S.choice('M', (np.eye(4), np.eye(2), np.ones(9), np.ones((1, 3, 3))))
    import numpy as np
    p = flat(S.vec('p', lo=-5, hi=5))
    new = S.choice('new', (True, False))
    old = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
    if new:
        T = [None]

        def do():
            T[0] = Rotation(matrix=M)
        ok = judge(S, kind, do, kind == 'rotation')
        T = T[0]
        if not ok:
            return
    else:
        T = Rotation(matrix=np.array(old, dtype=float))

        def do():
            T.matrix = M
        ok = judge(S, kind, do, kind == 'rotation')
    S.eq('turns points by the matrix last taken', flat(T.applyTransformation(S.arr([p]))), mv(mat(M) if ok else old, p))


def cell(S):
    """basis vectors: parallel ones are refused, well separated ones taken"""
    from czone.volume import Voxel
    import numpy as np
    kind = S.choice('kind', ('parallel', 'apart', 'shape', 'scale'))
    old = [[2, 0, 0], [0, 3, 0], [1, 0, 4]]
    v = Voxel(bases=np.array(old, dtype=float), scale=1.5, origin=np.array([1.0, 0, 0]))
    valid = False
    scale = 1.5
    if kind == 'parallel':
        a = flat(S.vec('a', lo=-3, hi=3))
        S.assume(S.norm2(a) > 0.01)
        s = S.real('s', -3, 3)
        S.assume(S.Or(s > 0.1, s < -0.1))
        w = flat(S.vec('w', lo=-3, hi=3))
        S.assume(S.norm2(w) > 0.01)
        i, j = S.choice('pair', ((0, 1), (0, 2), (1, 2)))
        cols = [None] * 3
        cols[i], cols[j], cols[3 - i - j] = a, [s * x for x in a], w
        M = S.arr([[cols[c][r] for c in range(3)] for r in range(3)])
    elif kind == 'apart':
        u = [S.real(f'u{k}', 0.5, 6) for k in range(3)]
        j = S.choice('skew', (0, 1, 2))
        w = [S.real(f'w{k}', -2, 2) if k == j else 0 for k in range(3)]
        M = S.arr([[u[0], w[0], w[1]], [0, u[1], w[2]], [0, 0, u[2]]])
        valid = True
    elif kind == 'shape':
        M = S.choice('M', (np.eye(2), np.eye(4), np.ones(3), np.ones((3, 2))))
    if kind == 'scale':
        x = S.choice('x', (np.array([1.0, 2.0]), np.array([1.0, 2, 3, 4]), np.array([2.0]), np.array([1.0, 2, 3])))

        def do():
            v.scale = x
        ok = judge(S, kind, do, x.shape in ((1,), (3,)))
        scale = x if ok else 1.5
        M = np.array(old)
    else:
        def do():
            v.bases = M
        ok = judge(S, kind, do, valid)
    f = [scale] * 3 if np.ndim(scale) == 0 else [float(x) for x in (list(scale) * 3)[:3]]
    want = mat(M) if ok else old
    S.eq('the cell is the last one taken', rows(v.sbases), [[x * y for x, y in zip(r, f)] for r in want])
    S.eq('its position is kept', flat(v.origin), [1, 0, 0])


def region(S):
    """refused changes to a volume leave its interior, crystal and priority"""
    from czone.volume import Volume, MultiVolume, makeRectPrism
    from czone.volume.algebraic import Plane
    from czone.generator import NullGenerator
    import numpy as np
    kind = S.choice('bounded by', ('corners', 'half-space', 'both'))
    g = NullGenerator()
    kw = {}
    if kind != 'half-space':
        kw['points'] = makeRectPrism(4, 3, 5)
    if kind != 'corners':
        kw['alg_objects'] = [Plane(normal=[0, 3, 4], point=[0, 1.0, 1.0])]
    v = Volume(generator=g, priority=3, **kw)
    bad = S.choice('bad', ('priority', 'points', 'few points', 'surface', 'generator', 'transform', 'tolerance', 'member'))
    if bad == 'priority':
        val = S.choice('val', (1.5, '2', None, np.array(1.0)))

        def do():
            v.priority = val
    elif bad == 'points':
        val = S.choice('val', (np.ones((4, 2)), np.ones((2, 2, 3)), None, 7))

        def do():
            v.points = val
    elif bad == 'few points':
        val = S.choice('val', (np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]), np.array([1.0, 2, 3])))

        def do():
            v.points = val
    elif bad == 'surface':
        val = S.choice('val', (v, None, np.ones(3)))

        def do():
            v.add_alg_object(val)
    elif bad == 'generator':
        val = S.choice('val', (v, None, 'Au'))

        def do():
            v.add_generator(val)
    elif bad == 'transform':
        val = S.choice('val', (np.eye(3), None, g))

        def do():
            v.transform(val)
    elif bad == 'tolerance':
        val = S.choice('val', ('1e-3', None))

        def do():
            v.tolerance = val
    else:
        u = MultiVolume([v])
        val = S.choice('val', ('one', 'list'))

        def do():
            u.add_volume(g if val == 'one' else [Volume(generator=g), g])
    S.check(bad + ' refused', S.raises(do))
    S.check('the priority is kept', v.priority == 3)
    S.check('the generator is kept', isinstance(v.generator, NullGenerator))
    S.check('the surfaces are kept', len(v.alg_objects) == (kind != 'corners'))
    S.check('the tolerance is kept', v.tolerance == 1e-10)
    if kind != 'half-space':
        S.eq('the corners are kept', rows(v.points), rows(makeRectPrism(4, 3, 5)))
    S.check('the hull is kept', (v.hull is None) == (kind == 'half-space'))
    if bad == 'member':
        S.check('no member is added', len(u.volumes) == 1)
    p = flat(S.vec('p', lo=-2, hi=7))
    e = 1e-3
    m = []
    if kind != 'half-space':
        m += [q for k, d in enumerate((4, 3, 5)) for q in (-p[k], p[k] - d)]
    if kind != 'corners':
        m.append(3 * (p[1] - 1) + 4 * (p[2] - 1))
    for q in m:
        S.assume(S.Or(q > e, q < -e))
    S.check('the interior is kept', S.Iff(flat(v.checkIfInterior(S.arr([p])))[0], S.And(*[q < 0 for q in m])))


def steps(S):
    """transformations, strains, post-steps and scenes"""
    from czone.transform import (Translation, Rotation, Reflection, MultiTransform, HStrain, IStrain, MatrixTransform,
                                 PostSequence, ChemicalSubstitution, ArbitraryPostTransform)
    from czone.scene import Scene
    from czone.volume.algebraic import Plane
    import numpy as np
    p = flat(S.vec('p', lo=-5, hi=5))
    t = flat(S.vec('t', lo=-5, hi=5))
    T = Translation(shift=S.arr(t))
    bad = S.choice('bad', ('locked', 'basis_only', 'plane', 'matrix', 'sequence', 'sequence list', 'strain shape', 'strain mode',
                           'strain function', 'strain arguments', 'post', 'bounds', 'substitution'))
    if bad in ('locked', 'basis_only'):
        val = S.choice('val', (1, None, 'yes', 0.0))
        S.check(bad + ' refused', S.raises(lambda: setattr(T, bad, val)))
        S.check('flags are kept', T.locked is True and T.basis_only is False)
    elif bad == 'plane':
        T2 = Reflection(Plane(normal=[0, 0, 1], point=[0, 0, 1.0]))
        S.check(bad + ' refused', S.raises(lambda: setattr(T2, 'plane', S.choice('val', (None, [0, 0, 1], T)))))
        S.eq('mirrors as before', flat(T2.applyTransformation(S.arr([p]))), [p[0], p[1], 2 - p[2]])
    elif bad == 'matrix':
        T2 = MatrixTransform(matrix=np.diag([1.0, 2.0, 3.0]))
        S.check(bad + ' refused', S.raises(lambda: setattr(T2, 'matrix', S.choice('val', (np.eye(2), np.ones(9), np.ones((3, 4)))))))
        S.eq('acts as before', flat(T2.applyTransformation(S.arr([p]))), [p[0], 2 * p[1], 3 * p[2]])
    elif bad.startswith('sequence'):
        m = MultiTransform([T])
        val = S.choice('val', (None, 4, np.eye(3)))
        S.check(bad + ' refused', S.raises(lambda: m.add_transform(val if bad == 'sequence' else [Translation(shift=[1.0, 0, 0]), val])))
        S.eq('acts as before', flat(m.applyTransformation(S.arr([p]))), S.addv(p, t))
    elif bad.startswith('strain') and bad in ('strain shape', 'strain mode'):
        h = HStrain(matrix=[1.0, 2.0, 3.0])
        if bad == 'strain shape':
            S.check(bad + ' refused', S.raises(lambda: setattr(h, 'matrix', S.choice('val', ([1, 1], [1, 1, 1, 1], np.ones((2, 3, 3)), np.eye(2), np.ones((4, 3)))))))
        else:
            S.check(bad + ' refused', S.raises(lambda: setattr(h, 'mode', S.choice('val', ('crystals', None, 'CRYSTAL')))))
        S.check('the mode is kept', h.mode == HStrain(matrix=[1.0, 2.0, 3.0]).mode)
        h.mode = 'standard'
        S.eq('strains as before', flat(h.apply_strain(S.arr([p]))), [p[0], 2 * p[1], 3 * p[2]])
    elif bad.startswith('strain'):
        i = IStrain(fun=lambda x: 2 * x)
        if bad == 'strain function':
            S.check(bad + ' refused', S.raises(lambda: setattr(i, 'strain_fun', S.choice('val', (lambda x: x[:, :2], lambda x: x[:50], None)))))
        else:
            S.check(bad + ' refused', S.raises(lambda: setattr(i, 'fun_kwargs', S.choice('val', (None, [1], 'a')))))
        i.mode = 'standard'
        S.eq('strains as before', flat(i.apply_strain(S.arr([p]))), [2 * x for x in p])
    elif bad == 'post':
        s = PostSequence([ArbitraryPostTransform(lambda x, z: (2 * x, z + 1))])
        S.check(bad + ' refused', S.raises(lambda: s.add_transform(S.choice('val', (None, T, [ArbitraryPostTransform(lambda x, z: (3 * x, z)), T])))))
        x, z = s.apply_function(S.arr([p]), np.array([6]))
        S.eq('acts as before', flat(x), [2 * c for c in p])
        S.check('acts on species as before', [int(k) for k in flat(z)] == [7])
    elif bad == 'substitution':
        S.check(bad + ' refused', S.raises(lambda: ChemicalSubstitution(S.choice('val', ([6], [6, 7, 8], [])), [8, 9], 0.5)))
    else:
        lo, hi = [0, 0, 0], flat(S.vec('hi', lo=1, hi=9))
        s = Scene(bounds=S.arr([lo, hi]))
        S.check(bad + ' refused', S.raises(lambda: setattr(s, 'bounds', S.choice('val', (np.ones((3, 2)), np.ones(6), np.ones((2, 2)), 10.0)))))
        S.eq('the bounds are kept', rows(s.bounds), [lo, hi])


def builders(S):
    """planar-defect builders"""
    from czone.prefab.prefab import fccMixedTwinSF, wurtziteStackingFault
    from czone.volume import Volume
    from czone.generator import AmorphousGenerator, NullGenerator
    what = S.choice('what', ('ratio', 'min_sep', 'generator', 'volume'))
    cls = fccMixedTwinSF if what == 'ratio' or S.choice('class', (True, False)) else wurtziteStackingFault
    v = Volume(generator=NullGenerator())
    b = cls(volume=v, min_sep=4)
    if what == 'ratio':
        x = S.real('x', -2, 3)
        ok = judge(S, 'ratio', lambda: setattr(b, 'ratio', x), S.And(x >= 0, x <= 1))
        S.eq('the ratio is the last one taken', b.ratio, x if ok else 0.5)
        return
    val = {'min_sep': (1.5, '3', None), 'generator': (AmorphousGenerator(), None, v), 'volume': (NullGenerator(), None, 'box')}[what]
    S.check(what + ' refused', S.raises(lambda: setattr(b, what, S.choice('val', val))))
    S.check('the separation is kept', b.min_sep == 4)
    S.check('the volume is kept', b.volume is v)


def kept(S):
    """a value taken stays in effect when the caller goes on using the array it came in"""
    import numpy as np
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    from czone.volume import Voxel, Volume
    from czone.transform import Translation, Rotation, MatrixTransform, Inversion, HStrain
    from czone.generator import Generator
    from czone.molecule.molecule import Molecule
    from czone.scene import Scene
    what = S.choice('what', ('center', 'plane point', 'normal', 'axis', 'cylinder point', 'shift', 'matrix', 'rotation', 'turning point', 'inversion',
                             'cell origin', 'cell bases', 'lattice origin', 'strain', 'strain origin', 'corners', 'bounds', 'atoms', 'elements'))
    how = S.choice('how', ('new', 'set')) if what not in ('corners',) else 'new'
    d = [S.real(f'd{k}', 0.1, 3) for k in range(3)]
    eye = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    v = flat(S.vec('v', lo=-3, hi=3))
    if what in ('normal', 'axis'):
        v = [0, S.real('k', 0.5, 3), 0]
    elif what in ('matrix', 'cell bases', 'strain'):
        v = [[1 + d[0], 0, 0], [0, 2 + d[1], 0], [0, 0, 3 + d[2]]]
    elif what == 'rotation':
        v = mat(S.z_rotation('R'))
    elif what in ('corners', 'bounds', 'atoms'):
        v = [v, S.addv(v, [1, 2, 3])] + ([S.addv(v, [-1, 0, 2]), S.addv(v, [2, -1, 1]), S.addv(v, [4, 4, 0])] if what == 'corners' else [])
    elif what == 'elements':
        v = [6, 79]
    a = S.arr(v)
    z, e = np.zeros(3), np.eye(3)
    new, attr = {
        'center': (lambda x: Sphere(1.0, x), 'center'), 'plane point': (lambda x: Plane(e[0], x), 'point'), 'normal': (lambda x: Plane(x, z), 'normal'),
        'axis': (lambda x: Cylinder(x, z, 1.0, 1.0), 'axis'), 'cylinder point': (lambda x: Cylinder(e[0], x, 1.0, 1.0), 'point'),
        'shift': (lambda x: Translation(x), 'shift'), 'matrix': (lambda x: MatrixTransform(matrix=x), 'matrix'),
        'rotation': (lambda x: Rotation(matrix=x), 'matrix'), 'turning point': (lambda x: Rotation(matrix=e, origin=x), 'origin'),
        'inversion': (lambda x: Inversion(origin=x), 'origin'), 'cell origin': (lambda x: Voxel(origin=x), 'origin'),
        'cell bases': (lambda x: Voxel(bases=x), 'bases'), 'lattice origin': (lambda x: Generator(origin=x), 'origin'),
        'strain': (lambda x: HStrain(matrix=x), 'matrix'), 'strain origin': (lambda x: HStrain(matrix=e, origin=x), 'origin'),
        'corners': (lambda x: Volume(points=x), 'points'), 'bounds': (lambda x: Scene(bounds=x), 'bounds'),
        'atoms': (lambda x: Molecule([6, 79], x), 'atoms'), 'elements': (lambda x: Molecule(x, [[0, 0, 0], [1, 1, 1]]), 'species')}[what]
    other = {'normal': e[1], 'axis': e[1], 'matrix': e, 'rotation': e, 'cell bases': e, 'strain': e, 'bounds': np.array([[-9.0, -9, -9], [9, 9, 9]]),
             'atoms': np.array([[0.0, 0, 0], [1, 1, 1]]), 'elements': np.array([1, 1])}.get(what, np.array([1.0, 2, 3]))
    if how == 'new':
        o = new(a)
    else:
        o = new(other)
        if what in ('atoms', 'elements'):
            getattr(o, 'update_positions' if what == 'atoms' else 'update_species')(a)
        else:
            setattr(o, attr, a)
    got = flat(getattr(o, attr))
    b = list(got)
    if what not in ('normal', 'axis'):
        S.eq('the value given is taken', b, flat(v))
    if what in ('corners', 'bounds', 'atoms', 'matrix', 'rotation', 'cell bases', 'strain'):
        for r in range(len(v)):
            a[r, :] = a[r, :] + S.arr(d)
    elif what == 'elements':
        a[:] = a + 1
    else:
        a[:] = a + S.arr(d)
    S.eq('the value in effect is the one that was given', flat(getattr(o, attr)), b)


CASES = [
    Case('kept', kept, '19 parameters given when new or later as arrays of any numbers, which the caller then changes'),
    Case('positive', positive, 'any value in [-5,5] for 7 parameters that must be positive'),
    Case('vectors', vectors, 'any vector of 2, 3 or 4 components in [-3,3] for 8 parameters'),
    Case('shaped', shaped, 'any column vector and 5 wrong shapes for 9 parameters'),
    Case('rotation', rotation, 'any rotation; four rotations scaled by any factor in [-2,2] or mirrored; any shear and stretch along axes; unit axes not at right angles; 4 shapes'),
    Case('cell', cell, 'any parallel pair of basis vectors; any cell with sides 0.5 to 6 and one skew entry up to 2; 4 + 4 shapes'),
    Case('region', region, 'box, half-space or both; any point; 8 kinds of refused change'),
    Case('steps', steps, 'any point; 13 kinds of refused change'),
    Case('builders', builders, 'any ratio in [-2,3]; values of the wrong kind'),
]
