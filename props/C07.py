"""C07: what each transform does to points."""
from engine.harness import Case, flat, rows
from .common import mv, mat, apply, isometry

ASSUMPTIONS = ["real arithmetic"]


def translation(S):
    from czone.transform import Translation
    t, P = S.vec('t'), S.array('p', (2, 3))
    before = rows(P)
    T = Translation(shift=t)
    out = rows(T.applyTransformation(P))
    S.check('one image per point', len(out) == 2)
    for p, x in zip(rows(P), out):
        S.eq('translation adds the shift', x, S.addv(p, t))
    B = S.array('B', (3, 3))
    S.eq('translation leaves bases alone', T.applyTransformation_bases(B), B)
    S.eq('points are not modified', P, before)


def matrix(S, origin=True):
    from czone.transform import MatrixTransform
    M, P = S.array('M', (3, 3), -5, 5), S.array('p', (2, 3))
    o = S.vec('o') if origin else None
    T = MatrixTransform(matrix=M, origin=o)
    out = rows(T.applyTransformation(P))
    S.check('one image per point', len(out) == 2)
    oo = flat(o) if origin else [0, 0, 0]
    for p, x in zip(rows(P), out):
        S.eq('matrix acts about its origin', x, S.addv(mv(mat(M), S.sub(p, oo)), oo))
    B = S.array('B', (3, 3))
    out = mat(T.applyTransformation_bases(B))
    for j in range(3):
        S.eq('each basis vector is multiplied by the matrix', [r[j] for r in out], mv(mat(M), [r[j] for r in mat(B)]))
    if origin:
        S.eq('the origin is a fixed point', rows(T.applyTransformation(S.arr([oo])))[0], oo)


def single(S, kinds):
    """each isometry acts by its defining formula and preserves distances"""
    T, M, t = isometry(S, kinds)
    P = S.array('p', (2, 3), -20, 20)
    out = rows(T.applyTransformation(P))
    S.check('one image per point', len(out) == 2)
    for p, x in zip(rows(P), out):
        S.eq('image of a point', x, apply(S, M, t, p))
    B = S.array('B', (3, 3), -10, 10)
    ob = mat(T.applyTransformation_bases(B))
    for j in range(3):
        S.eq('image of a basis vector', [r[j] for r in ob], mv(M, [r[j] for r in mat(B)]))


def reflection(S):
    from czone.transform import Reflection
    from czone.volume.algebraic import Plane
    n = S.vec('n', lo=-5, hi=5)
    S.assume(S.norm2(n) > 0.01)
    q = S.vec('q', lo=-10, hi=10)
    p = S.array('p', (1, 3), -20, 20)
    T = Reflection(Plane(normal=n, point=q))
    x = rows(T.applyTransformation(p))[0]
    p0 = rows(p)[0]
    n2 = S.norm2(n)
    S.eq('mirror point lies along the normal', S.crossp(n, S.sub(x, p0)), [0, 0, 0], tol=1e-5)
    S.eq('midpoint lies on the mirror', S.dot(n, S.sub(S.addv(x, p0), S.scale(2, flat(q)))), 0, tol=1e-5)


def involution(S):
    T, M, t = isometry(S, ('inversion', 'reflection'))
    P = S.array('p', (2, 3), -20, 20)
    S.eq('applying twice restores the points', T.applyTransformation(T.applyTransformation(P)), P)


def sequence(S, n=2):
    from czone.transform import MultiTransform
    Ts, p = [], S.array('p', (1, 3), -10, 10)
    B = S.array('B', (3, 3), -5, 5)
    x, b = rows(p)[0], mat(B)
    for i in range(n):
        T, M, t = isometry(S, ('translation', 'rotation', 'inversion'), name=f'T{i}', rot='axis', origin=i == 0)
        Ts.append(T)
        x = apply(S, M, t, x)
        b = [list(c) for c in zip(*[mv(M, list(col)) for col in zip(*b)])]
    mode = S.choice('build', ('list', 'incremental', 'nested', 'continued', 'tuple')[:5 if n == 2 else 3])
    if mode == 'list':
        MT = MultiTransform(Ts)
    elif mode == 'incremental':
        MT = MultiTransform()
        for T in Ts:
            MT.add_transform(T)
    elif mode == 'continued':
        MT = MultiTransform(Ts[:1])
        MT.add_transform(Ts[1:])
    elif mode == 'tuple':
        MT = MultiTransform(tuple(Ts))
    else:
        MT = MultiTransform([MultiTransform(Ts[:1]), MultiTransform(Ts[1:])])
    S.eq('a sequence applies its members in order', rows(MT.applyTransformation(p))[0], x)
    S.eq('a sequence transforms bases in order', MT.applyTransformation_bases(B), b)
    S.check('a sequence of joint transforms is joint', bool(MT.locked) is True and bool(MT.basis_only) is False)


def repeated(S):
    """one transform object used several times in a sequence acts that many times, on points, axes and surfaces"""
    from czone.transform import MultiTransform
    from czone.volume.algebraic import Sphere, Plane
    Ts = []
    for i in range(2):
        Ts.append(isometry(S, ('translation', 'rotation', 'inversion') if i == 0 else ('translation',), name=f'T{i}', rot='axis', origin=i == 0))
    order = S.choice('order', ((0, 0), (0, 1, 0), (1, 0, 1)))
    p = flat(S.vec('p', lo=-10, hi=10))
    B = S.array('B', (3, 3), -5, 5)
    x, b = p, mat(B)
    for k in order:
        T, M, t = Ts[k]
        x = apply(S, M, t, x)
        b = [list(c) for c in zip(*[mv(M, list(col)) for col in zip(*b)])]
    if S.choice('build', ('list', 'incremental')) == 'list':
        MT = MultiTransform([Ts[k][0] for k in order])
    else:
        MT = MultiTransform()
        for k in order:
            MT.add_transform(Ts[k][0])
    S.eq('a sequence applies its members in order', rows(MT.applyTransformation(S.arr([p])))[0], x)
    S.eq('a sequence transforms bases in order', MT.applyTransformation_bases(B), b)
    sp = MT.applyTransformation_alg(Sphere(radius=1.5, center=S.arr(p)))
    S.eq('a sequence moves surfaces in order', flat(sp.center), x)
    S.eq('a sequence keeps radii', sp.radius, 1.5)
    n = [2, -1, 2]
    pl = MT.applyTransformation_alg(Plane(normal=list(n), point=S.arr(p)))
    for k in order:
        n = mv(Ts[k][1], n)
    S.eq('a sequence turns surfaces in order', [3 * y for y in flat(pl.normal)], n)
    S.eq('a sequence moves surfaces in order', S.dot(n, S.sub(flat(pl.point), x)), 0)


def another_mirror(S):
    """a reflection whose plane is replaced mirrors about the new plane"""
    from czone.transform import Reflection
    from czone.volume.algebraic import Plane
    T = Reflection(Plane(normal=[1, 0, 0], point=S.vec('q0', lo=-10, hi=10)))
    P = S.array('p', (2, 3), -20, 20)
    rows(T.applyTransformation(P))
    n = S.choice('n', ((0, 3, 4), (2, -1, 2), (-1, 0, 0)))
    q = S.vec('q', lo=-10, hi=10)
    T.plane = Plane(normal=list(n), point=q)
    n2 = sum(k * k for k in n)
    for p, x in zip(rows(P), rows(T.applyTransformation(P))):
        h = S.dot(n, S.sub(p, q))
        S.eq('image about the new mirror', [n2 * (a - b) for a, b in zip(x, p)], [-2 * h * k for k in n])


def another_matrix(S):
    """matrices, origins and shifts replaced after construction are the ones used"""
    from czone.transform import MatrixTransform, Translation, Rotation
    kind = S.choice('kind', ('matrix', 'rotation', 'origin', 'shift'))
    p = S.array('p', (1, 3), -20, 20)
    x = rows(p)[0]
    o = S.vec('o', lo=-10, hi=10)
    if kind == 'shift':
        T = Translation(shift=S.vec('t0'))
        rows(T.applyTransformation(p))
        T.shift = S.vec('t')
        want = S.addv(x, flat(T.shift))
        S.eq('the new shift is kept', T.shift, S.vec('t'))
    else:
        R = S.z_rotation('R', axis=S.choice('axis', (0, 1, 2)))
        if kind == 'rotation':
            T = Rotation(matrix=S.arr([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), origin=o)
        elif kind == 'origin':
            T = Rotation(matrix=R, origin=S.vec('o0', lo=-10, hi=10))
        else:
            R = S.array('M', (3, 3), -5, 5)
            T = MatrixTransform(matrix=S.arr([[1, 0, 0], [0, 2, 0], [0, 0, 1]]), origin=o)
        rows(T.applyTransformation(p))
        if kind == 'origin':
            T.origin = o
        else:
            T.matrix = R
        want = S.addv(mv(mat(R), S.sub(x, o)), flat(o))
    S.eq('image after the change', rows(T.applyTransformation(p))[0], want)


def flags(S):
    """joint / bases-only flags of uniform sequences follow their members"""
    from czone.transform import MultiTransform, Translation, Rotation, Inversion
    lk, bo = S.choice('locked', (True, False)), S.choice('basis_only', (True, False))
    t = S.vec('t')
    R = S.z_rotation('R')
    ts = [Translation(t, locked=lk, basis_only=bo), Rotation(R, locked=lk, basis_only=bo),
          Inversion(locked=lk, basis_only=bo)]
    MT = MultiTransform(ts[:S.choice('n', (1, 2, 3))])
    for T in ts + [MT]:
        S.check('joint flag', bool(T.locked) == lk)
        S.check('bases-only flag', bool(T.basis_only) == bo)


CASES = [
    Case('translation', translation, '2 points and shift in [-50,50]^3'),
    Case('matrix', matrix, 'any 3x3 matrix with entries in [-5,5], any origin'),
    Case('matrix-no-origin', matrix, 'any 3x3 matrix', kwargs=dict(origin=False)),
    Case('rotation', single, 'any rotation (angle != pi) about any origin', kwargs=dict(kinds=('rotation',))),
    Case('inversion', single, 'any origin', kwargs=dict(kinds=('inversion',))),
    Case('reflection', single, '4 mirror normals, any mirror point', kwargs=dict(kinds=('reflection',))),
    Case('reflection-any-normal', reflection, 'any mirror normal in [-5,5]^3, any point'),
    Case('involution', involution, 'inversion and reflection'),
    Case('sequence', sequence, 'all ordered pairs of translation, rotation about x/y/z, inversion; 3 ways of building the sequence'),
    Case('sequence-3', sequence, 'all ordered triples', kwargs=dict(n=3), thorough_only=True),
    Case('repeated', repeated, 'sequences of 2 or 3 steps that use a transform twice, on points, axes, spheres and planes'),
    Case('another-mirror', another_mirror, 'plane of a reflection replaced by any of 3 normals through any point'),
    Case('another-matrix', another_matrix, 'matrix, origin or shift replaced'),
    Case('flags', flags, 'uniform flags, sequences of 1 to 3'),
]
