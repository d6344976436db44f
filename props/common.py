"""shared builders for property cases"""
from fractions import Fraction

from engine.harness import flat, rows

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]

# concrete rational rotations (proper, orthogonal)
R345 = [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]]


FIXED = ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
         [[1, 0, 0], [0, Fraction(3, 5), Fraction(-4, 5)], [0, Fraction(4, 5), Fraction(3, 5)]],
         [[Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)], [Fraction(2, 3), Fraction(2, 3), Fraction(-1, 3)],
          [Fraction(-1, 3), Fraction(2, 3), Fraction(2, 3)]])


def mv(M, v):
    return [sum((m * x for m, x in zip(r, v)), 0) for r in M]


def mat(a):
    return [list(r) for r in rows(a)]


def isometry(S, kinds=('translation', 'rotation', 'inversion', 'reflection'), name='T', rot='quat', origin=True,
             normals=((1, 0, 0), (0, 3, 4), (2, -1, 2), (1, 1, 1))):
    """(czone transform, [M], [t]) with x -> M x + t an isometry; the formula is independent of czone"""
    from czone.transform import Translation, Rotation, Inversion, Reflection
    from czone.volume.algebraic import Plane
    kind = S.choice(name + '.kind', kinds)
    if kind == 'translation':
        t = S.vec(name + '.t')
        return Translation(shift=t), I3, flat(t)
    o = None
    if origin and kind != 'reflection':
        o = S.vec(name + '.o', lo=-10, hi=10) if S.choice(name + '.origin', (True, False)) else None
    if kind == 'rotation':
        R = S.quat_rotation(name + '.R') if rot == 'quat' else S.arr(S.choice(name + '.R', FIXED)) if rot == 'fixed' \
            else S.z_rotation(name + '.R', axis=S.choice(name + '.axis', (0, 1, 2)))
        M = mat(R)
        T = Rotation(matrix=R, origin=o)
    elif kind == 'inversion':
        M = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]
        T = Inversion(origin=o)
    else:
        n = list(S.choice(name + '.n', normals))
        q = S.vec(name + '.q', lo=-10, hi=10)
        T = Reflection(Plane(normal=n, point=q))
        n2 = S.norm2(n)
        from fractions import Fraction
        f = (lambda a: Fraction(a)) if S.symbolic else float
        M = [[f(1 if i == j else 0) - f(2 * n[i] * n[j]) / n2 for j in range(3)] for i in range(3)]
        o = q
    if o is None:
        return T, M, [0, 0, 0]
    o = flat(o)
    return T, M, S.sub(o, mv(M, o))


def apply(S, M, t, x):
    return S.addv(mv(M, flat(x)), t)


def points_array(S, pts):
    import numpy as np
    return S.arr([list(p) for p in pts]) if len(pts) else S.arr(np.zeros((0, 3)))


def point_generator(S, pts, species):
    """a user-defined generator that supplies a given list of atoms"""
    from czone.generator import BaseGenerator

    class Points(BaseGenerator):
        def __init__(self):
            self.pts, self.sp, self.boxes, self.moves = pts, species, [], []

        def supply_atoms(self, bbox):
            self.boxes.append(bbox)
            return points_array(S, self.pts), S.arr(list(self.sp))

        def transform(self, transformation):
            super().transform(transformation)
            self.moves.append(transformation)

        def __deepcopy__(self, memo):
            return self
    return Points()


class Ball:
    """sphere-bounded volume with its own atoms; io(p) from the formula alone"""

    def __init__(self, S, i, natoms, priority=0, lo=-10, hi=10):
        from czone.volume import Volume
        from czone.volume.algebraic import Sphere
        self.S = S
        self.c = S.vec(f'o{i}.c', lo=lo, hi=hi)
        self.r = S.real(f'o{i}.r', 0, 10)
        S.assume(self.r > 0.01)
        self.surf = Sphere(radius=self.r, center=self.c)
        self._atoms(i, natoms, lo, hi)
        self.vol = Volume(alg_objects=[self.surf], generator=self.gen, priority=priority)

    def _atoms(self, i, natoms, lo, hi):
        S = self.S
        # natoms None: a region without a generator
        self.pts = [flat(S.vec(f'o{i}.a{k}', lo=lo, hi=hi)) for k in range(natoms or 0)]
        self.tags = [10 * (i + 1) + k for k in range(natoms or 0)]
        self.gen = None if natoms is None else point_generator(S, self.pts, self.tags)

    def inside(self, p):
        return self.S.norm2(self.S.sub(p, flat(self.c))) < self.r * self.r

    def clear(self, p, e):
        d2 = self.S.norm2(self.S.sub(p, flat(self.c)))
        return self.S.Or(d2 < self.r * self.r, d2 > (self.r + e) * (self.r + e))

    def moved(self, t):
        self.c = self.S.arr(self.S.addv(flat(self.c), t))


class Slab(Ball):
    """volume between two parallel planes, position and thickness free"""
    NORMALS = ((1, 0, 0), (0, 1, 0), (0, 3, 4), (2, -1, 2))

    def __init__(self, S, i, natoms, priority=0, lo=-10, hi=10):
        from czone.volume import Volume
        from czone.volume.algebraic import Plane
        self.S = S
        self.n = self.NORMALS[i % 4]
        self.c = S.vec(f'o{i}.c', lo=lo, hi=hi)
        self.w = S.real(f'o{i}.w', 0, 10)
        S.assume(self.w > 0.01)
        n2 = sum(x * x for x in self.n)
        top = S.arr(S.addv(flat(self.c), [self.w * x for x in self.n]))
        self.ww = self.w * n2
        self.surf = [Plane(normal=list(self.n), point=top), Plane(normal=[-x for x in self.n], point=self.c)]
        self._atoms(i, natoms, lo, hi)
        self.vol = Volume(alg_objects=self.surf, generator=self.gen, priority=priority)

    def inside(self, p):
        h = self.S.dot(self.n, self.S.sub(p, flat(self.c)))
        return self.S.And(h > 0, h < self.ww)

    def clear(self, p, e):
        S = self.S
        h = S.dot(self.n, S.sub(p, flat(self.c)))
        e = 5 * e
        return S.And(S.Or(h > e, h < -e), S.Or(h - self.ww > e, h - self.ww < -e))


def outside_shell(S, balls, pts, e=1e-3):
    """keep every point away from every boundary"""
    for b in balls:
        for p in pts:
            S.assume(b.clear(p, e))


def kept_exactly(S, label, species, atoms, expected):
    """expected: list of (tag, point, condition); result holds exactly the atoms whose condition holds"""
    sp, at = flat(species), rows(atoms)
    S.check(label + ': positions and species pair up', len(sp) == len(at))
    seen = {}
    for k, t in enumerate(sp):
        t = int(t)
        seen.setdefault(t, []).append(k)
    S.check(label + ': nothing foreign', set(seen) <= {t for t, _, _ in expected})
    S.check(label + ': no atom twice', all(len(v) == 1 for v in seen.values()))
    for t, p, cond in expected:
        if t in seen:
            S.check(label + ': kept atoms belong', cond)
            S.eq(label + ': kept atoms stay in place with their species', at[seen[t][0]], p)
        else:
            S.check(label + ': no atom is lost', S.Not(cond))
