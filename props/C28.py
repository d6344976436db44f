"""C28: alpha shapes: circumradii, the outer tetrahedra and the atoms on their exposed faces; hulls as planes."""
import itertools
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import points_array

ASSUMPTIONS = ["the triangulation itself (Qhull) is taken as given; the jitter added to positions is one fixed sample per case; "
               "probe radii within 0.01 of a circumradius are not claimed"]

# ---------------------------------------------------------------- circumradii


def radii(S, corners=(0, 3), shift=True):
    """r is the distance from every corner to one common point: 2 (p_i-p_0).c = |p_i-p_0|^2, r = |c|"""
    S.purify()
    from czone.surface.alpha_shape import tetrahedron_circumradii
    P = [[0, 0, 0], [2, 0, 0.5], [0.25, 3, 0], [1, 0.5, 2.5]]
    f = S.choice('free', corners)
    P[f] = flat(S.vec('q', lo=-5, hi=5))
    S.assume(S.det3([S.sub(p, P[0]) for p in P[1:]]) * S.choice('side', (1, -1)) > 0.05)
    if shift:
        o = flat(S.vec('o', lo=-20, hi=20))
        P = [S.addv(o, p) for p in P]
    n, tets = 2, [P, [[1, 1, 1], [2, 1, 1], [1, 4, 1], [1, 1, 3]]]
    if S.choice('second', (False, True)):
        tets = tets[::-1]
    got = flat(tetrahedron_circumradii(S.arr(tets)))
    S.check('one radius per tetrahedron', len(got) == n)
    for P, r in zip(tets, got):
        M = [S.sub(p, P[0]) for p in P[1:]]
        b = [S.norm2(m) for m in M]
        d = S.det3(M)
        # Cramer's rule for 2 M c = b
        num = [S.det3([[b[i] if j == k else M[i][j] for j in range(3)] for i in range(3)]) for k in range(3)]
        S.check('radius is not negative', r >= 0)
        c = [x / (2 * d) for x in num]
        S.eq('radius is the distance from the corners to the circumcenter', r * r, S.norm2(c))


# ---------------------------------------------------------------- complexes

def neighbors_of(tets):
    """scipy's convention: neighbor k of a tetrahedron lies across the face opposite to its corner k"""
    face = {}
    for i, t in enumerate(tets):
        for k in range(4):
            face.setdefault(frozenset(t) - {t[k]}, []).append((i, k))
    out = [[-1] * 4 for _ in tets]
    for f, own in face.items():
        assert len(own) <= 2
        if len(own) == 2:
            (i, k), (j, l) = own
            out[i][k], out[j][l] = j, i
    return out


def circum(P):
    import numpy as np
    P = np.array(P, dtype=float)
    M = 2 * (P[1:] - P[0])
    c = np.linalg.solve(M, np.sum((P[1:] - P[0]) ** 2, axis=1))
    return float(np.linalg.norm(c))


def star():
    """a regular tetrahedron with a tetrahedron of free height on each face"""
    base = [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)]
    return base, [(0, 1, 2, 3), (5, 1, 2, 3), (0, 4, 2, 3), (0, 1, 6, 3), (0, 1, 2, 7)], \
        [(4, (0, 2, 3)), (5, (1, 2, 3)), (6, (0, 1, 3)), (7, (0, 1, 2))]


def surface_oracle(S, tets, nbr, kept):
    """(surface tetrahedra, exposed faces of them) as boolean formulas"""
    n = len(tets)
    outside = [any(x == -1 for x in nb) for nb in nbr]
    gone = [S.And(S.Not(kept[i]), outside[i]) for i in range(n)]
    surf = [S.And(kept[i], S.Or(outside[i], *[gone[j] for j in nbr[i] if j >= 0])) for i in range(n)]
    exposed = [[True if j == -1 else gone[j] for j in nbr[i]] for i in range(n)]
    a_tris = [S.Not(S.And(outside[i], S.Not(kept[i]))) for i in range(n)]
    return surf, exposed, a_tris


def verify(S, npts, tets, nbr, kept, ind, d):
    surf, exposed, a_tris = surface_oracle(S, tets, nbr, kept)
    got = [int(i) for i in ind]
    S.check('each atom is listed once', len(set(got)) == len(got))
    for v in range(npts):
        on = []
        for i, t in enumerate(tets):
            if v in t:
                k = list(t).index(v)
                on.append(S.And(surf[i], S.Or(*[exposed[i][j] for j in range(4) if j != k])))
        S.check('listed atoms are the corners of exposed faces', S.Iff(S.Or(*on), v in got))
    if d is None:
        return
    st = flat(d['surface_tris'])
    S.check('surface tetrahedra', S.And(len(st) == len(tets), *[S.Iff(a, b) for a, b in zip(st, surf)]))
    at = [int(i) for i in flat(d['a_tris'])]
    S.check('tetrahedra of the whole shape', S.And(*[S.Iff(i in at, a) for i, a in enumerate(a_tris)]))
    S.check('the triangulation is handed back', len(rows(d['tri'].simplices)) == len(tets))


def run(S, P, R, how, N=2, full=None):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    full = S.choice('dict', (True, False)) if full is None else full
    if how == 'plain':
        out = alpha_shape_alg_3D(P, R, return_alpha_shape=full)
    else:
        out = alpha_shape_alg_3D_with_sampling(P, R, N, seed=5, return_alpha_shape=full)
    return out if full else (out, None)


def heights(S, how='plain', probes=(1.7, 2.2), free=3):
    """star of five tetrahedra: every subset of them can be too large for the probe"""
    S.fix_draws('h')
    base, tets, apex = star()
    nbr = neighbors_of(tets)
    pts = [list(map(float, p)) for p in base]
    R = S.choice('R', probes)
    kept = [None] * 5
    kept[0] = R > 1.7320508075688772
    for a, f in apex:
        t = [i for i, x in enumerate(tets) if a in x][0]
        m = [sum(base[i][k] for i in f) for k in range(3)]          # outward, face center = m / 3
        # the circumcenter is on the axis: r = (h^2 + rho^2) / (2 h) with rho^2 = 8/3, so r <= R between two heights
        w = (R * R - 8 / 3) ** 0.5
        if a >= 4 + free:
            g, kept[t] = 0.875, True
        else:
            g = S.real(f'g{a}', 0, 5)                               # height / sqrt(3)
            S.assume(g > 0.2)
            kept[t] = S.choice(f'kept{a}', (True, False))
            lo, hi = (R - w) / 3 ** 0.5, (R + w) / 3 ** 0.5
            S.assume(S.And(g > lo + 0.02, g < hi - 0.02) if kept[t] else S.Or(g < lo - 0.02, g > hi + 0.02))
        pts.append([m[k] * (g + Fraction(1, 3)) for k in range(3)])
    S.hook_delaunay(simplices=[list(t) for t in tets], neighbors=nbr)
    ind, d = run(S, S.arr([[float(x) if isinstance(x, Fraction) else x for x in p] for p in pts]), R, how, full=True)
    verify(S, len(pts), tets, nbr, kept, ind, d)


def cloud(seed, n):
    import random
    r = random.Random(seed)
    return [[r.uniform(0, 6), r.uniform(0, 5), r.uniform(0, 4)] for _ in range(n)]


SHAPES = {
    'small': cloud(8, 7), 'cloud': cloud(3, 12), 'cloud2': cloud(11, 14), 'big': cloud(5, 22),
    'cage': [[3 * x for x in p] for p in ((1, .1, 0), (-1, 0, .1), (0, 1, .1), (.1, -1, 0), (0, .1, 1), (.1, 0, -1), (.7, .7, .6), (-.7, .6, .7), (.6, -.7, .7),
             (-.6, -.7, .7), (.7, .6, -.7), (-.7, .7, -.6), (.6, -.7, -.7), (-.7, -.7, -.6))],
}


def cluster(S, shape, how='plain', N=2, lo=0.5, hi=20):
    """the triangulation of a fixed set of points for every probe radius"""
    S.fix_draws(shape)
    import numpy as np
    from scipy.spatial import Delaunay
    P = SHAPES[shape]
    tri = Delaunay(np.array(P))
    tets, nbr = tri.simplices.tolist(), tri.neighbors.tolist()
    R = S.real('R', lo, hi)
    rad = [circum([P[i] for i in t]) for t in tets]
    for r in rad:
        # flat tetrahedra react to the jitter more strongly
        S.assume(S.abs(R - r) > 0.01 * max(1, r * r / 4))
    S.hook_delaunay(simplices=tets, neighbors=nbr)
    ind, d = run(S, S.arr(P), R, how, N)
    verify(S, len(P), tets, nbr, [R > r for r in rad], ind, d)


class Given:
    """a random source whose k-th array of normal draws is given"""

    def __init__(self, S, draws):
        self.S, self.draws, self.k = S, draws, 0

    def standard_normal(self, size=None, **kw):
        a = self.draws[self.k % len(self.draws)]
        self.k += 1
        return self.S.arr(a)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def samples(S, shape='cloud', N=3, scales=(0.5, 1.75)):
    """a tetrahedron belongs to the shape when it passes the probe in at least one sample: sample k moves every
    point p by std * draw_k, here to s_k p, so its circumradii are s_k times the original ones"""
    from czone.surface.alpha_shape import alpha_shape_alg_3D_with_sampling
    import numpy as np
    from scipy.spatial import Delaunay
    P = SHAPES[shape]
    tri = Delaunay(np.array(P))
    tets, nbr = tri.simplices.tolist(), tri.neighbors.tolist()
    std = S.choice('std', (0.5, 2.0))
    s = [S.choice(f's{k}', scales) for k in range(N)]
    R = S.real('R', 0.5, 20)
    rad = [circum([P[i] for i in t]) for t in tets]
    for r in rad:
        for f in set(s):
            S.assume(S.abs(R - f * r) > 1e-6 * max(1, r))
    S.hook_delaunay(simplices=tets, neighbors=nbr)
    rng = Given(S, [[[(f - 1) * x / std for x in p] for p in P] for f in s])
    ind, d = alpha_shape_alg_3D_with_sampling(S.arr(P), R, N, std=std, rng=rng, return_alpha_shape=True)
    verify(S, len(P), tets, nbr, [R > min(s) * r for r in rad], ind, d)


# ---------------------------------------------------------------- hulls as planes

HULLS = {
    'box': [[x, y, z] for x in (-1, 2) for y in (0, 1.5) for z in (-2, 1)],
    'octahedron': [[2, 0, 0], [-2, 0, 0], [0, 2, 0], [0, -2, 0], [0, 0, 2], [0, 0, -2]],
    'sliver': [[x, y, z] for x in (0, 4) for y in (0, 3) for z in (0, 0.0015)],
    'speck': [[0, 0, 0], [0.004, 0, 0], [0, 0.003, 0], [0.001, 0.001, 0.002]],
    'pyramid': [[-1, -1, 0], [1, -1, 0], [1, 1, 0], [-1, 1, 0], [0, 0.3, 2], [0, 0, 0.5]],
}


def planes_of(S, P):
    from czone.volume.algebraic import convex_hull_to_planes
    return convex_hull_to_planes(S.arr(P))


def fixed_hull(S):
    shape = S.choice('shape', tuple(HULLS))
    P = HULLS[shape]
    pl = planes_of(S, P)
    small = shape in ('sliver', 'speck')
    x = flat(S.vec('x', lo=-5, hi=5))
    import numpy as np
    from scipy.spatial import ConvexHull
    eq = ConvexHull(np.array(P, dtype=float)).equations.tolist()
    h = [S.dot(e[:3], x) + e[3] for e in eq]
    e = 1e-5 if small else 1e-3
    inside = S.And(*[v < 0 for v in h])
    S.assume(S.And(*[S.Or(v < -e, v > e) for v in h]))
    both = S.And(*[flat(p.checkIfInterior(S.arr([x])))[0] for p in pl])
    S.check('the planes enclose exactly the hull', S.Iff(inside, both))
    for p in pl:
        for q in P:
            S.check('every point lies behind every plane', S.dot(flat(p.normal), S.sub(q, flat(p.point))) <= 1e-6)


def free_tet(S, free=(3,)):
    P = [[0, 0, 0], [2, 0, 0], [0, 3, 0.5], [0.5, 0.5, 2]]
    o = flat(S.vec('o', lo=-10, hi=10))
    for i in free:
        P[i] = flat(S.vec(f'p{i}', lo=-4, hi=4))
    P = [S.addv(o, p) for p in P]
    d = S.det3([S.sub(p, P[0]) for p in P[1:]])
    S.assume(S.abs(d) > 0.5)
    pl = planes_of(S, P)
    S.check('one plane per facet', len(pl) == 4)
    # each facet's plane: its three corners on it, the fourth strictly behind
    for f in itertools.combinations(range(4), 3):
        k = 6 - sum(f)
        ok = []
        for p in pl:
            n, q = flat(p.normal), flat(p.point)
            hs = [S.dot(n, S.sub(P[i], q)) for i in range(4)]
            ok.append(S.And(*[S.And(hs[i] <= 1e-9, hs[i] >= -1e-9) for i in f], hs[k] < 0))
        S.check('each facet has its plane, facing outwards', S.Or(*ok))


CASES = [
    Case('radii', radii, '2 tetrahedra, one with a free corner'),
    Case('star', heights, 'star of 5 tetrahedra with 3 free heights, 2 probe radii'),
    Case('star-sampling', heights, 'the same with 2 jitter samples, 1 probe radius', kwargs=dict(how='sampling', probes=(2.2,))),
    Case('cloud', cluster, '12 points, any probe radius', kwargs=dict(shape='cloud')),
    Case('cloud-sampling', cluster, '14 points, any probe radius, 2 jitter samples', kwargs=dict(shape='cloud2', how='sampling')),
    Case('samples', samples, '7 points, 3 samples that scale the points by either of 2 factors, any probe radius',
         kwargs=dict(shape='small')),
    Case('cage', cluster, '14 points around a void, any probe radius', kwargs=dict(shape='cage')),
    Case('hull', fixed_hull, '5 polyhedra, thin and small ones among them, any test point'),
    Case('tetrahedron', free_tet, 'one free corner, any place'),
    Case('samples-3', samples, '12 points, 3 scale factors', kwargs=dict(scales=(0.5, 1, 1.75)), thorough_only=True),
    Case('radii-free', radii, 'any corner free', kwargs=dict(corners=(0, 1, 2, 3)), thorough_only=True),
    Case('star-free', heights, 'star with 4 free heights', kwargs=dict(free=4, probes=(1.7, 1.9, 2.5)), thorough_only=True),
    Case('big', cluster, '22 points', kwargs=dict(shape='big'), thorough_only=True),
    Case('big-sampling', cluster, '22 points', kwargs=dict(shape='big', how='sampling', N=5), thorough_only=True),
    Case('tetrahedron-2', free_tet, 'two free corners', kwargs=dict(free=(2, 3)), thorough_only=True),
]
