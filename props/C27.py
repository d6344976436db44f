"""C27: local surface geometry: neighbor shells of an atom, and a unit normal."""
import itertools
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["the triangulation is given (fixed complexes); the normal iteration is followed for the stated number of steps"]

# a strip of tetrahedra sharing faces, and a pair of blobs joined at one corner
STRIP = [(0, 1, 2, 3), (1, 2, 3, 4), (2, 3, 4, 5), (3, 4, 5, 6), (4, 5, 6, 7), (5, 6, 7, 8)]
BLOBS = [(0, 1, 2, 3), (1, 2, 3, 4), (8, 4, 9, 5), (5, 9, 8, 6), (7, 10, 6, 8)]
FAN = [(3, 0, 1, 2), (3, 1, 2, 4), (3, 2, 4, 5), (6, 3, 5, 4), (3, 6, 7, 5)]


class Tri:
    def __init__(self, s):
        self.simplices = s


def shells(S, tets, steps=(0, 1, 2, 3)):
    """atoms reachable over at most N edges of the chosen tetrahedra, without the atom itself"""
    from czone.surface.adsorbate import get_nearest_neighbors
    import numpy as np
    tets = list(tets)
    only = S.choice('surface only', ('default', True, False))
    surf = [S.choice(f'surface{i}', (True, False)) for i in range(len(tets))]
    inner = S.choice('inner', (True, False)) if only is False else True
    whole = [s or inner for s in surf]       # the shape contains its surface
    d = {'tri': Tri(np.array([list(t) for t in tets])), 'surface_tris': np.array(surf),
         'a_tris': np.array([i for i, w in enumerate(whole) if w], dtype=int)}
    used = [t for t, a in zip(tets, whole if only is False else surf) if a]
    S.assume(len(used) > 0)
    atoms = sorted({v for t in used for v in t})
    target = S.choice('target', tuple(atoms))
    N = S.choice('N', ('default',) + tuple(steps) if only == 'default' else tuple(steps))
    kw = {}
    if only != 'default':
        kw['surface_only'] = only
    if N != 'default':
        kw['N_shells'] = N
    got = [int(i) for i in flat(get_nearest_neighbors(target, d, unrelated=1, **kw))]
    near = {target}
    for _ in range(3 if N == 'default' else N):
        near |= {v for t in used if near & set(t) for v in t}
    S.check('neighbors are the atoms within N bonds', sorted(set(got)) == sorted(near - {target}))
    S.check('each neighbor is listed once', len(set(got)) == len(got))


def graph(S):
    """bond matrix of any tetrahedra: symmetric, one entry per edge, nothing on the diagonal"""
    from czone.surface.adsorbate import sparse_matrix_from_tri
    n = 6
    t = [[S.fork_int(f't{i}{j}', 0, n - 1) if i == 0 else (0, 2, 4, 5)[j] for j in range(4)] for i in range(2)]
    S.assume(len(set(t[0])) == 4)
    import numpy as np
    m = rows(sparse_matrix_from_tri(np.array(t)).toarray())
    k = max(max(x) for x in t) + 1
    S.check('size', S.And(len(m) == k, *[len(r) == k for r in m]))
    for i in range(k):
        for j in range(k):
            S.check('bonds', (m[i][j] != 0) == (i != j and any(i in x and j in x for x in t)))


def normal(S, n=2, steps=3, args=('default', 'given')):
    """whatever the points, the approximate normal is a unit vector"""
    from czone.surface.adsorbate import find_approximate_normal
    S.purify()
    P = [[S.real('a', -1, 1), S.real('b', -1, 1) if n != 2 else 0.2, 0.3], [0.6, -0.3, 0.2], [-0.2, 0.1, 0.7]][:n]
    S.assume(S.norm2(P[0]) <= 1)
    kw = {}
    if S.choice('args', args) == 'given':
        kw = dict(decay=0.95, margin=-0.1)
    w = flat(find_approximate_normal(S.arr(P), seed=S.choice('seed', (3,)), max_steps=steps, **kw))
    S.check('a vector in space', len(w) == 3)
    S.eq('the normal is a unit vector', S.norm2(w), 1)
    if n == 1 and not kw:
        S.check('the normal points away from a single neighbor', S.dot(w, P[0]) < 1e-6)


def fixed_points(S):
    """points on one side of a plane: the normal is a unit vector on the other side of all of them"""
    from czone.surface.adsorbate import find_approximate_normal
    S.fix_draws('seq' + str(S.choice('salt', (0, 1, 2))), kinds=('int',))
    k = S.choice('set', tuple(range(4)))
    P = ([[0, 0, -1], [0.9, 0, -0.4], [-0.9, 0.1, -0.4], [0, 0.9, -0.4], [0.1, -0.9, -0.4]],
         [[-1, 0, 0], [-0.5, 0.8, 0], [-0.5, -0.8, 0.1]],
         [[0.6, 0.6, 0.5], [0.9, -0.1, 0.2], [0, 0.9, 0.1], [0, 0, 0.9]],
         [[0.5, 0.2, 0.3]])[k]
    w = flat(find_approximate_normal(S.arr(P)))
    S.eq('the normal is a unit vector', S.norm2(w), 1)
    seed = S.choice('seed', (0, 7))
    one, two = (flat(find_approximate_normal(S.arr(P), seed=seed)) for _ in range(2))
    S.eq('the same seed gives the same normal', one, two)
    for p in P:
        S.check('points lie behind the normal', S.dot(w, p) < 0.05)


CASES = [
    Case('strip', shells, 'strip of 4 tetrahedra, every surface subset, target and 0..3 shells', kwargs=dict(tets=STRIP[:4], steps=(0, 1, 2))),
    Case('blobs', shells, 'two groups joined at corners, 5 tetrahedra', kwargs=dict(tets=BLOBS, steps=(1, 2))),
    Case('graph', graph, 'any tetrahedron on 6 atoms beside a fixed one'),
    Case('normal-1', normal, 'one point, 4 steps', kwargs=dict(n=1, steps=4)),
    Case('normal-2', normal, 'two points, 2 steps', kwargs=dict(n=2, steps=2, args=('default',))),
    Case('sets', fixed_points, '4 fixed point sets, 3 sequences'),
    Case('fan', shells, 'fan of 5 tetrahedra', kwargs=dict(tets=FAN, steps=(0, 1, 2, 3)), thorough_only=True),
    Case('strip-long', shells, 'strip of 6', kwargs=dict(tets=STRIP), thorough_only=True),
    Case('normal-3', normal, 'three points, 3 steps', kwargs=dict(n=3, steps=3), thorough_only=True),
]
