"""C21: surface-to-surface alignment."""
from engine.harness import Case, flat, rows
from .common import mv, mat

ASSUMPTIONS = ["real arithmetic"]
PAIRS = [((0, 0, 1), (0, 0, 1)), ((0, 0, 1), (0, 0, -1)), ((0, 0, 1), (1, 0, 0)), ((2, -1, 2), (0, 3, 4)),
         ((1, 0, 0), (2, 2, 1)), ((0, -3, 4), (0, 3, -4)), ((0, 3, 4), (0, 3, 4)),
         # almost facing or facing away: 0.01 to 1e-4 from it
         ((0, 0, 1), (400, 0, 39999)), ((0, 1, 0), (0, -99999999, 20000)), ((1, 0, 0), (99999999, 20000, 0))]


def align(S, pairs=PAIRS):
    from czone.transform import s2s_alignment
    from czone.volume.algebraic import Plane
    nm, nt = S.choice('normals', pairs)
    q, r = S.vec('q', lo=-10, hi=10), S.vec('r', lo=-10, hi=10)
    mp, tp = S.vec('mp', lo=-10, hi=10), S.vec('tp', lo=-10, hi=10)
    P, Q = Plane(normal=list(nm), point=q), Plane(normal=list(nt), point=r)
    pn, pp = flat(P.normal), flat(P.point)
    shape = S.choice('shape', ('flat', 'row'))
    a, b = (mp, tp) if shape == 'flat' else (S.arr([flat(mp)]), S.arr([flat(tp)]))
    T = s2s_alignment(P, Q, a, b)
    S.eq('moving plane is left unchanged', flat(P.normal) + flat(P.point), pn + pp)
    S.eq('target plane is left unchanged', flat(Q.point), flat(r))
    P2 = P.from_alg_object(transformation=[T])
    S.eq('planes become antiparallel', flat(P2.normal), [-x for x in flat(Q.normal)], tol=1e-5)
    S.eq('planes become coincident', S.dot(flat(Q.normal), S.sub(flat(P2.point), r)), 0, tol=1e-5)
    img = rows(T.applyTransformation(S.arr([flat(mp)])))[0]
    S.eq('moved point lies over the target point', S.crossp(flat(Q.normal), S.sub(img, flat(tp))), [0, 0, 0], tol=1e-5)
    # the motion is rigid and proper
    B = mat(T.applyTransformation_bases(S.arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]])))
    S.eq('motion is proper', S.det3(B), 1, tol=1e-5)
    for i in range(3):
        for j in range(i, 3):
            S.eq('motion is rigid', S.dot(B[i], B[j]), 1 if i == j else 0, tol=1e-5)
    S.eq('reference point moves with its plane', img, S.addv(P2.point, mv(B, S.sub(mp, q))), tol=1e-5)


CASES = [Case('align', align, f'{len(PAIRS)} pairs of normals, any plane points and reference points in [-10,10]^3')]
