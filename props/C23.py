"""C23: planar-defect builders put crystallographically correct defects on lattice planes inside the object."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import mv, FIXED
from props.C08 import mm
from props.C13 import inverse, exact

ASSUMPTIONS = ["random numbers are free values; executions that reject more draws than stated are cut"]
A_ = 4
FCC = ([[A_, 0, 0], [0, A_, 0], [0, 0, A_]], [29] * 4, [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]])
S3 = 1.7320508075688772
WUR = ([[3, 0, 0], [-1.5, 1.5 * S3, 0], [0, 0, 5]], [30, 30, 8, 8],
       [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.375], [2 / 3, 1 / 3, 0.875]])


def build(S, lat, turn, span, shape, cspan, r=4.5, prio=0):
    from czone.generator import Generator
    from czone.transform import Rotation
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere
    o = S.vec('o', lo=-span, hi=span)
    g = Generator(structure=S.structure(*lat), origin=o)
    B = [[lat[0][j][i] for j in range(3)] for i in range(3)]
    o = flat(o)
    if turn is not None:
        R = exact(S, FIXED[turn])
        g.transform(Rotation(matrix=S.arr(R), origin=S.arr(o)))
        B = mm(R, B)
    if shape == 'sphere':
        c = S.vec('c', lo=cspan[0], hi=cspan[1])
        v = Volume(alg_objects=[Sphere(radius=r, center=c)])
        c = flat(c)
        ext = lambda n: (S.dot(n, c) - r, S.dot(n, c) + r)
    else:
        P = makeRectPrism(7, 6, 8)
        v = Volume(points=S.arr([[x + cspan[0] for x in q] for q in rows(P)]))
        pts = [[x + cspan[0] for x in q] for q in rows(P)]
        ext = lambda n: (min(S.dot(n, q) for q in pts), max(S.dot(n, q) for q in pts))
    v.priority = prio
    return g, B, o, v, ext


def near_int(S, x, tol=1e-5):
    k = S.int_near('k', x)
    return S.And(x - k <= tol, k - x <= tol)


def common_claims(S, mv_, v, g, B, o, hkl, N, min_sep, ext, prio):
    """number, order, nesting, placement; returns the normal, plane offsets and generators"""
    vols = mv_.volumes
    S.check('one part per defect and the rest', len(vols) == N + 1)
    inv = inverse(B)
    G = [sum((inv[i][j] * hkl[i] for i in range(3)), 0) for j in range(3)]
    pr = [w.priority for w in vols]
    S.check('later parts take precedence', all(pr[k] > pr[k + 1] for k in range(N)))
    nb = len(v.alg_objects)
    S.check('the first part is the whole object', len(vols[0].alg_objects) == nb)
    offs = []
    for k in range(1, N + 1):
        al = vols[k].alg_objects
        S.check('each part is cut by one plane', len(al) == nb + 1)
        pl = al[-1]
        S.eq('defect planes are lattice planes of the family', S.crossp(flat(pl.normal), G), [0, 0, 0], tol=1e-5)
        S.check('planes face the same way', S.dot(flat(pl.normal), G) > 0)
        h = S.dot(G, S.sub(flat(pl.point), o))
        S.check('defect planes pass through lattice planes', near_int(S, h))
        lo, hi = ext(G)
        x = S.dot(G, flat(pl.point))
        S.check('defects lie within the object', S.And(x >= lo - 1e-5, x <= hi + 1e-5))
        offs.append(x)
        if k > 1:
            S.check('defects are separated', offs[-2] - offs[-1] >= min_sep - 1e-5)
    S.eq('the crystal handed in is not modified', g.origin, o)
    S.eq('the crystal handed in is not modified', g.voxel.bases, B, tol=1e-6)
    S.check('the object handed in is not modified', len(v.alg_objects) == nb and v.priority == prio)
    gens = [w.generator for w in vols]
    S.eq('the first part is the crystal', gens[0].origin, o)
    S.eq('the first part is the crystal', gens[0].voxel.bases, B, tol=1e-6)
    return G, gens


def fcc(S, which='mixed', N=1, min_sep=1, hkls=((1, 1, 1), (-1, 1, 1), (1, -1, -1)), turn=None, shape='sphere', span=0.3,
        cspan=(-1, 1), tries=None, r=4.5, prio=0):
    from czone.prefab import prefab
    S.max_draws((tries or N) + N)
    hkl = S.choice('hkl', hkls)
    g, B, o, v, ext = build(S, FCC, turn, span, shape, cspan, r, prio)
    kw = dict(generator=g, volume=v, N=N, min_sep=min_sep, plane=hkl)
    if which == 'mixed':
        ratio = S.real('ratio', 0, 1)
        pf = prefab.fccMixedTwinSF(ratio=ratio, **kw)
    else:
        ratio = 1 if which == 'sf' else 0
        pf = (prefab.fccStackingFault if which == 'sf' else prefab.fccTwin)(**kw)
    out, types = pf.build_object(return_defect_types=True)
    G, gens = common_claims(S, out, v, g, B, o, hkl, N, min_sep, ext, prio)
    n2 = S.norm2(G)
    nt = ns = 0
    for k in range(1, N + 1):
        a, b = gens[k - 1], gens[k]
        Ba, Bb = [list(x) for x in rows(a.voxel.bases)], [list(x) for x in rows(b.voxel.bases)]
        oa, ob = flat(a.origin), flat(b.origin)
        same = all(abs(float(p) - float(q)) < 1e-9 for p, q in zip(flat(Ba), flat(Bb)))
        sh = S.sub(ob, oa)
        if same:
            ns += 1
            S.eq('stacking faults shift within the plane', S.dot(G, sh), 0, tol=1e-6)
            # a lattice vector to the next plane up, and its in-plane part
            ok = None
            for f in ((.5, .5, 0), (.5, 0, .5), (0, .5, .5), (.5, -.5, 0), (.5, 0, -.5), (0, .5, -.5)):
                for s in (1, -1):
                    w = mv(Ba, [s * x for x in f])
                    if abs(float(S.dot(G, w)) - 1) < 1e-6:
                        ok = w
            hgt = 1 / n2
            p = S.sub(ok, [x * hgt for x in G])
            c = [2 * x for x in mv(inverse(Ba), S.addv(sh, p))]
            S.check('stacking faults shift onto the next hollow sites', S.And(*[near_int(S, x) for x in c]))
            t = (c[0] + c[1] + c[2]) / 2
            S.check('stacking faults shift onto the next hollow sites', near_int(S, t))
        else:
            nt += 1
            H = [[(1 if i == j else 0) - 2 * G[i] * G[j] / n2 for j in range(3)] for i in range(3)]
            S.eq('twins mirror the crystal axes', Bb, mm(H, Ba), tol=1e-5)
            q = flat(out.volumes[k].alg_objects[-1].point)
            S.eq('twins mirror the crystal about the defect plane', ob, S.addv(q, mv(H, S.sub(oa, q))), tol=1e-5)
    S.check('defect types are reported', S.And(types['twin'] == (nt > 0), types['stacking_fault'] == (ns > 0)))
    S.check('no twins at ratio one', S.Implies(ratio >= 1, nt == 0))
    S.check('no stacking faults at ratio zero', S.Implies(ratio <= 0, ns == 0))


def wurtzite(S, N=1, min_sep=1, turn=None, shape='sphere', span=0.3, cspan=(-1, 1), tries=None, r=4.5, prio=0):
    from czone.prefab import prefab
    S.max_draws(tries or N)
    g, B, o, v, ext = build(S, WUR, turn, span, shape, cspan, r, prio)
    out = prefab.wurtziteStackingFault(generator=g, volume=v, N=N, min_sep=min_sep).build_object()
    G, gens = common_claims(S, out, v, g, B, o, (0, 0, 2), N, min_sep, ext, prio)
    inv = inverse(B)
    for k in range(1, N + 1):
        a, b = gens[k - 1], gens[k]
        S.eq('axes do not turn', a.voxel.bases, b.voxel.bases)
        f = mv(inv, S.sub(flat(b.origin), flat(a.origin)))
        S.check('layers move by half a period', near_int(S, f[2] - 0.5))
        third = Fraction(1, 3) if S.symbolic else 1 / 3
        S.check('layers move to the third stacking position',
                S.Or(S.And(near_int(S, f[0] - third), near_int(S, f[1] + third)),
                     S.And(near_int(S, f[0] + third), near_int(S, f[1] - third))))


def grains(S):
    from czone.prefab import prefab
    from czone.generator import Generator
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere, Plane
    lat = ([[3, 0, 0], [1, 4, 0], [0, 0.5, 5]], [11, 17], [[0, 0, 0], [0.5, 0.5, 0.25]])
    o = S.vec('o', lo=-2, hi=2)
    g = Generator(structure=S.structure(*lat), origin=o)
    c, q = S.vec('c', lo=-5, hi=5), S.vec('q', lo=-5, hi=5)
    v = Volume(alg_objects=[Sphere(radius=5.0, center=c)], priority=S.choice('pr', (0, 3)))
    pl = Plane(normal=[1.0, 2.0, 2.0], point=q)
    z1 = S.choice('z1', ((1, 0, 0), (0, 0, 1), (1, 1, 1), (0, 0, -1), (1, -1, -2)))
    z2 = S.choice('z2', (None, (0, 1, 0), (1, -1, 1), (-1, 0, -1)))
    out = prefab.SimpleGrainBoundary(z1, 0, z2=z2, plane=pl, volume=v, generator=g).build_object()
    S.check('two grains', len(out.volumes) == 2)
    B = [[lat[0][j][i] for j in range(3)] for i in range(3)]
    for k, z in enumerate((z1, z2 or z1)):
        Bk = [list(x) for x in rows(out.volumes[k].generator.voxel.bases)]
        ax = mv(Bk, list(z))
        S.eq('zone axis is upright', [ax[0], ax[1]], [0, 0], tol=1e-5)
        S.check('zone axis is upright', ax[2] > 0)
        for i in range(3):
            for j in range(3):
                S.eq('grains keep the crystal', S.dot([r[i] for r in Bk], [r[j] for r in Bk]), S.dot([r[i] for r in B], [r[j] for r in B]), tol=1e-5)
    S.check('the first grain is cut by the plane and takes precedence',
            S.And(len(out.volumes[0].alg_objects) == 2, len(out.volumes[1].alg_objects) == 1, out.volumes[0].priority < out.volumes[1].priority))
    S.eq('the crystal handed in is not modified', g.origin, o)
    S.eq('the crystal handed in is not modified', g.voxel.bases, B)
    S.check('the object handed in is not modified', len(v.alg_objects) == 1)


CASES = [
    Case('fcc', fcc, 'one twin or stacking fault, any ratio, 3 planes, sphere with any center in [-1,1]^3, any crystal origin within 0.3'),
    Case('fcc-turned', fcc, 'rotated crystal, off-center sphere', kwargs=dict(turn=3, hkls=((1, 1, 1), (1, 1, -1)), cspan=(9, 10))),
    Case('fcc-two', fcc, 'two defects of any type, separation 2, object of priority 3', kwargs=dict(N=2, prio=3, min_sep=2, hkls=((1, 1, 1),), cspan=(-0.5, 0.5), r=9.5)),
    Case('fcc-three', fcc, 'three defects of any type', kwargs=dict(N=3, hkls=((-1, 1, -1),), cspan=(-0.1, 0.1), span=0.1, r=6)),
    Case('fcc-box', fcc, 'box, one defect', kwargs=dict(shape='box', cspan=(2, 2), hkls=((1, 1, 1), (-1, 1, -1)))),
    Case('stacking-fault', fcc, 'stacking fault class', kwargs=dict(which='sf', prio=7, hkls=((1, -1, 1),))),
    Case('twin', fcc, 'twin class', kwargs=dict(which='twin', hkls=((-1, -1, 1),))),
    Case('wurtzite', wurtzite, 'one fault, any center and origin'),
    Case('wurtzite-two', wurtzite, 'two faults, rotated crystal, object of priority -2', kwargs=dict(N=2, prio=-2, turn=2, cspan=(-0.5, 0.5))),
    Case('wurtzite-far', wurtzite, 'one fault, object far from the origin', kwargs=dict(cspan=(40, 41), span=0.2)),
    Case('fcc-far', fcc, 'one defect, object far from the origin', kwargs=dict(cspan=(-41, -40.5), span=0.2, hkls=((-1, 1, 1),))),
    Case('grains', grains, '5 x 4 zone axis pairs'),
]
