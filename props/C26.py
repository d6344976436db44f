"""C26: an adsorbate is a rigid copy of the molecule, bonded at the requested length along the local normal."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import point_generator

ASSUMPTIONS = ["the host is one of the fixed clusters stated in the bounds; random choices of the search take one fixed sample "
               "per salt (targets are selected through filters)", "the direction of the normal itself is not judged here"]

CUBE = [[2.0 * i - 2 + 0.01 * j, 2.0 * j - 2 + 0.02 * k, 2.0 * k - 2 + 0.015 * i] for i in range(3) for j in range(3) for k in range(3)]
Z_CUBE = [8 if (n % 2) else 12 for n in range(27)]


def host(S):
    from czone.volume import Volume
    from czone.volume.algebraic import Sphere
    v = Volume(alg_objects=[Sphere(radius=4.1, center=[0, 0, 0])], generator=point_generator(S, CUBE, Z_CUBE))
    v.populate_atoms()
    return v


def pick(S, k, ways=('indices', 'mask', 'spatial', 'element')):
    """filters that single out one surface atom, in several ways"""
    import numpy as np
    how = S.choice('filter', ways)
    if how == 'indices':
        return {'indices': [k]}, [k]
    if how == 'mask':
        m = np.zeros(27, dtype=bool)
        m[[k, 13]] = True
        return {'mask1': m}, [k]
    if how == 'spatial':
        x = CUBE[k]
        return {'spatial': lambda P: np.sum((P - np.array(x)) ** 2, axis=1) < 0.5}, [k]
    z = Z_CUBE[k]
    return {'element': [z if z == 8 else 'Mg'], 'indices': [k, k - 1 if k else 1]}, [k]


def mol(S, n, pos, sp):
    from czone.molecule import molecule
    kw = {}
    how = S.choice('molecule', ('plain', 'oriented', 'oriented, atom as origin'))
    if 'atom' in how:
        kw['origin'] = n - 1
    M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if 'oriented' in how:
        M = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]
        kw['orientation'] = S.arr([[float(x) for x in r] for r in M])
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    m.print_warnings = False
    return m, M


def place(S, n=2, vectors=((0, 0, 1), (1, 0, 0), (1, 2, -2)), targets=(0, 4, 22, 26), spin=True, sampling=True, salts=(0,), ways=('indices',), back=False):
    from czone.surface.adsorbate import add_adsorbate
    S.fix_draws(f"ads{S.choice('salt', salts)}", kinds=('int', 'unit', 'normal'))
    v = host(S)
    k = S.choice('target', targets)
    o = flat(S.vec('o', lo=-9, hi=9))
    shape = ((0, 0, 0), (0.7, 0.2, 1.0), (-0.4, 1.1, 0.3))
    size = [S.real(f's{i}', -2, 2) for i in range(n)]
    pos = [[o[c] + size[i] * shape[i][c] for c in range(3)] for i in range(n)]
    sp = [7, 1, 6][:n]
    m, M = mol(S, n, pos, sp)
    a = S.choice('bonding atom', tuple(range(n)))
    L = S.real('L', 0, 6)
    S.assume(L > 0.05)
    u = S.choice('vector', vectors)
    kw = {}
    if u != (0, 0, 1):
        kw['mol_vector'] = S.arr([float(x) for x in u])
    if spin:
        th = S.choice('spin', (0.0, 2.0, -1.25))
        if th:
            kw['mol_rotation'] = th
    f, allowed = pick(S, k, ways)
    idx = a - n if back and a and S.choice('from the end', (False, True)) else a
    out, ok = add_adsorbate(m, idx, L, v, probe_radius=2.2, filters=f, use_sampling=sampling, **kw)
    # the molecule handed in is not touched
    S.check('the molecule handed in is unchanged', S.And(*[S.same(p, q) for p, q in zip(rows(m.atoms), pos)],
            *[x == y for x, y in zip(flat(m.species), sp)], *[S.same(x, y) for x, y in zip(rows(m.orientation), M)]))
    S.check('the host is unchanged', S.And(len(rows(v.atoms)) == 27, *[S.same(p, q) for p, q in zip(rows(v.atoms), CUBE)]))
    got = rows(out.atoms)
    S.check('the adsorbate has the atoms of the molecule', S.And(len(got) == n, *[x == y for x, y in zip(flat(out.species), sp)]))
    # bond: length L from an allowed surface atom
    t = CUBE[allowed[0]]
    b = S.sub(got[a], t)
    S.eq('the bonding atom is at the bond length from the selected atom', S.norm2(b), L * L, tol=1e-5)
    N = [x / L for x in b]
    # rigid: distances and handedness are kept
    d0, d1 = [S.sub(p, pos[a]) for i, p in enumerate(pos) if i != a], [S.sub(p, got[a]) for i, p in enumerate(got) if i != a]
    for i in range(len(d0)):
        for j in range(i + 1):
            S.eq('the molecule is moved rigidly', S.dot(d1[i], d1[j]), S.dot(d0[i], d0[j]), tol=1e-4)
    # the molecule's vector points along the normal: heights along both agree
    w = [sum(M[r][c] * u[c] for c in range(3)) for r in range(3)]
    wn = sum(x * x for x in w) ** 0.5
    for i in range(len(d0)):
        S.eq('the chosen molecule vector points along the bond', S.dot(d1[i], N), S.dot(d0[i], w) / wn, tol=1e-4)
    if len(d0) > 1:
        S.eq('the adsorbate is not mirrored', S.dot(S.crossp(d1[0], d1[1]), N), S.dot(S.crossp(d0[0], d0[1]), w) / wn, tol=1e-4)
    S.observe('atoms', got)
    # flag: no atom of the adsorbate inside the host
    near = [S.abs(S.norm2(p) - 4.1 * 4.1) < 1e-3 for p in got]
    inside = S.Or(*[S.norm2(p) < 4.1 * 4.1 for p in got])
    S.check('success is reported exactly when no atom lies inside the host', S.Or(S.Iff(ok, S.Not(inside)), *near))


def spinning(S):
    """the spin turns the adsorbate about the bond by the requested angle and changes nothing else"""
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule import molecule
    S.fix_draws('spin', kinds=('int', 'unit', 'normal'))
    v = host(S)
    k = S.choice('target', (22, 0))
    P = [[0.0, 0.0, 0.0], [0.5, 0.2, 1.0], [-0.4, 1.1, 0.3]]
    o = flat(S.vec('o', lo=-9, hi=9))
    th = S.angle('th')
    out = []
    for kw in ({}, dict(mol_rotation=th)):
        m = molecule.Molecule([7, 1, 6], S.arr([S.addv(o, p) for p in P]))
        m.print_warnings = False
        r, _ = add_adsorbate(m, 1, 9.0, v, probe_radius=2.2, filters={'indices': [k]}, seed=7, **kw)
        out.append(rows(r.atoms))
    c, s = S.cs(th)
    S.eq('the bonding atom stays', out[1][1], out[0][1], tol=1e-5)
    n = [x / 9.0 for x in S.sub(out[0][1], CUBE[k])]
    for i in (0, 2):
        d = S.sub(out[0][i], out[0][1])
        h = S.dot(n, d)
        x = S.crossp(n, d)
        want = [c * (d[q] - h * n[q]) + s * x[q] + h * n[q] for q in range(3)]
        S.eq('the spin is a rotation about the bond by the angle', S.sub(out[1][i], out[1][1]), want, tol=1e-5)


def several(S):
    """filters combine: the target is a surface atom that passes every one of them"""
    import numpy as np
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule import molecule
    S.fix_draws('several', kinds=('int', 'unit', 'normal'))
    v = host(S)
    L = S.real('L', 0, 3)
    S.assume(L > 0.1)
    m = molecule.Molecule([8], S.arr([flat(S.vec('p'))]))
    m.print_warnings = False
    way = S.choice('way', ('indices', 'elements', 'two masks', 'mixed', 'first element', 'last element', 'last index', 'first index', 'from the end'))
    some = np.zeros(27, dtype=bool)
    some[[1, 3, 13, 20, 25]] = True
    other = np.zeros(27, dtype=bool)
    other[[3, 8, 13, 25, 26]] = True
    low = lambda P: P[:, 2] < -1
    f, ok = {'indices': ({'indices': [2, 13, 7, 24]}, (2, 7, 24)),
             'elements': ({'element_a': ['O', 12], 'indices': [5, 6]}, (5, 6)),
             'two masks': ({'mask_a': some, 'mask_b': other}, (3, 25)),
             'first element': ({'element': ['O', 'Mg', 1], 'indices': [5]}, (5,)), 'last element': ({'element': [1, 'Mg', 8], 'indices': [5]}, (5,)),
             'last index': ({'indices': [2, 13, 7, 24], 'mask': np.arange(27) == 24}, (24,)), 'first index': ({'indices': [2, 13, 7, 24], 'mask': np.arange(27) == 2}, (2,)),
             'from the end': ({'indices': [-1, -3, 13]}, (26, 24)),
             'mixed': ({'element': ['Mg'], 'spatial': low, 'indices_x': [0, 1, 6, 13, 4, 18]},
                       tuple(i for i in (0, 1, 6, 4, 18) if Z_CUBE[i] == 12 and CUBE[i][2] < -1))}[way]
    out, _ = add_adsorbate(m, 0, L, v, probe_radius=2.2, filters=f)
    b = rows(out.atoms)[0]
    S.check('the target passes every filter', S.Or(*[S.abs(S.norm2(S.sub(b, CUBE[i])) - L * L) < 1e-5 for i in ok]))


def nowhere(S):
    """when no surface atom passes every filter there is nothing to bond to"""
    import numpy as np
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule import molecule
    S.fix_draws('nowhere', kinds=('int', 'unit', 'normal'))
    v = host(S)
    p = flat(S.vec('p'))
    m = molecule.Molecule([8], S.arr([p]))
    m.print_warnings = False
    f = {'apart': {'indices_a': [3, 25], 'indices_b': [8, 26]}, 'inside': {'indices': [13]}, 'element': {'element': ['C']},
         'element and index': {'indices': [5], 'element': ['O' if Z_CUBE[5] == 12 else 'Mg']},
         'mask': {'mask': np.zeros(27, dtype=bool)}, 'index and mask': {'indices': [3], 'mask': np.arange(27) == 8},
         'masks': {'mask_a': np.arange(27) > 20, 'mask_b': np.arange(27) < 5}, 'index and place': {'indices': [3, 8], 'spatial': lambda P: P[:, 0] > 50}}
    how = S.choice('filters', tuple(f))
    S.check('filters no atom passes give no adsorbate', S.raises(lambda: add_adsorbate(m, 0, 1.5, v, probe_radius=2.2, filters=f[how])))
    S.check('the host and the molecule are unchanged', S.And(*[S.same(a, b) for a, b in zip(rows(v.atoms), CUBE)], *[S.same(rows(m.atoms)[0], p)]))


def seeded(S):
    """the same seed places the adsorbate the same way, whatever else was drawn in between"""
    import numpy as np
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule import molecule
    S.fix_draws('seeded', kinds=('int', 'pick', 'unit', 'normal'))
    seed = S.choice('seed', (0, 5))
    shift = flat(S.vec('o', lo=-9, hi=9))
    out = []
    for i in range(2):
        v = host(S)
        m = molecule.Molecule([8, 6], S.arr([shift, S.addv(shift, [0.3, 0.0, 1.1])]))
        m.print_warnings = False
        r, ok = add_adsorbate(m, 0, 1.5, v, probe_radius=2.2, seed=seed)
        out.append((rows(r.atoms), ok))
        np.random.rand(3)
    S.eq('the same seed gives the same adsorbate', flat(out[0][0]), flat(out[1][0]))
    S.check('the same seed gives the same report', out[0][1] == out[1][1])
    # with debug the target and the neighbors used are reported as well
    m = molecule.Molecule([8, 6], S.arr([shift, S.addv(shift, [0.3, 0.0, 1.1])]))
    m.print_warnings = False
    kw = S.choice('shells', ({}, {'N_shells': 1}))
    k = S.choice('target', (0, 22))
    r, t, nn, rel = add_adsorbate(m, 0, 1.5, host(S), probe_radius=2.2, seed=seed, debug=True, filters={'indices': [k]}, **kw)
    S.check('the target reported is the one selected', int(t) == k)
    S.eq('the bonding atom is at the bond length from the selected atom', S.norm2(S.sub(rows(r.atoms)[0], CUBE[k])), 2.25, tol=1e-5)
    nn = [int(i) for i in flat(nn)]
    S.check('the target is not its own neighbor', k not in nn and len(set(nn)) == len(nn) > 2)
    far = [sum((p - q) ** 2 for p, q in zip(CUBE[i], CUBE[k])) > 15 for i in nn]
    S.check('as many shells of neighbors are used as requested', any(far) == (not kw))
    for i, v in zip(nn, rows(rel)):
        d = [p - q for p, q in zip(CUBE[i], CUBE[k])]
        S.check('neighbors are seen in their directions', S.And(S.norm2(S.crossp(v, d)) < 1e-8, S.dot(v, d) > 0))


def flat_side(S):
    """an atom at the middle of a face: the normal found there leaves the cluster"""
    from czone.surface.adsorbate import add_adsorbate
    from czone.molecule import molecule
    S.fix_draws('side' + str(S.choice('salt', (0, 1))), kinds=('int', 'unit', 'normal'))
    v = host(S)
    k = S.choice('target', (4, 10, 12, 14, 16, 22))
    L = S.real('L', 0, 3)
    S.assume(L > 0.5)
    m = molecule.Molecule([8, 6], [[0.0, 0.0, 0.0], [0.0, 0.0, 1.2]])
    m.print_warnings = False
    out, ok = add_adsorbate(m, 0, L, v, probe_radius=2.2, filters={'indices': [k]})
    c = CUBE[k]
    n = [x / 2.0 for x in c]
    S.check('the normal of a face atom leaves the cluster', S.dot(S.sub(rows(out.atoms)[0], c), n) > 0.5 * L)


CASES = [
    Case('face', place, 'diatomic of any length anywhere, face atom as target, 3 molecule vectors, any bond length 0.05..6', kwargs=dict(spin=False, targets=(4, 14))),
    Case('corner', place, 'the same at corner atoms, 4 kinds of filter, plain alpha shape', kwargs=dict(spin=False, targets=(0, 26), vectors=((0, 0, 1),), sampling=False, ways=('indices', 'mask', 'spatial', 'element'))),
    Case('spin', spinning, 'any spin angle, rigid molecule anywhere, 2 targets'),
    Case('spins', place, 'the same as face with 3 spins about the normal', kwargs=dict(targets=(22,), vectors=((0, 0, 1),)), thorough_only=True),
    Case('more', place, 'more targets and samples', kwargs=dict(targets=(1, 2, 9, 17, 25), salts=(1, 2)), thorough_only=True),
    Case('three', place, '3-atom molecule with two free lengths, bonding atom counted from either end', kwargs=dict(back=True, n=3, targets=(12,), vectors=((1, 2, -2),), spin=True)),
    Case('seeded', seeded, 'seeds 0 and 5, molecule anywhere, no filters'),
    Case('several', several, 'filters leaving several targets, every choice of target'),
    Case('nowhere', nowhere, '8 sets of filters that no surface atom passes'),
    Case('outward', flat_side, 'the 6 face atoms, 2 samples of the random search'),
]
