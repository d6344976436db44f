"""C13: strain fields displace every supplied atom by the stated strain about the stated origin."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import mv, FIXED
from props.C08 import LAT, mm, bases_of, crystal

ASSUMPTIONS = ["custom strain functions are affine maps with symbolic coefficients"]
TR = lambda M: [[M[j][i] for j in range(3)] for i in range(3)]


def tensor(S, form):
    """(value handed to czone, 3x3 meaning)"""
    if form == 'none':
        return None, [[1 if i == j else 0 for j in range(3)] for i in range(3)]
    if form == 'diag':
        v = [S.real(f'm{k}', -3, 3) for k in range(3)]
        return v, [[v[i] if i == j else 0 for j in range(3)] for i in range(3)]
    if form == 'voigt':
        v = [S.real(f'm{k}', -3, 3) for k in range(6)]
        return v, [[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]]
    v = [S.real(f'm{k}', -3, 3) for k in range(9)]
    M = [v[0:3], v[3:6], v[6:9]]
    return (v if form == 'nine' else S.arr(M)), M


FORMS = ('none', 'diag', 'voigt', 'nine', 'matrix')


def strained(S, M, mode, B, Binv, o, p):
    """meaning of the strain, from the definition"""
    d = S.sub(p, o)
    if mode == 'crystal':
        f = mv(Binv, d)
        return S.addv(mv(B, mv(TR(M), f)), o)
    return S.addv(mv(TR(M), d), o)


def inverse(B):
    d = SB.det3(B)
    c = lambda i, j: (B[(j + 1) % 3][(i + 1) % 3] * B[(j + 2) % 3][(i + 2) % 3]
                      - B[(j + 1) % 3][(i + 2) % 3] * B[(j + 2) % 3][(i + 1) % 3])
    return [[c(i, j) / d for j in range(3)] for i in range(3)]


from engine.harness import SBase as SB


def exact(S, M):
    f = (lambda x: Fraction(x)) if S.symbolic else float
    return [[f(x) for x in r] for r in M]


def direct(S, forms, turn=None):
    """strain of given points; origin and crystal taken from a generator or fixed"""
    from czone.transform.strain import HStrain
    from czone.transform import Rotation
    form = S.choice('form', forms)
    mode = S.choice('mode', ('crystal', 'standard'))
    val, M = tensor(S, form)
    g, o = crystal(S)
    B = exact(S, bases_of(S))
    if turn is not None:
        R = exact(S, FIXED[turn])
        g.transform(Rotation(matrix=S.arr(R), origin=S.arr(o)))
        B = mm(R, B)
    if S.choice('origin', ('generator', 'own')) == 'own':
        so = flat(S.vec('so', lo=-5, hi=5))
        st = HStrain(matrix=val, origin=S.arr(so), mode=mode)
    else:
        so = o
        st = HStrain(matrix=val, mode=mode)
    st.scrape_params(g)
    P = S.array('p', (2, 3), -9, 9)
    before = rows(P)
    out = rows(st.apply_strain(P))
    S.check('one image per atom', len(out) == 2)
    for p, q in zip(before, out):
        S.eq('atoms move by the strain', q, strained(S, M, mode, B, inverse(B), so, p))
    for a, b in zip(rows(P), before):
        S.eq('input positions are not modified', a, b)
    S.eq('strain origin stays fixed', st.apply_strain(S.arr([so])), so)
    S.eq('generator is not modified', g.origin, o)
    S.eq('generator is not modified', g.voxel.bases, B)


def attached(S, mode, own, scale=None, form='diag'):
    """strained generator: atoms are the strained lattice atoms, species and count unchanged; strain follows the crystal"""
    from czone.generator import Generator
    from czone.transform.strain import HStrain
    from czone.transform import Translation, Rotation
    A, sp, fr = LAT
    o = flat(S.vec('o', lo=-0.2, hi=0.2))
    val, M = tensor(S, form)
    so = flat(S.vec('so', lo=-5, hi=5)) if own else None
    how = S.choice('how', ('constructor', 'attribute'))
    kw = dict(origin=S.arr(so)) if own else {}
    st = HStrain(matrix=val, mode=mode, **kw)
    if how == 'constructor':
        g = Generator(structure=S.structure(A, sp, fr), origin=S.arr(o), strain_field=st)
    else:
        g = Generator(structure=S.structure(A, sp, fr), origin=S.arr(o))
        g.strain_field = st
    plain = Generator(structure=S.structure(A, sp, fr), origin=S.arr(o))
    B = exact(S, bases_of(S))
    box = S.arr([[x, y, z] for x in (0.5, 2.0) for y in (0.5, 1.5) for z in (0.5, 1.0)])
    used = S.choice('used before', ('no', 'here', 'elsewhere'))
    if used == 'here':
        g.supply_atoms(box)
    elif used == 'elsewhere':
        Generator(structure=S.structure([[5, 1, 0], [0, 4, 0], [0, 2, 6]], sp, fr), origin=S.arr([0.1, 0.2, 0.3]), strain_field=st).supply_atoms(box)
    mv_ = S.choice('move', ('no', 'shift', 'turn'))
    if mv_ == 'shift':
        t = [1, 2, Fraction(-1, 2)] if S.symbolic else [1, 2, -0.5]
        for x in (g, plain):
            x.transform(Translation(shift=S.arr(t)))
        o = S.addv(o, t)
    elif mv_ == 'turn':
        R = exact(S, FIXED[2])
        for x in (g, plain):
            x.transform(Rotation(matrix=S.arr(R)))
        o, B = mv(R, o), mm(R, B)
    if scale:
        for x in (g, plain):
            x.voxel.scale = S.arr([float(k) for k in scale])
        B = [[x * k for x, k in zip(r, exact(S, [scale])[0])] for r in B]
    pc, ps = plain.supply_atoms(box)
    sc, ss = g.supply_atoms(box)
    pc, sc = rows(pc), rows(sc)
    S.check('as many atoms as unstrained', len(pc) == len(sc))
    S.check('species are unchanged', [int(x) for x in flat(ps)] == [int(x) for x in flat(ss)])
    Bi = inverse(B)
    for p, q in zip(pc, sc):
        S.eq('every atom is the strained lattice atom', q, strained(S, M, mode, B, Bi, so if own else o, p))


def custom(S, mode):
    """user-defined strain functions: applied in the chosen coordinates about the chosen origin"""
    from czone.transform.strain import IStrain
    M = [[S.real(f'm{i}{j}', -3, 3) for j in range(3)] for i in range(3)]
    c = flat(S.vec('shift', lo=-3, hi=3))
    calls = []

    def fun(x, basis=None, gain=1.0):
        calls.append((basis, gain))
        import numpy as np
        return gain * (x @ S.arr(TR(M))) + S.arr(c)
    g, o = crystal(S)
    B = exact(S, bases_of(S))
    own = S.choice('origin', ('generator', 'own'))
    so = flat(S.vec('so', lo=-5, hi=5)) if own == 'own' else o
    kw = dict(origin=S.arr(so)) if own == 'own' else {}
    gain = S.choice('gain', (None, 2.0))
    if gain:
        kw['gain'] = gain
    st = IStrain(fun=fun, mode=mode, **kw)
    st.scrape_params(g)
    P = S.array('p', (2, 3), -9, 9)
    before = rows(P)
    out = rows(st.apply_strain(P))
    k = 2 if gain else 1
    for p, q in zip(before, out):
        d = S.sub(p, so)
        if mode == 'crystal':
            d = mv(inverse(B), d)
        w = [k * x + y for x, y in zip(mv(M, d), c)]
        if mode == 'crystal':
            w = mv(B, w)
        S.eq('atoms move by the function', q, S.addv(w, so))
    for a, b in zip(rows(P), before):
        S.eq('input positions are not modified', a, b)
    S.check('extra arguments reach the function', S.Implies(gain is not None, calls[-1][1] == 2.0))
    if mode == 'crystal':
        S.check('crystal vectors reach the function', calls[-1][0] is not None)
        S.eq('crystal vectors reach the function', calls[-1][0], B)


def none(S):
    """without a function or a tensor nothing moves"""
    from czone.transform.strain import IStrain, HStrain
    g, o = crystal(S)
    mode = S.choice('mode', ('crystal', 'standard'))
    st = IStrain(mode=mode) if S.choice('kind', ('custom', 'tensor')) == 'custom' else HStrain(mode=mode)
    st.scrape_params(g)
    P = S.array('p', (2, 3), -9, 9)
    S.eq('no strain is the identity', st.apply_strain(P), flat(P))


def replaced(S):
    """a strain object can be re-used: new tensor, mode, origin or crystal take effect"""
    from czone.transform.strain import HStrain
    from czone.transform import Translation
    g, o = crystal(S)
    v1, M1 = tensor(S, 'diag')
    st = HStrain(matrix=v1)
    st.scrape_params(g)
    p = flat(S.vec('p', lo=-9, hi=9))
    st.apply_strain(S.arr([p]))
    B = exact(S, bases_of(S))
    what = S.choice('what', ('tensor', 'mode', 'crystal'))
    mode, M, so = 'crystal', M1, o
    if what == 'tensor':
        w = [S.real(f'k{k}', -3, 3) for k in range(6)]
        st.matrix = w
        M = [[w[0], w[5], w[4]], [w[5], w[1], w[3]], [w[4], w[3], w[2]]]
    elif what == 'mode':
        st.mode = mode = 'standard'
    else:
        t = flat(S.vec('t', lo=-3, hi=3))
        g.transform(Translation(shift=S.arr(t)))
        so = S.addv(o, t)
        st.scrape_params(g)
    S.eq('changes take effect', st.apply_strain(S.arr([p])), strained(S, M, mode, B, inverse(B), so, p))


CASES = [
    Case('tensor', direct, '5 ways to give the tensor, entries in [-3,3], both modes, both origins', kwargs=dict(forms=FORMS)),
    Case('tensor-turned', direct, 'rotated crystal', kwargs=dict(forms=('diag', 'voigt'), turn=3)),
    Case('generator-crystal', attached, 'strained generator, crystal coordinates', kwargs=dict(mode='crystal', own=False)),
    Case('generator-crystal-own', attached, 'own origin', kwargs=dict(mode='crystal', own=True)),
    Case('generator-standard', attached, 'standard coordinates', kwargs=dict(mode='standard', own=False)),
    Case('generator-standard-own', attached, 'standard coordinates, own origin', kwargs=dict(mode='standard', own=True)),
    Case('generator-scaled', attached, 'crystal with vectors scaled by 2, 1 and 1.5, tensor with shear', kwargs=dict(mode='crystal', own=False, scale=(2, 1, 1.5), form='voigt')),
    Case('custom-crystal', custom, 'any affine function, crystal coordinates', kwargs=dict(mode='crystal')),
    Case('custom-standard', custom, 'any affine function, standard coordinates', kwargs=dict(mode='standard')),
    Case('none', none, 'default strain'),
    Case('replaced', replaced, 'settings changed after use'),
]
