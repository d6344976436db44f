"""C32: exported files and ASE views hold exactly the object's atoms, cell and options."""
import math
from engine.harness import Case, flat, rows
from props.common import Slab

ASSUMPTIONS = ["ase.io.write is replaced by a recorder: what is handed to it is judged, not the bytes it writes"]
ELEMENTS = {6: 'C', 8: 'O', 79: 'Au', 14: 'Si'}
DW = 0.01 * 8 * math.pi ** 2


def scene_of(S, n, mol=True, given=True):
    from czone.scene import Scene
    from czone.molecule import molecule
    species = S.choice('species', ([6, 79, 14], [79, 79, 6], [8, 8, 8]))
    with_mol = mol and S.choice('molecule', (False, True))
    bounds = given and S.choice('bounds', ('default', 'given')) == 'given'
    A, B = Slab(S, 0, n), Slab(S, 1, 1, priority=1)
    A.tags[:], B.tags[:] = species[:n], species[n:n + 1]
    obs = [A.vol, B.vol]
    want = [(p, z, A.inside(p)) for p, z in zip(A.pts, A.tags)]
    want += [(p, z, S.And(B.inside(p), S.Not(A.inside(p)))) for p, z in zip(B.pts, B.tags)]
    if with_mol:
        q = flat(S.vec('m'))
        m = molecule.Molecule(S.arr([8]), S.arr([q]))
        m.priority = -1
        obs.insert(0, m)
        want.append((q, 8, True))
    kw = {}
    size = [10, 10, 10]
    if bounds:
        lo, hi = flat(S.vec('lo', lo=-20, hi=20)), flat(S.vec('hi', lo=-20, hi=20))
        for a, b in zip(lo, hi):
            S.assume(a < b)
        kw['bounds'] = S.arr([lo, hi])
        size = S.sub(hi, lo)
    s = Scene(objects=obs, **kw)
    for o in (A, B):
        for p, *_ in want:
            S.assume(o.clear(p, 0.001))
    return s, want, size


def matches(S, num, xyz, want, what):
    """the atoms are those wanted, each once, in any order"""
    num, xyz = list(num), [list(p) for p in xyz]
    S.check(what + ': one element per position', len(num) == len(xyz))
    n = sum((S.ite(c, 1, 0) for *_, c in want), 0)
    S.check(what + ': as many atoms as the object holds', n == len(xyz))
    for p, z, c in want:
        S.check(what + ': every atom of the object', S.Implies(c, S.Or(*[S.And(S.same(p, q), z == y) for q, y in zip(xyz, num)])))
    for q, y in zip(xyz, num):
        S.check(what + ': nothing else', S.Or(*[S.And(c, S.same(p, q), z == y) for p, z, c in want]))


def scene(S, n=2):
    fmt = S.choice('format', (None, 'xyz', 'prismatic', 'prismatic+dw', 'prismatic+none', 'vasp+opts'))
    s, want, size = scene_of(S, n)
    s.populate()
    kw = {}
    if fmt:
        kw['format'] = fmt.split('+')[0]
    own = {'C': 1.5, 'Au': 2.5}
    if fmt == 'prismatic+dw':
        kw['debye_waller_factors'] = own
    elif fmt == 'prismatic+none':
        kw['debye_waller_factors'] = {}
    elif fmt == 'vasp+opts':
        kw.update(direct=True, sort=False)
    given = dict(kw)
    before = len(S.writes())
    s.to_file('out.file', **kw)
    w = S.writes()[before:]
    S.check('one file is written', len(w) == 1)
    name, img, opts = w[0]
    S.check('under the given name', name == 'out.file')
    num, xyz = S.atoms_view(img)
    matches(S, num, xyz, want, 'file')
    opts = dict(opts)
    if fmt == 'prismatic':
        d = opts.pop('debye_waller_factors', None)
        S.check('prismatic files get default Debye-Waller factors', isinstance(d, dict))
        present = {ELEMENTS[int(z)] for z in num}
        S.check('one factor per element present', d is not None and set(d) == present)
        S.check('the default factor is 8 pi^2 (0.1 A)^2', all(abs(float(x) - DW) < 1e-12 for x in (d or {}).values()))
    S.check('options are passed on as given', opts == given)
    cell(S, img, size)


def cell(S, img, size):
    c = img.cell
    c = rows(c) if len(c) == 3 and hasattr(c[0], '__len__') else [[c[0], 0, 0], [0, c[1], 0], [0, 0, c[2]]]
    S.check('the cell has the size of the scene', S.And(*[S.same(c[i][j], size[i] if i == j else 0) for i in range(3) for j in range(3)]))


def view(S, n=2):
    """ASE view of a scene after edits: always the atoms of the last population"""
    s, want, size = scene_of(S, n, mol=False)
    s.populate()
    a = s.ase_atoms
    matches(S, *S.atoms_view(a), want, 'view')
    cell(S, a, size)
    hi = flat(S.vec('hi2', lo=1, hi=9))
    s.bounds = S.arr([[0.0, 0.0, 0.0], hi])
    cell(S, s.ase_atoms, hi)
    matches(S, *S.atoms_view(s.ase_atoms), want, 'view after new bounds')
    # atoms of one object
    objs = list(s.objects)
    for k in range(2):
        got = rows(s.species_from_object(k))
        part = want[:n] if k == 0 else want[n:]
        S.check('atoms contributed by one object', sum((S.ite(c, 1, 0) for *_, c in part), 0) == len(got))
        for q in got:
            S.check('atoms contributed by one object are its own', S.Or(*[S.And(c, S.same(p, q)) for p, _, c in part]))
        last = rows(s.species_from_object(k - 2))
        S.check('counted from the end as well', len(last) == len(got))
        for q, r in zip(got, last):
            S.check('counted from the end as well', S.same(q, r))
    S.eq('bounds are those set', s.bounds, [0, 0, 0] + hi)
    lo = flat(S.vec('lo3', lo=-9, hi=-1))
    s.bounds = S.arr([lo, hi])
    S.eq('bounds are those set', s.bounds, lo + hi)
    cell(S, s.ase_atoms, S.sub(hi, lo))


def crowd(S):
    """a rare element at the end of many atoms gets its factor as well"""
    from czone.scene import Scene
    from czone.molecule import molecule
    n = S.choice('atoms', (7, 64, 300))
    fixed = [[float(i % 7), float(i // 7 % 7), float(i // 49)] for i in range(n - 2)]
    q = [flat(S.vec(f'q{k}', lo=-9, hi=9)) for k in range(2)]
    where = S.choice('where', ('one molecule', 'a second molecule'))
    if where == 'one molecule':
        obs = [molecule.Molecule(S.arr([6] * (n - 2) + [79, 14]), S.arr(fixed + q))]
    else:
        obs = [molecule.Molecule(S.arr([6] * (n - 2)), S.arr(fixed)), molecule.Molecule(S.arr([79, 14]), S.arr(q))]
    s = Scene(objects=obs)
    s.populate()
    before = len(S.writes())
    s.to_file('crowd.xyz', format='prismatic')
    w = S.writes()[before:]
    S.check('one file is written', len(w) == 1)
    num, xyz = S.atoms_view(w[0][1])
    num = [int(z) for z in num]
    S.check('every atom is written', len(num) == n and sorted(num) == sorted([6] * (n - 2) + [79, 14]))
    d = w[0][2].get('debye_waller_factors')
    S.check('one factor per element present', d is not None and set(d) == {'C', 'Au', 'Si'})
    S.check('the default factor is 8 pi^2 (0.1 A)^2', all(abs(float(x) - DW) < 1e-12 for x in d.values()))
    for z, p in ((79, q[0]), (14, q[1])):
        S.eq('the rare atoms are where they were placed', xyz[num.index(z)], p)


def volume(S, n=2, opts=({}, {'format': 'xyz'}, {'format': 'cfg', 'extra': 3})):
    """files of single volumes and unions"""
    from czone.volume import MultiVolume
    kind = S.choice('kind', ('volume', 'union'))
    kw = S.choice('kw', opts)
    species = S.choice('species', ([6, 79], [79, 79])) if n == 2 else [6, 79, 6, 14, 8][:n]
    A = Slab(S, 0, n)
    B = Slab(S, 1, 1)
    A.tags[:] = species[:n]
    for p in A.pts + B.pts:
        S.assume(S.And(A.clear(p, 0.001), B.clear(p, 0.001)))
    B.tags[:] = [8]
    if kind == 'volume':
        v, want = A.vol, [(p, z, A.inside(p)) for p, z in zip(A.pts, A.tags)]
    else:
        v = MultiVolume(volumes=[A.vol, B.vol])
        want = [(p, z, S.And(a.inside(p), S.Not(b.inside(p)))) for a, b in ((A, B), (B, A)) for p, z in zip(a.pts, a.tags)]
    v.populate_atoms()
    S.assume(len(rows(v.atoms)) > 0)
    before = len(S.writes())
    v.to_file('v.xyz', **kw)
    w = S.writes()[before:]
    S.check('one file is written', len(w) == 1)
    S.check('under the given name', w[0][0] == 'v.xyz')
    S.check('options are passed on as given', dict(w[0][2]) == kw)
    matches(S, *S.atoms_view(w[0][1]), want, 'file')
    matches(S, *S.atoms_view(v.ase_atoms), want, 'view')


CASES = [
    Case('scene-file', scene, '2 slabs with 1 + 1 atoms and perhaps a molecule, any bounds, 6 sets of options', kwargs=dict(n=1)),
    Case('scene-view', view, '2 slabs with 2 + 1 atoms, any bounds'),
    Case('crowd', crowd, 'molecules of 7, 64 or 300 atoms, the last two of rare elements'),
    Case('volume-file', volume, 'slab with 2 atoms or union with 2 + 1, 3 sets of options'),
    Case('volume-many', volume, 'slab with 4 atoms or union with 4 + 1', kwargs=dict(n=4, opts=({},))),
    Case('scene-file-2', scene, '2 + 1 atoms', kwargs=dict(n=2), thorough_only=True),
]
