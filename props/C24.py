"""C24: a molecule keeps positions, species, origin and orientation consistent through every edit."""
from fractions import Fraction
from engine.harness import Case, flat, rows
from props.common import FIXED

ASSUMPTIONS = ["an atom-tracking origin is not queried after the atom list was replaced by one of another length"]

Z3 = [8, 1, 6]


class Model:
    """what the molecule must look like, from the history of edits alone"""

    def __init__(self, S, pos, sp, origin, M):
        self.S, self.pos, self.sp, self.origin, self.M, self.priority = S, [list(p) for p in pos], list(sp), origin, M, 0

    def point(self):
        k, v = self.origin
        return self.pos[v] if k == 'atom' else v

    def compare(self, m, what):
        S = self.S
        got, gs = rows(m.atoms), flat(m.species)
        S.check(f'{what}: one species per position', S.And(len(got) == len(self.pos), len(gs) == len(self.pos)))
        S.check(f'{what}: atoms keep their positions and order', S.And(*[S.same(a, b) for a, b in zip(got, self.pos)]))
        S.check(f'{what}: species stay with their atoms', S.And(*[a == b for a, b in zip(gs, self.sp)]))
        S.check(f'{what}: origin', S.same(flat(m.origin), self.point()))
        S.check(f'{what}: orientation', S.And(*[S.same(a, b) for a, b in zip(rows(m.orientation), self.M)]))
        S.check(f'{what}: priority', m.priority == self.priority)


def start(S, n=3, neg=True):
    from czone.molecule import molecule
    pos = [flat(S.vec(f'p{i}')) for i in range(n)]
    sp = Z3[:n] if n <= 3 else Z3 + [int(7 + k) for k in range(n - 3)]
    kw, origin, M = {}, ('point', [0, 0, 0]), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    kind = S.choice('origin', ('none', 'point', 'atom'))
    if kind == 'point':
        o = flat(S.vec('o'))
        kw['origin'], origin = S.arr(o), ('point', o)
    elif kind == 'atom':
        k = S.fork_int('k', -(n - 1) if neg else 0, n - 1)
        kw['origin'], origin = k, ('atom', k % n)
    return pos, sp, kw, origin, M, molecule


def build(S, n=3):
    pos, sp, kw, origin, M, molecule = start(S, n)
    if S.choice('turned', (False, True)):
        M = [list(r) for r in FIXED[2]]
        M = M if S.symbolic else [[float(x) for x in r] for r in M]
        kw['orientation'] = S.arr(M)
    A, Z = S.arr(pos), S.arr(sp)
    m = molecule.Molecule(Z, A, **kw)
    mod = Model(S, pos, sp, origin, M)
    mod.compare(m, 'built')
    # the molecule is a copy of the arrays handed in
    A[0, 0] = A[0, 0] + 1
    Z[0] = 99
    if 'origin' in kw and origin[0] == 'point':
        kw['origin'][1] = 7
    mod.compare(m, 'after the input arrays changed')
    # positions may be whole numbers at first
    import numpy as np
    whole = [[0, 0, 0], [1, 2, 3], [4, 0, -1]][:n]
    w = molecule.Molecule(S.arr(sp), whole if S.choice('whole', ('list', 'array')) == 'list' else np.array(whole))
    w.update_positions(S.arr(pos))
    Model(S, pos, sp, ('point', [0, 0, 0]), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]).compare(w, 'moved from whole numbers')
    # the region of a molecule excludes nothing
    x = S.vec('x')
    S.check('a molecule excludes no point', S.Not(flat(m.checkIfInterior(S.arr([flat(x)])))[0]))
    a = m.ase_atoms
    num, xyz = S.atoms_view(a)
    S.check('ASE view has the same atoms', S.And(len(num) == len(sp), len(rows(xyz)) == n,
            *[u == v for u, v in zip(num, sp)], *[S.same(u, v) for u, v in zip(rows(xyz), pos)]))
    mod.compare(m, 'after export')


def imported(S, n=2):
    from czone.molecule import molecule
    pos = [flat(S.vec(f'p{i}')) for i in range(n)]
    sp = Z3[:n]
    kind = S.choice('from', ('ase', 'ase periodic', 'pmg'))
    if kind != 'pmg':
        # atoms stay where they are, also outside of a periodic cell
        k = dict(cell=[4.0, 5.0, 6.0], pbc=[True, True, False]) if kind == 'ase periodic' else {}
        m = molecule.Molecule.from_ase_atoms(S.ase_atoms(sp, S.arr(pos), **k))
        S.check('only ASE atoms are accepted', S.raises(lambda: molecule.Molecule.from_ase_atoms(pos), TypeError))
    else:
        m = molecule.Molecule.from_pmg_molecule(S.pmg_molecule(sp, S.arr(pos)))
        S.check('only pymatgen molecules are accepted', S.raises(lambda: molecule.Molecule.from_pmg_molecule(pos), TypeError))
    Model(S, pos, sp, ('point', [0, 0, 0]), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]).compare(m, 'imported')


def step(S, m, mod, i, ops, neg=True):
    """one edit on molecule and model; returns its name"""
    n = len(mod.pos)
    op = S.choice(f'op{i}', ops)
    if op == 'move':
        q = [flat(S.vec(f'q{i}.{j}')) for j in range(n)]
        A = S.arr(q)
        m.update_positions(A)
        A[n - 1, 2] = A[n - 1, 2] + 1
        mod.pos = [list(p) for p in q]
    elif op == 'species':
        z = [20 + j for j in range(n)]
        A = S.arr(z)
        m.update_species(A)
        A[0] = 3
        mod.sp = z
    elif op == 'replace':
        k = n if mod.origin[0] == 'atom' else S.choice(f'n{i}', (n, n + 1))
        q = [flat(S.vec(f'q{i}.{j}')) for j in range(k)]
        z = [30 + j for j in range(k)]
        m.set_atoms(S.arr(z), S.arr(q))
        mod.pos, mod.sp = [list(p) for p in q], z
    elif op == 'remove':
        r = S.fork_int(f'r{i}', -n if neg else 0, n - 1)
        gone = {r % n}
        ind = [r]
        if n > 2 and (neg or i) and S.choice(f'two{i}', (False, True)):
            r2 = S.fork_int(f'r{i}b', 0, n - 1)
            ind.append(r2)
            gone.add(r2)
            if r2 == r:
                # an atom named twice is removed once
                ind.append((r + 1) % n)
                gone.add((r + 1) % n)
        new = S.choice(f'new{i}', (None, 'idx'))
        kw, keep = {}, [j for j in range(n) if j not in gone]
        if new:
            k = S.fork_int(f'k{i}', -(n - 1) if neg else 0, n - 1)
            kw['new_origin_idx'] = k
            tracked = k % n
        else:
            tracked = mod.origin[1] if mod.origin[0] == 'atom' else None
        if tracked is not None and tracked in gone:
            S.check('removing the atom of the origin is refused', S.raises(lambda: m.remove_atoms(ind, **kw)))
            return 'refused removal'
        m.remove_atoms(ind, **kw)
        mod.pos, mod.sp = [mod.pos[j] for j in keep], [mod.sp[j] for j in keep]
        if tracked is not None:
            mod.origin = ('atom', keep.index(tracked))
    elif op == 'origin-point':
        o = flat(S.vec(f'o{i}'))
        A = S.arr(o)
        m.set_origin(point=A)
        A[0] = A[0] + 2
        mod.origin = ('point', o)
    elif op == 'origin-atom':
        k = S.fork_int(f'k{i}', -(n - 1), n - 1)
        m.set_origin(idx=k)
        mod.origin = ('atom', k % n)
    elif op == 'orientation':
        R = S.z_rotation(f'R{i}', axis=i % 3)
        m.orientation = R
        mod.M = [list(r) for r in rows(R)]
    elif op == 'reset':
        m.reset_orientation()
        mod.M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif op == 'priority':
        p = S.choice(f'pr{i}', (-3, 4))
        m.priority = p
        mod.priority = p
    return op


OPS = ('move', 'species', 'replace', 'remove', 'origin-point', 'origin-atom')
ALL = OPS + ('orientation', 'reset', 'priority')


def history(S, first=OPS, second=ALL, n=3, third=None, neg=False):
    pos, sp, kw, origin, M, molecule = start(S, n, neg)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    mod = Model(S, pos, sp, origin, M)
    for i, ops in enumerate([x for x in (first, second, third) if x]):
        op = step(S, m, mod, i, ops, neg)
        mod.compare(m, f'after {op}')


def rejected(S, n=3):
    """an edit that cannot be honoured raises and leaves the molecule as it was"""
    import numpy as np
    pos, sp, kw, origin, M, molecule = start(S, n)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    mod = Model(S, pos, sp, origin, M)
    q = [flat(S.vec(f'q{j}')) for j in range(n + 1)]
    bad = S.choice('bad', ('set', 'set-few', 'move', 'species', 'idx', 'idx-neg', 'idx-float', 'point', 'orient', 'skew',
                           'mirror', 'priority', 'remove-origin', 'remove-new', 'remove-float'))

    def f():
        if bad == 'set':
            m.set_atoms(S.arr(sp), S.arr(q))
        elif bad == 'set-few':
            m.set_atoms(S.arr(sp), S.arr(q[:n - 1]))
        elif bad == 'move':
            m.update_positions(S.arr(q))
        elif bad == 'species':
            m.update_species(S.arr(sp + [1]))
        elif bad == 'idx':
            m.set_origin(idx=S.fork_int('i', n, n + 2))
        elif bad == 'idx-neg':
            m.set_origin(idx=S.fork_int('i', -n - 3, -n - 1))
        elif bad == 'idx-float':
            m.set_origin(idx=1.0)
        elif bad == 'point':
            m.set_origin(point=S.arr(q[0] + [1.0]))
        elif bad == 'orient':
            m.orientation = S.arr([[1, 0, 0], [0, 1, 0]])
        elif bad == 'skew':
            a = S.real('a', -5, 5)
            S.assume(S.abs(a) > 0.01)
            c, s = (Fraction(3, 5), Fraction(4, 5)) if S.symbolic else (0.6, 0.8)
            # a shear; unit axes that are not at right angles
            m.orientation = S.arr(S.choice('M', ([[1, a, 0], [0, 1, 0], [0, 0, 1]], [[1, c, 0], [0, s, 0], [0, 0, 1]],
                                                 [[1, 0, 0], [0, 1, 0], [c, 0, s]])))
        elif bad == 'mirror':
            R = rows(S.z_rotation('R'))
            m.orientation = S.arr([R[0], R[1], [-x for x in R[2]]])
        elif bad == 'priority':
            m.priority = S.choice('pr', (0.5, '1', None))
        elif bad == 'remove-origin':
            m.remove_atoms([0], new_origin_idx=S.fork_int('i', n, n + 2))
        elif bad == 'remove-new':
            k = S.fork_int('i', 0, n - 1)
            m.remove_atoms([k, (k + 1) % n], new_origin_idx=S.choice('alias', (k, k - n) if k else (k,)))
        elif bad == 'remove-float':
            m.remove_atoms([0], new_origin_idx=1.5)
    S.check(f'{bad} is refused', S.raises(f))
    mod.compare(m, f'after the refused {bad}')


CASES = [
    Case('build', build, '3 atoms anywhere, 3 kinds of origin (any tracked index), 2 orientations'),
    Case('import', imported, '2 atoms from ASE or pymatgen'),
    Case('rejected', rejected, '3 atoms, 15 kinds of invalid edit'),
    Case('remove', history, '3 atoms, any removal with any (negative) indices', kwargs=dict(first=('remove',), second=None, neg=True)),
    Case('remove-then', history, '3 atoms, any removal of one atom then any of 5 edits (removals of one or two)', kwargs=dict(first=('remove',), second=('move', 'remove', 'origin-atom', 'orientation', 'species'))),
    Case('edit-then-remove', history, '3 atoms, any of 4 edits then any removal', kwargs=dict(first=('move', 'replace', 'origin-point', 'origin-atom'), second=('remove',))),
    Case('edits', history, '3 atoms, all pairs of 8 edits', kwargs=dict(first=('move', 'species', 'replace', 'origin-point', 'origin-atom'), second=tuple(o for o in ALL if o != 'remove'))),
    Case('four', history, '4 atoms, three edits', kwargs=dict(first=('remove',), second=('origin-atom', 'remove'), third=('remove',), n=4), thorough_only=True),
    Case('three-edits', history, '3 atoms, three edits', kwargs=dict(first=OPS, second=OPS, third=OPS), thorough_only=True),
]
