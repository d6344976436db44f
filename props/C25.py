"""C25: transforming a molecule moves its atoms and its reference point together and nothing else."""
import warnings
from engine.harness import Case, flat, rows
from props.common import FIXED, isometry, apply, mv
from props import C24
from props.C24 import Model, Z3

ASSUMPTIONS = []


def start(S, n=3, neg=True):
    """a molecule; turned already, unless its origin is the default one"""
    pos, sp, kw, origin, M, molecule = C24.start(S, n, neg)
    if kw:
        M = [list(r) for r in FIXED[2]]
        M = M if S.symbolic else [[float(x) for x in r] for r in M]
        kw['orientation'] = S.arr(M)
    return pos, sp, kw, origin, M, molecule


def transform_of(S, name, kinds):
    """(czone transform, M, t); 'matrix' is any 3x3 matrix about an optional origin"""
    if kinds == ('matrix',):
        from czone.transform import MatrixTransform
        A = S.array(name + '.A', (3, 3), lo=-3, hi=3)
        M = [list(r) for r in rows(A)]
        o = S.vec(name + '.o', lo=-10, hi=10) if S.choice(name + '.origin', (True, False)) else None
        T = MatrixTransform(matrix=A, origin=o)
        return T, M, [0, 0, 0] if o is None else S.sub(flat(o), mv(M, flat(o)))
    return isometry(S, kinds, name, normals=((0, 3, 4), (2, -1, 2)))


def flags(S, T):
    """neither flag has a meaning for molecules"""
    if S.choice('flags', (False, True)):
        T.locked, T.basis_only = False, True


def moved(S, kinds=('translation', 'rotation', 'inversion', 'reflection'), n=3):
    pos, sp, kw, origin, M0, molecule = start(S, n, neg=n < 3)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    m.print_warnings = S.choice('warn', (True, False))
    m.priority = 3
    mod = Model(S, pos, sp, origin, M0)
    mod.priority = 3
    T, M, t = transform_of(S, 'T', kinds)
    flags(S, T)
    with_origin = S.choice('with origin', ('default', True, False))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.transform(T, **({} if with_origin == 'default' else dict(transform_origin=with_origin)))
    # expected: every atom moved once; a point origin moves with them unless told not to; a tracked atom is tracked still
    new = [apply(S, M, t, p) for p in pos]
    o = origin[1] if origin[0] == 'atom' or with_origin is False else apply(S, M, t, origin[1])
    claim(S, m, new, sp, (origin[0], o), M0, 3)


def claim(S, m, new, sp, origin, M0, priority=0):
    got = rows(m.atoms)
    S.check('one position per atom', len(got) == len(new))
    for i, (a, b) in enumerate(zip(got, new)):
        S.eq('atoms move as points', a, b)
    S.eq('origin', flat(m.origin), new[origin[1]] if origin[0] == 'atom' else origin[1])
    S.check('species', S.And(len(flat(m.species)) == len(sp), *[a == b for a, b in zip(flat(m.species), sp)]))
    S.check('orientation is kept', S.And(*[S.same(a, b) for a, b in zip(rows(m.orientation), M0)]))
    S.check('priority is kept', m.priority == priority)


def sequence(S, ka=('translation', 'rotation'), kb=('translation', 'rotation', 'inversion', 'reflection'), how=('copy', 'in place', 'combined')):
    """two transformations in the order given: by copying, in place, or combined into one"""
    from czone.transform import MultiTransform
    pos, sp, kw, origin, M0, molecule = start(S, 2, neg=False)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    m.print_warnings = False
    A, Ma, ta = isometry(S, ka, 'A', rot='fixed', normals=((0, 3, 4),))
    B, Mb, tb = isometry(S, kb, 'B', rot='z', normals=((2, -1, 2),))
    how = S.choice('how', how)
    f = lambda p: apply(S, Mb, tb, apply(S, Ma, ta, p))
    if how == 'copy':
        r = m.from_molecule(transformation=[A, B])
        Model(S, pos, sp, origin, M0).compare(m, 'the source of a copy')
    else:
        r = m
        if how == 'combined':
            r.transform(MultiTransform([A, B]))
        else:
            r.transform(A)
            r.transform(B)
    claim(S, r, [f(p) for p in pos], sp, (origin[0], origin[1] if origin[0] == 'atom' else f(origin[1])), M0)


def interleaved(S):
    """the origin is moved to an atom (or point) between two transformations"""
    from czone.transform import Translation
    pos, sp, kw, origin, M0, molecule = start(S, 3, neg=False)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    m.print_warnings = False
    a, b = S.vec('a'), S.vec('b')
    m.transform(Translation(shift=a))
    pos = [S.addv(p, flat(a)) for p in pos]
    edit = S.choice('edit', ('atom', 'point', 'remove', 'move'))
    if origin[0] != 'atom':
        origin = ('point', S.addv(origin[1], flat(a)))
    if edit == 'atom':
        k = S.fork_int('j', 0, 2)
        m.set_origin(idx=k)
        origin = ('atom', k)
    elif edit == 'point':
        o = S.vec('q')
        m.set_origin(point=o)
        origin = ('point', flat(o))
    elif edit == 'remove':
        k = S.fork_int('j', 0, 2)
        S.assume(not (origin[0] == 'atom' and origin[1] == k))
        m.remove_atoms([k])
        pos, sp = [p for i, p in enumerate(pos) if i != k], [z for i, z in enumerate(sp) if i != k]
        if origin[0] == 'atom' and origin[1] > k:
            origin = ('atom', origin[1] - 1)
    else:
        pos = [flat(S.vec(f'n{i}')) for i in range(3)]
        m.update_positions(S.arr(pos))
    m.transform(Translation(shift=b))
    pos = [S.addv(p, flat(b)) for p in pos]
    if origin[0] != 'atom':
        origin = ('point', S.addv(origin[1], flat(b)))
    claim(S, m, pos, sp, origin, M0)


def refused(S):
    pos, sp, kw, origin, M0, molecule = start(S, 2)
    m = molecule.Molecule(S.arr(sp), S.arr(pos), **kw)
    t = S.vec('t')
    S.check('only transformations are accepted', S.raises(lambda: m.transform(S.choice('bad', (t, None, 'shift')))))
    Model(S, pos, sp, origin, M0).compare(m, 'after a refused transformation')


CASES = [
    Case('moved', moved, '3 atoms, 4 kinds of isometry (any rotation), 3 kinds of origin'),
    Case('matrix', moved, '2 atoms, any 3x3 matrix', kwargs=dict(kinds=('matrix',), n=2)),
    Case('sequence', sequence, '2 atoms, 2 x 4 pairs of isometries, copied, in place or combined'),
    Case('interleaved', interleaved, '3 atoms, an edit between two translations'),
    Case('refused', refused, '2 atoms'),
    Case('sequence-all', sequence, 'all pairs', kwargs=dict(ka=('inversion', 'reflection')), thorough_only=True),
    Case('moved-5', moved, '5 atoms', kwargs=dict(n=5), thorough_only=True),
]
