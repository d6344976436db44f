"""C01: a populated scene holds exactly the atoms that precedence awards to each object."""
from engine.harness import Case, flat, rows
from props.common import Ball, Slab, kept_exactly, outside_shell, point_generator

ASSUMPTIONS = ["objects are sphere-, box- or plane-bounded volumes whose generators supply given atoms; "
               "atoms within 1e-3 of a sphere surface not claimed"]


def expected(S, balls, prio):
    """[(tag, position, condition)] from the precedence rule alone"""
    out = []
    for i, b in enumerate(balls):
        for t, p in zip(b.tags, b.pts):
            rivals = [S.Not(c.inside(p)) for j, c in enumerate(balls) if j != i and prio[j] <= prio[i]]
            out.append((t, p, S.And(b.inside(p), *rivals)))
    return out


def claim(S, sc, balls, prio, label):
    exp = expected(S, balls, prio)
    kept_exactly(S, label, sc.all_species, sc.all_atoms, exp)
    nums, pos = S.atoms_view(sc.ase_atoms)
    kept_exactly(S, label + ' (exported)', S.arr(nums), S.arr(pos) if len(pos) else pos, exp)


def precedence(S, n=2, natoms=1, levels=(0, 1), one_by_one=False, kind=Slab, combos=None):
    from czone.scene import Scene
    prio = list(S.choice('prio', combos)) if combos else [S.choice(f'prio{i}', levels) for i in range(n)]
    balls = [kind(S, i, natoms if isinstance(natoms, int) else natoms[i], priority=prio[i]) for i in range(n)]
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    vols = [b.vol for b in balls]
    if one_by_one:
        sc = Scene()
        for v in vols:
            sc.add_object(v)
    else:
        sc = Scene(objects=vols)
    sc.populate()
    claim(S, sc, balls, prio, 'scene')


def repopulated(S):
    """populate, change something, populate again: the second answer depends on the new state only"""
    from czone.scene import Scene
    from czone.transform import Translation
    prio = [S.choice(f'prio{i}', (0, 1)) for i in range(2)]
    balls = [Slab(S, i, 1, priority=prio[i]) for i in range(2)]
    extra = Slab(S, 2, 1, priority=1)
    op = S.choice('op', ('priority', 'move', 'add', 'same'))
    outside_shell(S, balls + [extra], [p for b in balls + [extra] for p in b.pts])
    sc = Scene(objects=[b.vol for b in balls])
    sc.populate()
    claim(S, sc, balls, prio, 'first population')
    if op == 'priority':
        prio = [S.choice(f'newprio{i}', (-1, 0, 3)) for i in range(2)]
        for b, p in zip(balls, prio):
            b.vol.priority = p
    elif op == 'move':
        t = S.vec('t', lo=-10, hi=10)
        balls[0].vol.transform(Translation(shift=t))
        balls[0].moved(flat(t))
        outside_shell(S, balls, [p for b in balls for p in b.pts])
    elif op == 'add':
        sc.add_object(extra.vol)
        balls, prio = balls + [extra], prio + [1]
    sc.populate()
    claim(S, sc, balls, prio, 'population after changes')


def moved(S, n=3):
    """one of several objects is moved or refilled between two populations"""
    from czone.scene import Scene
    from czone.transform import Translation
    balls = [Slab(S, i, 1 if i else 0, priority=i % 2) for i in range(n)]
    prio = [i % 2 for i in range(n)]
    k = S.choice('which', tuple(range(n)))
    sc = Scene(objects=[b.vol for b in balls])
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    sc.populate()
    if S.choice('op', ('move', 'refill')) == 'move':
        t = S.vec('t', lo=-10, hi=10)
        balls[k].vol.transform(Translation(shift=t))
        balls[k].moved(flat(t))
    else:
        balls[k].pts = [flat(S.vec('new', lo=-10, hi=10))]
        balls[k].tags = [99]
        balls[k].vol.add_generator(point_generator(S, balls[k].pts, balls[k].tags))
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    sc.populate()
    claim(S, sc, balls, prio, 'population after changes')


def mixed(S):
    """a union object, a volume and a molecule in one scene: unions shadow with their whole interior,
    molecules are never cut and cut nothing"""
    from czone.scene import Scene
    from czone.volume import MultiVolume
    from czone.molecule import molecule
    pm, pv, pu = (S.choice('prio.' + k, (0, 1)) for k in 'mvu')
    balls = [Slab(S, i, n, lo=-6, hi=6) for i, n in enumerate((1, 0, 1))]
    mpos = flat(S.vec('m', lo=-6, hi=6))
    outside_shell(S, balls, [p for b in balls for p in b.pts] + [mpos])
    union = MultiVolume([balls[0].vol, balls[1].vol], priority=pu)
    balls[2].vol.priority = pv
    mol = molecule.Molecule(S.arr([77]), S.arr([mpos]))
    mol.priority = pm
    sc = Scene(objects=[mol, union, balls[2].vol])
    sc.populate()
    a, b, c = balls
    ap, cp = a.pts[0], c.pts[0]
    exp = [(a.tags[0], ap, S.And(a.inside(ap), S.Not(b.inside(ap)), S.Or(pv > pu, S.Not(c.inside(ap))))),
           (c.tags[0], cp, S.And(c.inside(cp), S.Or(pu > pv, S.And(S.Not(a.inside(cp)), S.Not(b.inside(cp)))))),
           (77, mpos, S.And(S.Or(pv > pm, S.Not(c.inside(mpos))),
                            S.Or(pu > pm, S.And(S.Not(a.inside(mpos)), S.Not(b.inside(mpos))))))]
    kept_exactly(S, 'scene', sc.all_species, sc.all_atoms, exp)


def cell(S):
    """scene bounds: exported cell is the extent; contributions can be looked up per object"""
    from czone.scene import Scene
    balls = [Slab(S, i, 2, priority=1 - i) for i in range(2)]
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    lo, hi = S.vec('lo', lo=-20, hi=0), S.vec('hi', lo=0, hi=20)
    sc = Scene(bounds=S.arr([flat(lo), flat(hi)]), objects=[b.vol for b in balls])
    sc.populate()
    exp = expected(S, balls, [1, 0])
    for k, ob in enumerate(sc.objects):
        pts = rows(sc.species_from_object(k))
        mine = [e for e in exp if any(e[0] in b.tags for b in balls if b.vol is ob)]
        S.check('per-object contribution has the right size',
                sum((S.ite(e[2], 1, 0) for e in mine), 0) == len(pts))
    S.eq('bounds are kept', sc.bounds, [flat(lo), flat(hi)])


CASES = [
    Case('pair-spheres', precedence, '2 sphere-bounded objects, one atom each', kwargs=dict(kind=Ball, levels=(-100000, 130))),
    Case('pair', precedence, '2 objects, 2 atoms each, priorities in {-3,0,2}', kwargs=dict(natoms=2, levels=(-3, 0, 2))),
    Case('triple', precedence, '3 objects, 1 atom each, priorities in {-12,0,5}', kwargs=dict(n=3, levels=(-12, 0, 5))),
    Case('triple-added', precedence, '3 objects added one at a time; one with two atoms, two with none',
         kwargs=dict(n=3, natoms=(2, 0, 0), levels=(0, 1, 2), one_by_one=True)),
    Case('quad', precedence, '4 objects, atoms in one', kwargs=dict(n=4, natoms=(1, 0, 0, 1), levels=(0, 1, 2)), thorough_only=True),
    Case('quad-levels', precedence, '4 objects on 3 priority levels, two with an atom',
         kwargs=dict(n=4, natoms=(0, 0, 1, 1), combos=((0, 1, 2, 2), (4, 3, 4, 4), (-2, 0, 5, 3)))),
    Case('moved', moved, '3 objects; one is moved or gets another generator between two populations'),
    Case('history', repopulated, 'populate; change priority / move / add object; populate'),
    Case('mixed', mixed, 'union of 2 volumes + volume + one-atom molecule, priorities in {0,1}'),
    Case('cell', cell, 'symbolic bounds'),
]
