"""C02: a union object behaves like one object: union interior, precedence inside, nesting."""
from engine.harness import Case, flat, rows
from props.common import Ball, Slab, kept_exactly, outside_shell, point_generator
from props.C01 import expected

ASSUMPTIONS = ["members are sphere- or plane-bounded volumes whose generators supply given atoms; "
               "points within 1e-3 of a boundary not claimed"]


def build(S, vols, how, priority=None):
    from czone.volume import MultiVolume
    kw = {} if priority is None else {'priority': priority}
    if how == 'constructor':
        return MultiVolume(volumes=vols, **kw)
    mv = MultiVolume(**kw)
    if how == 'listed':
        mv.add_volume(vols)
    else:
        for v in vols:
            mv.add_volume(v)
    return mv


def interior(S, kinds=('slab', 'ball', 'slab'), npts=2, nested=False):
    bare = S.choice('without generators', ((), (1,), (0, 1, 2)))
    balls = [(Slab if k == 'slab' else Ball)(S, i, None if i in bare else 0) for i, k in enumerate(kinds)]
    P = S.array('p', (npts, 3), -12, 12)
    outside_shell(S, balls, rows(P))
    mv = build(S, [b.vol for b in balls], S.choice('how', ('constructor', 'listed', 'single')))
    if nested:
        more = [Slab(S, k, None if bare else 0) for k in (7, 9)]
        outside_shell(S, more, rows(P))
        # the inner union comes first, second or last
        parts = [b.vol for b in more]
        parts.insert(S.choice('place', (0, 1, 2)), mv)
        mv = build(S, parts, S.choice('outer', ('constructor', 'listed', 'single')))
        balls = balls + more
    got = flat(mv.checkIfInterior(P))
    S.check('one answer per point', len(got) == npts)
    for k, p in enumerate(rows(P)):
        want = S.Or(*[b.inside(p) for b in balls])
        S.observe('in', got[k])
        S.check('interior is the union', S.Iff(got[k], want))
        one = flat(mv.checkIfInterior(S.arr(p)))
        S.check('a single point may be passed flat', S.Iff(one[0], want) if len(one) == 1 else False)


def precedence(S, n=2, natoms=1, levels=(0, 1), kind=Slab, how='constructor'):
    prio = [S.choice(f'prio{i}', levels) for i in range(n)]
    balls = [kind(S, i, natoms if isinstance(natoms, int) else natoms[i], priority=prio[i]) for i in range(n)]
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    mv = build(S, [b.vol for b in balls], how)
    mv.populate_atoms()
    exp = expected(S, balls, prio)
    kept_exactly(S, 'union', mv.species, mv.atoms, exp)
    nums, pos = S.atoms_view(mv.ase_atoms)
    kept_exactly(S, 'union (exported)', S.arr(nums), S.arr(pos) if len(pos) else pos, exp)
    # asking again changes nothing
    mv.populate_atoms()
    kept_exactly(S, 'union asked again', mv.species, mv.atoms, exp)


def nested(S):
    """precedence is resolved at each level of nesting"""
    pi = [S.choice(f'in.prio{i}', (0, 1)) for i in range(2)]
    po = [S.choice(f'out.prio{i}', (0, 1)) for i in range(2)]
    balls = [Slab(S, i, 1, priority=pi[i] if i < 2 else po[1]) for i in range(3)]
    outside_shell(S, balls, [p for b in balls for p in b.pts])
    inner = build(S, [b.vol for b in balls[:2]], 'constructor', priority=po[0])
    outer = build(S, [balls[2].vol, inner], 'constructor')
    outer.populate_atoms()
    exp = []
    for i in (0, 1):
        b, c = balls[i], balls[1 - i]
        p = b.pts[0]
        cond = S.And(b.inside(p), S.Or(pi[1 - i] > pi[i], S.Not(c.inside(p))),
                     S.Or(po[1] > po[0], S.Not(balls[2].inside(p))))
        exp.append((b.tags[0], p, cond))
    p = balls[2].pts[0]
    exp.append((balls[2].tags[0], p, S.And(balls[2].inside(p),
                S.Or(po[0] > po[1], S.Not(S.Or(balls[0].inside(p), balls[1].inside(p)))))))
    kept_exactly(S, 'nested union', outer.species, outer.atoms, exp)


def edits(S):
    """members added, re-prioritised or moved after a population"""
    op = S.choice('op', ('add', 'priority', 'move', 'move all'))
    lv = (0, 1) if op in ('add', 'priority') else (0,)
    prio = [S.choice(f'prio{i}', lv) for i in range(2)]
    balls = [Slab(S, i, 1, priority=prio[i]) for i in range(2)]
    extra = Slab(S, 2, 1, priority=0)
    outside_shell(S, balls + [extra], [p for b in balls + [extra] for p in b.pts])
    mv = build(S, [b.vol for b in balls], 'single')
    mv.populate_atoms()
    if op in ('move', 'move all'):
        from czone.transform import Translation
        t = S.vec('t', lo=-10, hi=10)
        (balls[0].vol if op == 'move' else mv).transform(Translation(shift=t, locked=False))
        for b in balls[:1] if op == 'move' else balls:
            b.moved(flat(t))
        outside_shell(S, balls, [p for b in balls for p in b.pts])
    elif op == 'add':
        mv.add_volume(extra.vol)
        balls, prio = balls + [extra], prio + [0]
    else:
        prio = [S.choice(f'newprio{i}', (-2, 0, 4)) for i in range(2)]
        for b, p in zip(balls, prio):
            b.vol.priority = p
    mv.populate_atoms()
    kept_exactly(S, 'union after edits', mv.species, mv.atoms, expected(S, balls, prio))
    got = flat(mv.checkIfInterior(S.arr([balls[0].pts[0]])))
    S.check('interior after edits', S.Iff(got[0], S.Or(*[b.inside(balls[0].pts[0]) for b in balls])))


CASES = [
    Case('interior', interior, '3 members, 2 points'),
    Case('interior-nested', interior, 'nested union of 3+2 members, in any place, 1 point', kwargs=dict(kinds=('slab', 'slab', 'slab'), npts=1, nested=True)),
    Case('interior-empty', interior, 'no members', kwargs=dict(kinds=(), npts=1)),
    Case('pair', precedence, '2 members, 2 and 1 atoms', kwargs=dict(natoms=(2, 1), levels=(-3, 0, 2))),
    Case('pair-wide', precedence, '2 members, 2 atoms each', kwargs=dict(natoms=2, levels=(-3, 0, 2)), thorough_only=True),
    Case('pair-spheres', precedence, '2 sphere-bounded members', kwargs=dict(kind=Ball)),
    Case('triple', precedence, '3 members, atoms in two, priorities in {0,5}', kwargs=dict(n=3, natoms=(1, 0, 1), levels=(0, 5), how='listed')),
    Case('triple-wide', precedence, '3 members, priorities in {0,1,5}', kwargs=dict(n=3, levels=(0, 1, 5), how='listed'), thorough_only=True),
    Case('quad', precedence, '4 members, atoms in two', kwargs=dict(n=4, natoms=(1, 0, 0, 1), levels=(0, 1, 2)), thorough_only=True),
    Case('nested', nested, 'union of (union of 2) and 1, all priorities in {0,1}'),
    Case('edits', edits, 'populate; add member / change priorities / move a member or all; populate'),
]
