"""C34: the drawn views show every atom of the scene once per panel, in the projection their titles name."""
from engine.harness import Case, flat, rows
from props.common import Slab

ASSUMPTIONS = ["matplotlib is replaced by a recorder of its 3D axes during symbolic execution (points scattered, angles, limits, texts); "
               "the replay reads real figures"]
PROJ = {'XY projection': (-90, 90, (0, 1)), 'XZ projection': (-90, 0, (0, 2)), 'YZ projection': (0, 0, (1, 2))}
AX = 'XYZ'


def frame(S, panels, azim, elev):
    """four panels: the three projections, seen along their axis, and one at the angles asked for"""
    S.check('four panels', len(panels) == 4)
    rest = []
    titles = [p.title for p in panels]
    for t, (a, e, ax) in PROJ.items():
        S.check('one panel per projection', titles.count(t) == 1)
        p = panels[titles.index(t)]
        S.eq('a projection is seen along its axis', [p.azim, p.elev], [a, e])
        for k in ax:
            S.check('axes of a projection are named', p.label[k] == AX[k])
    rest = [p for p in panels if p.title not in PROJ]
    S.check('one free view', len(rest) == 1)
    S.eq('the free view has the angles asked for', [rest[0].azim, rest[0].elev], [azim, elev])


def shows(S, p, want):
    """want: (position, condition); every wanted one once, nothing else"""
    got = [q for g in p.groups for q in g]
    n = sum((S.ite(c, 1, 0) for _, c in want), 0)
    S.check('as many points as atoms', n == len(got))
    for x, c in want:
        S.check('every atom is shown in every panel', S.Implies(c, S.Or(*[S.same(x, q) for q in got])))
    for q in got:
        S.check('nothing else is shown', S.Or(*[S.And(c, S.same(x, q)) for x, c in want]))


def angles(S):
    kw, want = {}, [-60, 30]
    how = S.choice('angles', ('default', 'given', 'azim'))
    if how != 'default':
        want[0] = kw['azim'] = S.real('azim', -180, 180)
    if how == 'given':
        want[1] = kw['elev'] = S.real('elev', -90, 90)
    return kw, want


def points(S, n=3):
    from czone.viz import viz
    P = [flat(S.vec(f'p{i}')) for i in range(n)]
    kw, want = angles(S)
    got = S.panels(lambda: viz.simple_view_with_rotate(S.arr(P), **kw))
    frame(S, got, *want)
    for p in got:
        shows(S, p, [(x, True) for x in P])
        S.check('points are drawn in order', all(len(p.groups) == 1 and S.And(*[S.same(a, b) for a, b in zip(p.groups[0], P)]) for _ in (0,)))


def scene(S, n=2, m=1):
    from czone.viz import viz
    from czone.scene import Scene
    from czone.molecule import molecule
    which = S.choice('view', ('simple_scene_view', 'simple_scene_view_with_rotate'))
    species = S.choice('species', ([6, 79, 8], [79, 79, 6], [8, 8, 8]))
    A = Slab(S, 0, n)
    A.tags[:] = species[:n]
    q = [flat(S.vec(f'm{i}')) for i in range(m)]
    mol = molecule.Molecule(S.arr(species[n:n + m]), S.arr(q))
    mol.priority = -1      # (the slab keeps its atoms, the molecule keeps its own)
    want = [(p, z, A.inside(p)) for p, z in zip(A.pts, A.tags)] + [(x, z, True) for x, z in zip(q, species[n:])]
    size, kw = ([0] * 3, [10] * 3), {}
    if S.choice('bounds', ('default', 'given')) == 'given':
        size = [flat(S.vec('lo', lo=-20, hi=20)), flat(S.vec('hi', lo=-20, hi=20))]
        for a, b in zip(*size):
            S.assume(a + 0.01 < b)
        kw['bounds'] = S.arr(size)
    s = Scene(objects=[A.vol, mol], **kw)
    for p, *_ in want:
        S.assume(A.clear(p, 0.001))
    s.populate()
    kw, ang = angles(S)
    got = S.panels(lambda: getattr(viz, which)(s, **kw))
    frame(S, got, *ang)
    for p in got:
        shows(S, p, [(x, c) for x, _, c in want])
        for k in range(3):
            S.eq('the panel spans the bounds of the scene', list(p.lim[k]), [size[0][k], size[1][k]])
        # one group of points (one colour) per element
        for z in set(species):
            own = [x for x, y, _ in want if y == z]
            other = [x for x, y, _ in want if y != z]
            for g in p.groups:
                S.check('elements are told apart', S.Or(len(g) == 0, S.And(*[S.Or(*[S.same(a, x) for x in own]) for a in g]),
                                                       S.And(*[S.Or(*[S.same(a, x) for x in other]) for a in g])))
    S.check('the scene is left as it was', S.And(*[S.same(a, b) for a, b in zip(rows(mol.atoms), q)]))


def refused(S):
    from czone.viz import viz
    which = S.choice('view', ('simple_scene_view', 'simple_scene_view_with_rotate'))
    what = S.choice('what', ('array', 'none', 'volume'))
    A = Slab(S, 0, 1)
    x = {'array': S.arr([flat(S.vec('p'))]), 'none': None, 'volume': A.vol}[what]
    S.check('what is not a scene is refused', S.raises(lambda: getattr(viz, which)(x), TypeError))


def widget(S, n=2):
    """the interactive views redraw the same figure for whatever angles the sliders are at"""
    from czone.viz import viz
    from czone.scene import Scene
    which = S.choice('widget', ('points', 'scene'))
    A = Slab(S, 0, n)
    if which == 'scene':
        x = Scene(objects=[A.vol])
        for p in A.pts:
            S.assume(A.clear(p, 0.001))
        x.populate()
        want = [(p, A.inside(p)) for p in A.pts]
    else:
        x = S.arr(A.pts)
        want = [(p, True) for p in A.pts]
    draw, kw = S.interactive(viz, lambda: (viz.simple_view_widget if which == 'points' else viz.simple_scene_widget)(x))
    ang, fixed = {}, {}
    for k, v in kw.items():
        if hasattr(v, 'min') and hasattr(v, 'max') and hasattr(v, 'step'):
            ang[k] = v
        else:
            fixed[k] = getattr(v, 'value', v)
    S.check('sliders for both angles', sorted(ang) == ['azim', 'elev'])
    S.eq('sliders start at the default view', [ang['azim'].value, ang['elev'].value], [-60, 30])
    S.check('every direction can be reached', ang['azim'].max - ang['azim'].min >= 360 and ang['elev'].min <= -90 and ang['elev'].max >= 90)
    az, el = S.real('azim', ang['azim'].min, ang['azim'].max), S.real('elev', ang['elev'].min, ang['elev'].max)
    got = S.panels(lambda: draw(azim=az, elev=el, **fixed))
    frame(S, got, az, el)
    for p in got:
        shows(S, p, want)


CASES = [
    Case('widget', widget, 'both interactive views, 2 atoms, sliders anywhere'),
    Case('points', points, '3 points anywhere, any angles'),
    Case('scene', scene, 'a slab with 2 atoms and a molecule, 3 assignments of elements, any bounds, any angles'),
    Case('refused', refused, '3 things that are not scenes'),
]
