"""C29: Wulff particles fill exactly the region inside the facets of the construction they ask for."""
import itertools
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["wulffpack's constructions are replaced by stand-ins with given facets: what is asked of wulffpack and "
               "what is built from its facets is judged, not wulffpack itself",
               "points within 2e-5 of a facet plane not claimed"]
NORMALS = ((1, 0, 0), (-1, 0, 0), (0, 0.6, 0.8), (0, -0.6, -0.8), (2 / 3, -1 / 3, 2 / 3), (0.48, 0.6, -0.64),
           (0, 11 / 61, 60 / 61), (0, 9 / 41, 40 / 41))
FACES = {'cube': {(1, 0, 0)}, 'octohedron': {(1, 1, 1)}, 'cuboctohedron': {(1, 0, 0), (1, 1, 1)},
         'truncated_octohedron': {(1, 0, 0), (1, 1, 0), (1, 1, 1)}}
ENERGY = {'cube': {(1, 0, 0): 1.0}, 'octohedron': {(1, 1, 1): 1.0}, 'cuboctohedron': {(1, 0, 0): 1.0, (1, 1, 1): 1.15},
          'truncated_octohedron': {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}}


class Facet:
    def __init__(self, normal, d):
        self.normal, self.distance_from_origin = normal, d


def stand_ins(S, n, low=0.1):
    """record what wulffpack is asked for; every particle has the same n facets at free distances"""
    import wulffpack
    from fractions import Fraction
    asked = []
    first = S.choice('first', (0, 2, 5))
    facets = []
    for k in range(n):
        v = NORMALS[(first + k) % len(NORMALS)]
        # the facet at the interface of a wetting particle lies behind its center
        facets.append((v, S.real(f'd{k}', low if k == 0 else 0.1, 20)))

    def make(name):
        class Particle:
            def __init__(self, *a, **kw):
                names = (('surface_energies',) if name == 'SingleCrystal' else
                         ('surface_energies', 'interface_direction', 'interface_energy'))
                names += ('primitive_structure', 'natoms')
                arg = dict(zip(names, a), **kw)
                arg['surface_energies'] = dict(arg['surface_energies'])
                asked.append((name, arg))

            def _yield_facets(self):
                for v, d in facets:
                    yield Facet(S.arr(list(v)), d)

            @property
            def forms(self):
                class Form:
                    facets = list(self._yield_facets())
                return [Form]

            facet_fractions = {(1, 0, 0): 0.25, (1, 1, 1): 0.75}
        return Particle
    for nm in ('SingleCrystal', 'Winterbottom'):
        S.stand_in(getattr(wulffpack, nm), make(nm))
    return asked, facets


def crystal(S):
    from czone.generator import Generator
    a = S.real('a', 2, 6)
    S.origin = [0.25, 0.5, 0]
    g = Generator(structure=S.structure([[a, 0, 0], [0, a, 0], [0, 0, a]], [29], [[0.25, 0.5, 0]]))
    return g, a


def region(S, v, facets, label):
    p = flat(S.vec('p', lo=-25, hi=25))
    m = [S.dot(list(n), p) - d for n, d in facets]
    for x in m:
        S.assume(S.Or(x > 2e-5, x < -1e-6))
    inside = v.checkIfInterior(S.arr([p]))
    S.check(label + ': filled exactly inside every facet', S.Iff(inside[0], S.And(*[x < 0 for x in m])))


def given(S, label, arg, energies, natoms, a):
    S.check(label + ': wulffpack gets the surface energies', arg['surface_energies'] == energies)
    S.check(label + ': wulffpack gets the size', arg['natoms'] == natoms and isinstance(arg['natoms'], int))
    at = arg['primitive_structure']
    S.eq(label + ': wulffpack gets the primitive cell', rows(at.cell[:] if hasattr(at.cell, 'cellpar') else at.cell),
         [[a, 0, 0], [0, a, 0], [0, 0, a]])
    S.eq(label + ': wulffpack gets the atoms of the cell', rows(at.positions), [[a * x for x in S.origin]])


def made_of(S, v, g):
    h = v.generator
    S.check('the particle is made of the crystal given', flat(h.species) == flat(g.species))
    S.eq('the particle has the lattice of the crystal', rows(h.voxel.sbases), rows(g.voxel.sbases))
    S.eq('the particle has the atoms of the crystal', rows(h.coords), rows(g.coords))
    S.eq('the particle has the position of the crystal', flat(h.voxel.origin), flat(g.voxel.origin))


ENERGIES = ({(1, 0, 0): 1.0, (1, 1, 1): 0.875}, {(1, 1, 0): 2.5}, {(1, 0, 0): 1.0, (1, 1, 1): 1.15, (2, 1, 0): 1.25})


def construction(S, n=4):
    from czone.prefab.wulff import WulffSingle
    asked, facets = stand_ins(S, n)
    g, a = crystal(S)
    en = S.choice('energies', ENERGIES)
    size = S.choice('size', (None, 1, 30, 2000.0, 10**6))
    w = WulffSingle(g, dict(en)) if size is None else WulffSingle(g, dict(en), natoms=size)
    mode = S.choice('mode', ('plain', 'areas', 'get_areas'))
    want = 1000 if size is None else int(size)
    if mode == 'get_areas':
        S.check('facet areas', w.get_areas() == {(1, 0, 0): 0.25, (1, 1, 1): 0.75})
        v = w.get_construction()
    elif mode == 'areas':
        v, ar = w.get_construction(return_facet_areas=True)
        S.check('facet areas', ar == {(1, 0, 0): 0.25, (1, 1, 1): 0.75})
    else:
        v = w.get_construction()
    S.check('wulffpack builds a single crystal', len(asked) >= 1 and all(k == 'SingleCrystal' for k, _ in asked))
    given(S, 'construction', asked[-1][1], en, want, a)
    region(S, v, facets, 'construction')
    made_of(S, v, g)


def changed(S, n=2):
    """size, energies or crystal changed after a first construction"""
    from czone.prefab.wulff import WulffSingle
    asked, facets = stand_ins(S, n)
    g, a = crystal(S)
    en, size = ENERGIES[0], 800
    w = WulffSingle(g, dict(en), size)
    w.get_construction()
    what = S.choice('what', ('size', 'energies', 'same facets', 'crystal', 'nothing'))
    if what == 'size':
        w.natoms = size = 300
    elif what == 'energies':
        w.surface_energies = en = dict(ENERGIES[2])
    elif what == 'same facets':
        w.surface_energies = en = {k: e + S.choice('more', (0.25, -0.125)) for k, e in ENERGIES[0].items()}
    elif what == 'crystal':
        from czone.generator import Generator
        a = S.real('b', 2, 6)
        g = Generator(structure=S.structure([[a, 0, 0], [0, a, 0], [0, 0, a]], [79], [[0.25, 0.5, 0]]))
        w.generator = g
    v = w.get_construction()
    given(S, 'after a change', asked[-1][1], en, size, a)
    region(S, v, facets, 'after a change')
    made_of(S, v, g)


def named(S, n=2):
    """convenience constructors"""
    from czone.prefab.wulff import WulffSingle
    asked, facets = stand_ins(S, n)
    g, a = crystal(S)
    shape = S.choice('shape', sorted(FACES))
    size = S.choice('size', (None, 600))
    v = getattr(WulffSingle, shape)(g) if size is None else getattr(WulffSingle, shape)(g, natoms=size)
    arg = asked[-1][1]
    S.check('named shapes have their facets', set(arg['surface_energies']) == FACES[shape])
    given(S, shape, arg, ENERGY[shape], size or 1000, a)
    region(S, v, facets, shape)
    made_of(S, v, g)


def winterbottom(S, n=3):
    from czone.prefab.wulff import WulffSingle
    asked, facets = stand_ins(S, n, low=-5)
    g, a = crystal(S)
    en = S.choice('energies', ENERGIES[:2])
    face = S.choice('interface', ((1, 1, 1), (0, 0, 1)))
    e = S.choice('interface energy', (0.25, -0.5, 0, 0.875, 3.5))
    w = WulffSingle(g, dict(en), 700)
    v = w.winterbottom(face, e)
    S.check('wulffpack builds a particle on a surface', [k for k, _ in asked] == ['Winterbottom'])
    arg = asked[-1][1]
    given(S, 'winterbottom', arg, en, 700, a)
    S.check('wulffpack gets the interface', tuple(arg['interface_direction']) == face)
    S.check('wulffpack gets the interface energy', arg['interface_energy'] == e)
    region(S, v, facets, 'winterbottom')
    made_of(S, v, g)


def centred(S, n=2):
    """crystals with centred cells: wulffpack gets a smallest cell of the same crystal"""
    from czone.prefab.wulff import WulffSingle
    from czone.generator import Generator
    asked, facets = stand_ins(S, n)
    a = S.real('a', 2, 6)
    kind, sites = S.choice('cell', (('fcc', [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]), ('bcc', [[0, 0, 0], [0.5, 0.5, 0.5]]),
                                    ('diamond', [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5],
                                                 [0.25, 0.25, 0.25], [0.75, 0.75, 0.25], [0.75, 0.25, 0.75], [0.25, 0.75, 0.75]])))
    k, many = {'fcc': (4, 1), 'bcc': (2, 1), 'diamond': (4, 2)}[kind]
    g = Generator(structure=S.structure([[a, 0, 0], [0, a, 0], [0, 0, a]], [29] * len(sites), sites))
    w = WulffSingle(g, dict(ENERGIES[0]), 500)
    v = w.get_construction()
    at = asked[-1][1]['primitive_structure']
    cell = rows(at.cell[:] if hasattr(at.cell, 'cellpar') else at.cell)
    S.eq('a smallest cell', k * S.abs(S.det3(cell)), a * a * a, tol=1e-5)
    pos = rows(at.positions)
    S.check('the atoms of a smallest cell', len(pos) == many)

    even = (lambda h: len({x % 2 for x in h}) == 1) if kind == 'bcc' else (lambda h: sum(h) % 2 == 0)
    for r in cell:
        S.check('vectors of the crystal', S.Or(*[S.close([2 * x for x in r], [a * y for y in h], 1e-5)
                                                 for h in itertools.product((-2, -1, 0, 1, 2), repeat=3) if even(h)]))
    if many == 2:       # the second atom is a quarter of the diagonal away, up to vectors of the crystal
        d = S.sub(pos[1], pos[0])
        S.check('the second atom', S.Or(*[S.close([4 * x for x in d], [a * y for y in h], 1e-5)
                                          for h in itertools.product((-3, -1, 1, 3), repeat=3) if any(
                                              sum((x - e) // 2 for x in h) % 2 == 0 for e in (1, -1))]))
    region(S, v, facets, 'centred crystal')
    made_of(S, v, g)


def rejected(S):
    """bad sizes, energies and crystals are refused and change nothing"""
    from czone.prefab.wulff import WulffSingle
    from czone.generator import AmorphousGenerator
    asked, facets = stand_ins(S, 2)
    g, a = crystal(S)
    en = dict(ENERGIES[0])
    w = WulffSingle(g, dict(en), 400)
    bad = S.choice('bad', ('size', 'key', 'value', 'crystal'))

    def do():
        if bad == 'size':
            w.natoms = S.choice('badsize', ('many', None, [3]))
        elif bad == 'key':
            w.surface_energies = S.choice('badkey', ({'100': 1.0}, {(1, 0, 0): 1.0, 111: 2.0}))
        elif bad == 'value':
            w.surface_energies = S.choice('badvalue', ({(1, 0, 0): '1'}, {(1, 0, 0): 1.0, (1, 1, 1): None}))
        else:
            w.generator = S.choice('badgen', (None, 'Au', AmorphousGenerator()))
    S.check('refused', S.raises(do))
    v = w.get_construction()
    given(S, 'after a refusal', asked[-1][1], en, 400, a)
    S.check('the crystal is kept', w.generator is g)
    made_of(S, v, g)


CASES = [
    Case('construction', construction, '4 facets with fixed normals at any distance, any point, any cubic cell; 3 sets of energies'),
    Case('changed', changed, '2 facets; size, energies or crystal changed after a first construction'),
    Case('named', named, 'the four named shapes, 2 facets'),
    Case('winterbottom', winterbottom, '3 facets, one possibly behind the center, 2 interfaces, 2 energies'),
    Case('centred', centred, 'face-centred, body-centred and diamond cells of any size'),
    Case('rejected', rejected, 'sizes, energies and crystals of the wrong kind'),
    Case('construction-6', construction, '6 facets', kwargs=dict(n=6), thorough_only=True),
]
