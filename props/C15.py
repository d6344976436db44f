"""C15: amorphous blocks respect the minimum separation, the box and the density."""
from fractions import Fraction
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["random numbers are free values in [0,1); runs that reject more than the stated number of draws are cut"]


def sep2(S, a, b, dims):
    """squared distance, periodic in x and y"""
    s = 0
    for k in range(3):
        d = S.abs(a[k] - b[k])
        if k < 2:
            d = S.min(d, dims[k] - d)
        s = s + d * d
    return s


def claim(S, got, dims, md, n, e=1e-9, pos=None):
    S.check('number of atoms follows the density', len(got) == n)
    for p in got:
        for k in range(3):
            S.check('atoms lie inside the box', S.And(p[k] >= -e, p[k] <= dims[k] + e))
    for i in range(len(got)):
        for j in range(i):
            S.check('no two atoms closer than the minimum distance (periodic in x and y)',
                    sep2(S, got[j], got[i], dims) >= md * md * (1 - 1e-9))


def substrate(S, dims, md, n, batch=None, vox=2.0, sym_md=None, seed=0, tries=None, loud=False):
    S.purify()
    S.max_draws(3 * (tries or n))
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    vol = dims[0] * dims[1] * dims[2]
    density = n / float(vol)
    if sym_md:
        md = S.real('md', *sym_md)
    if batch is None:
        out = gen_p_substrate(list(dims), min_dist=md, density=density, seed=seed, print_progress=loud)
    else:
        out = gen_p_substrate_batched(list(dims), min_dist=md, density=density, batch_size=batch, voxel_scale=vox, seed=seed, print_progress=loud)
    claim(S, rows(out), dims, md, n)


def crowded(S, batch=None, md=0.72, where=(26,), xs=((0.02, 0.5), (0.98, 0.03), (0.32, 0.67), (0.6, 0.4)), redraw=(), dims=(3.0, 3.0, 3.2), vox=1.2):
    """a block already holding many atoms: the last one may land anywhere, and keeps its distance from all of them"""
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    S.purify()
    grid = [((i + 0.5) / 3 + 0.01 * k, (j + 0.5) / 3 - 0.01 * i, (k + 0.5) / 3 + 0.005 * j) for k in range(3) for j in range(3) for i in range(3)]
    # far apart ones in mixed order, some near the sides
    grid = [grid[(7 * m + 2) % 27] for m in range(27)][:S.choice('atoms', where)]
    x0 = S.choice('line', xs)
    # candidates on top of an atom already there are turned down before the last one is drawn
    bad = [x for m in redraw for x in grid[m]]
    S.script_draws([x for p in grid for x in p] + bad + list(x0 or ()))
    S.max_draws(3 - len(x0 or ()))
    n = len(grid) + 1
    kw = {} if batch is None else dict(batch_size=batch, voxel_scale=vox)
    f = gen_p_substrate if batch is None else gen_p_substrate_batched
    got = rows(f(list(dims), min_dist=md, density=n / float(dims[0] * dims[1] * dims[2]), **kw))
    S.check('number of atoms follows the density', len(got) == n)
    last = got[-1]
    for k in range(3):
        S.check('atoms lie inside the box', S.And(last[k] >= -1e-9, last[k] <= dims[k] + 1e-9))
    S.check('no two atoms closer than the minimum distance (periodic in x and y)',
            S.And(*[sep2(S, p, last, dims) >= md * md * (1 - 1e-9) for p in got[:-1]]))


def symbolic_box(S, n=1, rho=0.05):
    """any box: the number of atoms is the rounded density times volume"""
    from czone.generator.amorphous_algorithms import gen_p_substrate
    S.purify()
    S.max_draws(3 * n)
    a = S.real('a', 2, 5)
    dims = [a, 3.0, 2.5]
    out = rows(gen_p_substrate(dims, min_dist=2.4, density=rho))
    m = len(out)
    x = a * (7.5 * rho)
    S.check('number of atoms follows the density', S.And(x - m <= 0.5 + 1e-9, m - x <= 0.5 + 1e-9))
    for p in out:
        for k in range(3):
            S.check('atoms lie inside the box', S.And(p[k] >= -1e-9, p[k] <= dims[k] + 1e-9))
    for i in range(m):
        for j in range(i):
            S.check('no two atoms closer than the minimum distance (periodic in x and y)',
                    sep2(S, out[j], out[i], dims) >= 5.76 * (1 - 1e-9))


def region(S, shape='box'):
    """the amorphous generator fills the region it is asked for, at its own settings"""
    from czone.generator import AmorphousGenerator
    S.purify()
    S.max_draws(6)
    lo = flat(S.vec('lo', lo=-20, hi=20))
    dims = (4.0, 2.0, 2.0)
    n = 2
    g = AmorphousGenerator(min_dist=1.9, density=n / 16.0, species=S.choice('Z', (6, 14)))
    Z = g.species
    if shape == 'box':
        V = [[lo[0] + dims[0] * i, lo[1] + dims[1] * j, lo[2] + dims[2] * k] for i in (0, 1) for j in (1, 0) for k in (0, 1)]
    else:
        V = [[lo[0], lo[1] + 1, lo[2]], [lo[0] + 4, lo[1], lo[2] + 1], [lo[0] + 1, lo[1] + 2, lo[2] + 2], [lo[0] + 2, lo[1] + 1, lo[2] + 1]]
    coords, species = g.supply_atoms(S.arr(V))
    got = rows(coords)
    S.check('one element per atom', len(flat(species)) == len(got))
    S.check('atoms are of the chosen element', S.And(*[s == Z for s in flat(species)]))
    claim(S, [S.sub(p, lo) for p in got], dims, 1.9, n)
    again = S.choice('again', ('reuse', 'new', 'elsewhere') if shape == 'box' else ('reuse', 'new'))
    if again == 'elsewhere':
        S.max_draws(12)
        sh = flat(S.vec('sh', lo=-20, hi=20))
        c2, s2 = g.supply_atoms(S.arr([S.addv(p, sh) for p in V]))
        S.check('one element per atom', len(flat(s2)) == len(rows(c2)))
        claim(S, [S.sub(S.sub(p, lo), sh) for p in rows(c2)], dims, 1.9, n)
    if again == 'reuse':
        g.use_old_result = True
        sh = flat(S.vec('sh', lo=-20, hi=20)) if S.choice('where', ('same', 'other')) == 'other' else [0, 0, 0]
        c2, s2 = g.supply_atoms(S.arr([S.addv(p, sh) for p in V]))
        S.check('re-used result is the previous one', S.And(len(rows(c2)) == len(got), *[S.same(a, b) for a, b in zip(rows(c2), got)]))


def box(*a, **k):
    return dict(k, dims=a[0], md=a[1], n=a[2])


CASES = [
    Case('two-atoms', substrate, '2 atoms in 4.2x1.5x2.2, minimum distance 1 (4x1x2 blocks), no rejections', kwargs=box((4.2, 1.5, 2.2), 1.0, 2)),
    Case('two-atoms-tall', substrate, '2 atoms in 2.2x2.2x6.5, minimum distance 2 (single block across), up to one rejected draw', kwargs=box((2.2, 2.2, 6.5), 2.0, 2, tries=3)),
    Case('two-atoms-redraw', substrate, '2 atoms in 2.2x2.2x1.5, minimum distance 1 (2x2x1 blocks), up to one rejected draw', kwargs=box((2.2, 2.2, 1.5), 1.0, 2, tries=3)),
    Case('three-atoms', substrate, '3 atoms in 2.2x2.2x2.2, minimum distance 1.2 (one block), no rejections', kwargs=box((2.2, 2.2, 2.2), 1.2, 3)),
    Case('loud', substrate, '1 atom with progress printed', kwargs=box((2.2, 2.2, 2.2), 1.2, 1, loud=True)),
    Case('loud-batched', substrate, '1 atom with progress printed, batches of 1', kwargs=box((2.2, 2.2, 2.2), 1.2, 1, batch=1, loud=True)),
    Case('any-box', symbolic_box, 'box of any width 2..5, 0, 1 or 2 atoms', kwargs=dict(n=2)),
    Case('batched', substrate, '2 atoms in one batch of 2 candidates, 4.2x1.5x1.5', kwargs=box((4.2, 1.5, 1.5), 1.0, 2, batch=2, vox=1.0)),
    Case('batched-over', substrate, '1 atom, batch of 3 candidates', kwargs=box((4.2, 1.5, 1.5), 1.0, 1, batch=3, vox=1.0, tries=3)),
    Case('batched-sequence', substrate, '2 atoms, batches of 1 candidate, up to one rejected', kwargs=box((4.2, 1.5, 1.5), 1.0, 2, batch=1, vox=1.0, tries=3)),
    Case('batched-3', substrate, '3 atoms, batches of 1 candidate, one block', kwargs=box((2.2, 2.2, 2.2), 1.2, 3, batch=1, vox=1.0, tries=3)),
    Case('crowded', crowded, '26 atoms in place, one more anywhere on 4 lines (4x4x4 blocks)'),
    Case('crowded-batched', crowded, '12 atoms in place, one more anywhere on 2 planes, batches of 1', kwargs=dict(batch=1, where=(12,), xs=((0.02,), (0.45,)))),
    Case('crowded-redraw', crowded, '26 atoms in place, two candidates turned down, one more anywhere on 2 lines', kwargs=dict(redraw=(3, 17), xs=((0.02, 0.5), (0.6, 0.4)))),
    Case('crowded-batched-redraw', crowded, '12 atoms in place, two candidates turned down, one more anywhere on 2 lines, batches of 1', kwargs=dict(batch=1, where=(12,), redraw=(3, 8), xs=((0.02, 0.5), (0.6, 0.4)))),
    Case('crowded-long', crowded, '26 atoms in place in a box of 5x3x4 blocks, one more anywhere on 2 lines', kwargs=dict(dims=(3.9, 2.3, 3.2), md=0.7, xs=((0.02, 0.5), (0.6, 0.4)))),
    Case('crowded-batched-long', crowded, '12 atoms in place in a box of 3x5x3 blocks, one more anywhere on 2 lines, batches of 1', kwargs=dict(batch=1, where=(12,), dims=(2.7, 4.3, 3.2), xs=((0.02, 0.5), (0.6, 0.4)))),
    Case('crowded-anywhere', crowded, '12 or 26 atoms in place, one more anywhere', kwargs=dict(where=(12, 26), xs=(None,)), thorough_only=True),
    Case('crowded-batched-more', crowded, '12 or 26 atoms in place, one more anywhere, batches of 1', kwargs=dict(batch=1, where=(12, 26), xs=(None,)), thorough_only=True),
    Case('region', region, 'box region anywhere, 2 elements'),
    Case('two-atoms-large', substrate, '2 atoms in 4.1x2.2x3.3, minimum distance 1 (4x2x3 blocks), up to one rejected draw', kwargs=box((4.1, 2.2, 3.3), 1.0, 2, tries=3), thorough_only=True),
    Case('three-atoms-large', substrate, '3 atoms in 3x2.5x2, minimum distance 1.2 (2x2x1 blocks), no rejections', kwargs=box((3.0, 2.5, 2.0), 1.2, 3), thorough_only=True),
    Case('batched-twice', substrate, '2 atoms, two batches of 2 candidates, 4.2x1.5x1.5', kwargs=box((4.2, 1.5, 1.5), 1.0, 2, batch=2, vox=1.0, tries=4), thorough_only=True),
    Case('batched-large', substrate, '3 atoms, batches of 2 candidates', kwargs=box((4.2, 2.5, 1.5), 1.0, 3, batch=2, vox=1.0, tries=4), thorough_only=True),
]
