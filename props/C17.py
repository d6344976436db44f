"""C17: neighbour lists of voxel grids are complete and contain only neighbours, with and without wrap-around."""
from engine.harness import Case, flat

ASSUMPTIONS = []


def adjacent(S, a, b, dim, per):
    cs = []
    for k in range(3):
        d = a[k] - b[k]
        near = S.And(d <= 1, d >= -1)
        if per[k]:
            near = S.Or(near, d == dim[k] - 1, d == 1 - dim[k])
        cs.append(near)
    return S.And(*cs)


def some_voxel(S, name, dim):
    v = [S.int(f'{name}{k}', 0, 4) for k in range(3)]
    for k in range(3):
        S.assume(v[k] < dim[k])
    return v


def member(S, a, b, table):
    """(a, b) is in the table {index: neighbours}"""
    return S.Or(*[S.And(a == i, S.Or(*[b == j for j in sorted(set(js))])) for i, js in table.items()])


def grid(S, dims=None, hi=3, flags=None):
    from czone.util.measure import get_voxel_grid
    dim = tuple(dims) if dims else tuple(S.fork_int(f'n{k}', 1, hi) for k in range(3))
    per = [S.choice(f'periodic{k}', (True, False)) for k in range(3)] if flags is None else list(flags)
    N = dim[0] * dim[1] * dim[2]
    nb = get_voxel_grid(dim, *per)
    S.check('one neighbour list per voxel', len(nb) == N)
    table = {i: [int(x) for x in flat(list(nb[i]))] for i in range(N)}
    a, b = some_voxel(S, 'a', dim), some_voxel(S, 'b', dim)
    ia = a[0] + dim[0] * a[1] + dim[0] * dim[1] * a[2]
    ib = b[0] + dim[0] * b[1] + dim[0] * dim[1] * b[2]
    S.check('listed exactly when adjacent', S.Iff(member(S, ia, ib, table), adjacent(S, a, b, dim, per)))
    S.check('lists stay within the grid', all(0 <= j < N for js in table.values() for j in js))


def blocks(S, md=1.0, top=3.5):
    """neighbour blocks of the periodic substrate: wrap-around in x and y only; blocks no smaller than the distance"""
    from czone.generator.amorphous_algorithms import get_voxels, get_num_blocks
    import numpy as np
    box = S.arr([S.real(f'L{k}', 0.5, top) for k in range(3)])
    nb = get_num_blocks(md, box)
    dim = [int(x) for x in flat(nb)]
    for k in range(3):
        L = flat(box)[k]
        S.check('blocks are no smaller than the distance, where there are several', S.Or(dim[k] == 1, L >= dim[k] * md))
        S.check('as many blocks as fit', L < (dim[k] + 1) * md)
    vox, nbr = get_voxels(md, box)
    S.check('one list per block', len(vox) == dim[0] == len(nbr) and all(len(r) == dim[1] for r in vox + nbr)
            and all(len(c) == dim[2] for r in vox + nbr for c in r))
    S.check('blocks start empty', all(len(c) == 0 for r in vox for q in r for c in q))
    S.check('blocks are separate lists', len({id(c) for r in vox for q in r for c in q}) == dim[0] * dim[1] * dim[2])
    a, b = some_voxel(S, 'a', dim), some_voxel(S, 'b', dim)
    listed = S.Or(*[S.And(a[0] == i, a[1] == j, a[2] == k,
                          S.Or(*[S.And(*[b[m] == int(t[m]) for m in range(3)]) for t in set(tuple(int(x) for x in t) for t in nbr[i][j][k])]))
                    for i in range(dim[0]) for j in range(dim[1]) for k in range(dim[2])])
    S.check('listed exactly when adjacent', S.Iff(listed, adjacent(S, a, b, dim, (True, True, False))))


def located(S, top=3.5, md=1.0):
    """every coordinate of the box belongs to a block that covers it"""
    from czone.generator.amorphous_algorithms import get_block, get_num_blocks
    box = S.arr([S.real(f'L{k}', 0.5, top) for k in range(3)])
    u = [S.real(f'u{k}', 0, 1) for k in range(3)]
    x = [u[k] * flat(box)[k] for k in range(3)]
    nb = get_num_blocks(md, box)
    blk = [int(q) for q in flat(get_block(S.arr([x]), nb, box))]
    dim = [int(q) for q in flat(nb)]
    for k in range(3):
        S.check('block index is in range', 0 <= blk[k] < dim[k])
        S.check('coordinate lies in its block', S.And(u[k] * dim[k] >= blk[k] - 1e-9, u[k] * dim[k] <= blk[k] + 1 + 1e-9))


CASES = [
    Case('grid', grid, 'all grids of 1..3 voxels per direction, any periodicity, any pair of voxels'),
    Case('grid-434', grid, 'grid of 4x3x4', kwargs=dict(dims=(4, 3, 4))),
    Case('grid-256', grid, 'grid of 2x5x4, substrate periodicity', kwargs=dict(dims=(2, 5, 4), flags=(True, True, False))),
    Case('grid-wide', grid, 'all grids of 1..5 voxels per direction', kwargs=dict(hi=5), thorough_only=True),
    Case('blocks', blocks, 'any box of 0.5 to 3.5 minimum distances'),
    Case('located', located, 'any coordinate in any box of 0.5 to 3.5 minimum distances'),
]
