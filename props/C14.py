"""C14: chemical substitution and other post-generation steps change only what they say, in order."""
from fractions import Fraction
from engine.harness import Case, flat, rows

ASSUMPTIONS = ["random numbers are free values in [0,1), equal for equal seeds"]


def ints(x):
    return [v if not isinstance(v, float) else int(v) for v in flat(x)]


def only_targets(S, species, target, substitute):
    """every atom keeps its element unless it is a target, and then becomes its substitute or stays"""
    from czone.transform.post import ChemicalSubstitution
    frac = S.real('frac', 0, 1)
    P = S.array('p', (len(species), 3))
    before = rows(P)
    sp = S.arr([float(x) for x in species]) if S.choice('dtype', ('float', 'int')) == 'float' else S.arr(list(species))
    cs = ChemicalSubstitution(list(target), list(substitute), frac)
    seed = S.choice('seed', (None, 3))
    kw = {} if seed is None else {'seed': seed}
    q, out = cs.apply_function(P, sp, **kw)
    out = ints(out)
    S.check('one element per atom', len(out) == len(species))
    S.check('atoms are neither added nor removed', len(rows(q)) == len(species))
    for a, b, c in zip(rows(q), before, rows(P)):
        S.eq('positions are unchanged', a, b)
        S.eq('positions are unchanged', c, b)
    for x, y in zip(species, out):
        allowed = [x] + [s for t, s in zip(target, substitute) if t == x]
        S.check('only target atoms change, to their substitute', S.Or(*[y == a for a in allowed]))
        S.check('nothing is replaced at fraction zero', S.Implies(frac <= 0, y == x))
        if x in target:
            S.check('everything is replaced at fraction one', S.Implies(frac >= 1, S.Or(*[y == a for a in allowed[1:]])))
    S.check('the given elements are not modified', ints(sp) == list(species))


def monotone(S, n=3):
    """equal seeds: same outcome again, and a larger fraction replaces at least the same atoms"""
    from czone.transform.post import ChemicalSubstitution, PostSequence, ArbitraryPostTransform
    f1, f2 = S.real('f1', 0, 1), S.real('f2', 0, 1)
    S.assume(f1 <= f2)
    species = [6, 8, 6][:n]
    P = S.arr([[0.0, 0, 0]] * n)
    sp = S.arr(list(species))
    seed = S.choice('seed', (0, 7))
    through = S.choice('through', ('itself', 'a sequence', 'sequences'))

    def step(f):
        c = ChemicalSubstitution([6], [7], f)
        if through == 'itself':
            return c
        c = PostSequence([ArbitraryPostTransform(lambda p, s: (p, s)), c])
        return c if through == 'a sequence' else PostSequence([c])
    a = ints(step(f1).apply_function(P, sp, seed=seed)[1])
    b = ints(step(f2).apply_function(P, sp, seed=seed)[1])
    c = ints(step(f1).apply_function(P, sp, seed=seed)[1])
    for x, y, z, w in zip(a, b, c, species):
        S.check('a larger fraction replaces at least as many', S.Implies(S.And(x == 7, w == 6), y == 7))
        S.check('equal seeds reproduce', x == z)


def share(S, n=8, target=(6,), substitute=(7,)):
    """the fraction is the share of the random numbers that replace an atom"""
    from czone.transform.post import ChemicalSubstitution
    k = S.choice('k', tuple(range(n + 1)))
    th = S.real('theta', 0, 1)
    S.assume(S.And(th > 0.01, th < 0.99))
    species = [target[0], 1, target[-1]]
    hits = [0, 0, 0]
    for j in range(n):
        S.same_draw((j + th) / n)           # evenly spaced random numbers
        f = Fraction(k, n) if S.symbolic else k / n
        out = ints(ChemicalSubstitution(list(target), list(substitute), f).apply_function(S.arr([[0.0, 0, 0]] * 3), S.arr(list(species)))[1])
        hits = [h + int(bool(x != y)) for h, x, y in zip(hits, out, species)]
    S.check('an atom of a target is replaced in the stated share of cases', S.And(hits[0] == k, hits[2] == k))
    S.check('other atoms are not replaced', hits[1] == 0)


def add_steps(seq, T):
    for t in T:
        seq.add_transform(t)


def sequence(S):
    """steps act in the order given, each on the result of the one before"""
    from czone.transform.post import PostSequence, ArbitraryPostTransform, ChemicalSubstitution
    k = S.real('k', -3, 3)
    c = S.real('c', -3, 3)
    P = S.array('p', (2, 3))
    before = rows(P)
    log = []

    def scale(p, s):
        log.append('scale')
        return p * k, s

    def shift(p, s):
        log.append('shift')
        return p + c, s

    def drop(p, s):
        log.append('drop')
        return p[1:], s[1:]
    steps = {'scale': ArbitraryPostTransform(scale), 'shift': ArbitraryPostTransform(shift),
             'drop': ArbitraryPostTransform(drop), 'swap': ChemicalSubstitution([6], [7], 1.0)}
    order = S.choice('order', (('scale', 'shift'), ('shift', 'scale'), ('drop', 'swap', 'scale'), ('swap',), (),
                               ('shift', 'shift', 'scale')))
    how = S.choice('how', ('list', 'added', 'nested', 'continued'))
    T = [steps[n] for n in order]
    if how == 'list':
        seq = PostSequence(T)
    elif how == 'added':
        seq = PostSequence(None)
        add_steps(seq, T)
    elif how == 'continued':
        seq = PostSequence(T[:1])
        seq.add_transform(T[1:])
    else:
        seq = PostSequence([PostSequence(T[:1]), PostSequence(T[1:])])
    q, s = seq.apply_function(P, S.arr([6, 8]))
    want, sp = before, [6, 8]
    for n in order:
        if n == 'scale':
            want = [[k * x for x in r] for r in want]
        elif n == 'shift':
            want = [[x + c for x in r] for r in want]
        elif n == 'drop':
            want, sp = want[1:], sp[1:]
        else:
            sp = [7 if x == 6 else x for x in sp]
    S.check('each step ran once, in order', log == [n for n in order if n != 'swap'])
    S.check('elements after all steps', ints(s) == sp)
    S.check('atoms after all steps', len(rows(q)) == len(want))
    for a, b in zip(rows(q), want):
        S.eq('positions after all steps', a, b)


def in_generator(S):
    """a generator applies its post step to what it supplies, before any strain, and only then"""
    from czone.generator import Generator
    from czone.transform.post import ArbitraryPostTransform
    from czone.transform.strain import HStrain
    o = flat(S.vec('o', lo=-0.2, hi=0.2))
    k = [S.real(f'k{i}', -3, 3) for i in range(3)]
    c = S.real('c', -3, 3)
    st = S.structure([[3, 0, 0], [0, 4, 0], [0, 0, 5]], [6, 8], [[0, 0, 0], [0.5, 0.5, 0.5]])
    plain = Generator(structure=st, origin=S.arr(o))
    g = Generator(structure=st, origin=S.arr(o))
    seen = []

    def step(p, s):
        seen.append((rows(p), ints(s)))
        return p + c, s + 1
    g.post_transform = ArbitraryPostTransform(step)
    strained = S.choice('strained', (True, False))
    if strained:
        g.strain_field = HStrain(matrix=k, mode='standard')
    box = S.arr([[x, y, z] for x in (0.5, 2.0) for y in (0.5, 1.5) for z in (0.5, 1.0)])
    pc, ps = plain.supply_atoms(box)
    gc, gs = g.supply_atoms(box)
    pc, gc = rows(pc), rows(gc)
    S.check('the step ran once on the supplied atoms', S.And(len(seen) == 1, seen[0][1] == ints(ps)))
    S.check('as many atoms', len(pc) == len(gc))
    S.check('elements come from the step', ints(gs) == [x + 1 for x in ints(ps)])
    for p, q in zip(pc, gc):
        w = [x + c for x in p]
        if strained:
            w = [o[i] + k[i] * (w[i] - o[i]) for i in range(3)]
        S.eq('positions: step first, then strain', q, w)


CASES = [
    Case('one-target', only_targets, '3 atoms, 1 target, any fraction and draws', kwargs=dict(species=(6, 8, 6), target=(6,), substitute=(7,))),
    Case('two-targets', only_targets, '3 atoms, 2 targets', kwargs=dict(species=(6, 8, 14), target=(6, 8), substitute=(7, 9))),
    Case('exchange', only_targets, 'two elements exchanged', kwargs=dict(species=(6, 8), target=(6, 8), substitute=(8, 6))),
    Case('two-choices', only_targets, 'one element, two substitutes', kwargs=dict(species=(6, 1), target=(6, 6), substitute=(7, 9))),
    Case('absent', only_targets, 'target not present; and no targets', kwargs=dict(species=(6, 8), target=(3,), substitute=(4,))),
    Case('monotone', monotone, '3 atoms, any two fractions, equal seeds'),
    Case('share', share, 'eight evenly spaced random numbers at any offset, 9 fractions'),
    Case('share-two', share, 'the same with two targets', kwargs=dict(n=4, target=(6, 8), substitute=(7, 9))),
    Case('sequence', sequence, '6 sequences of scaling, shifting, dropping, replacing; 3 ways to build'),
    Case('in-generator', in_generator, 'with and without strain'),
]
