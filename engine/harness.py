"""Harness: one property case = one Python function over an input source S.

The same function runs symbolically (inputs are solver variables, the code under test is
executed on them) and concretely (replay of a solver model on the unpatched code)."""
import math
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core
from .core import (SNum, SBool, SAngle, Unsupported, PathInfeasible, PathCut, Budget, EngineStop,
                   b_and, b_or, b_not, b_iff, b_implies, is_sym, lift, zbool, ite)
import z3


class Case:
    def __init__(self, name, fn, bounds='', limits=None, thorough_only=False, args=(), kwargs=None,
                 terminates=False, witnesses=None):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.limits = limits or {}
        self.thorough_only = thorough_only
        self.args, self.kwargs = args, kwargs or {}
        self.terminates = terminates
        self.witnesses = witnesses


class ReplayAssumptionFailed(BaseException):
    pass


def _elem(x):
    if isinstance(x, np.ndarray) and x.shape == ():
        return x.item()
    return x


class SBase:
    """operations shared by symbolic and replay mode (oracle arithmetic on plain scalars)"""
    symbolic = False

    # logic
    def And(self, *xs):
        return b_and(*[self._b(x) for x in xs])

    def Or(self, *xs):
        return b_or(*[self._b(x) for x in xs])

    def Not(self, x):
        return b_not(self._b(x))

    def Iff(self, a, b):
        return b_iff(self._b(a), self._b(b))

    def Implies(self, a, b):
        return b_implies(self._b(a), self._b(b))

    @staticmethod
    def _b(x):
        x = _elem(x)
        if isinstance(x, np.bool_):
            return bool(x)
        return x

    def ite(self, c, a, b):
        c = self._b(c)
        if isinstance(c, bool):
            return a if c else b
        return ite(c, a, b)

    # small linear algebra for oracles
    @staticmethod
    def dot(a, b):
        r = 0
        for x, y in zip(lst(a), lst(b)):
            r = r + x * y
        return r

    @classmethod
    def norm2(cls, a):
        return cls.dot(a, a)

    @staticmethod
    def sub(a, b):
        return [x - y for x, y in zip(lst(a), lst(b))]

    @staticmethod
    def addv(a, b):
        return [x + y for x, y in zip(lst(a), lst(b))]

    @staticmethod
    def scale(k, a):
        return [k * x for x in lst(a)]

    @staticmethod
    def crossp(a, b):
        a, b = lst(a), lst(b)
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    @classmethod
    def matvec(cls, M, v):
        return [cls.dot(r, v) for r in M]

    @classmethod
    def det3(cls, M):
        M = [lst(r) for r in M]
        return cls.dot(M[0], cls.crossp(M[1], M[2]))

    def stand_in(self, real, fake):
        """for the rest of this execution czone sees `fake` wherever its modules hold `real`"""
        import sys
        top = getattr(real, '__module__', '').split('.')[0]
        for nm, m in list(sys.modules.items()):
            if m is not None and nm.split('.')[0] in ('czone', top):
                for k, v in list(m.__dict__.items()):
                    if v is real and not k.startswith('__'):
                        self.undo_.append((m.__dict__, k, v))
                        m.__dict__[k] = fake

    def undo(self):
        for d, k, v in reversed(self.undo_):
            d[k] = v
        self.undo_.clear()

    def max_draws(self, n, hang=False):
        """stated bound: executions that draw more than n random numbers are left out
        (hang: they are taken as not ending, and the replay decides)"""

    @staticmethod
    def abs(x):
        return abs(x)

    @staticmethod
    def min(a, b):
        return core.smin(a, b)

    @staticmethod
    def max(a, b):
        return core.smax(a, b)

    def purify(self):
        """name conditional values instead of inlining them (encoding choice only)"""

    def fork_casts(self, minmax=False):
        """enumerate numbers truncated to integers, and which operand min/max take, at once (encoding choice only)"""

    # structured inputs
    def vec(self, name, n=3, lo=None, hi=None):
        return self.arr([self.real(f"{name}[{i}]", lo, hi) for i in range(n)])

    def array(self, name, shape, lo=None, hi=None):
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(f"{name}{list(idx)}", lo, hi)
        return self.arr(out)

    def unit(self, name):
        """any unit vector (rational parametrisation; omits one antipodal point per chart)"""
        a, b = self.real(name + '.a', -4, 4), self.real(name + '.b', -4, 4)
        d = 1 + a * a + b * b
        return self.arr([2 * a / d, 2 * b / d, (d - 2) / d])

    def quat_rotation(self, name):
        """any rotation matrix with positive scalar quaternion part (misses angle pi only)"""
        b, c, d = (self.real(f"{name}.{k}", -4, 4) for k in 'bcd')
        a = 1
        n = 1 + b * b + c * c + d * d
        M = [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
             [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
             [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]
        return self.arr([[x / n for x in r] for r in M])

    def z_rotation(self, name, axis=2):
        t = self.real(name + '.t', -4, 4)
        n = 1 + t * t
        c, s = (1 - t * t) / n, 2 * t / n
        i, j = [(1, 2), (2, 0), (0, 1)][axis]
        M = [[1 if p == q else 0 for q in range(3)] for p in range(3)]
        M[i][i], M[i][j], M[j][i], M[j][j] = c, -s, s, c
        return self.arr(M)

    def eq(self, name, a, b, tol=1e-6):
        """componentwise |a-b| <= tol  (exact equality is tried first)"""
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            return self.check(name, False)
        return self.check(name, self.close(a, b, tol), exact=self.same(a, b))

    def close(self, a, b, tol=1e-6):
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            d = x - y
            if isinstance(d, SAngle):
                raise Unsupported("comparison of angles")
            if not is_sym(d):
                cs.append(bool(abs(d) <= tol * max(1.0, abs(y) if not is_sym(y) else 1.0)))
            else:
                if d.const() is not None:
                    cs.append(bool(abs(d.const()) <= tol))
                    continue
                t = d * d <= Fraction(tol) * Fraction(tol) if d.d else b_and(d <= Fraction(tol), d >= -Fraction(tol))
                cs.append(t)
        return b_and(*cs)

    def same(self, a, b):
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            return False
        return b_and(*[self._b(x == y) for x, y in zip(a, b)])


def lst(a):
    if isinstance(a, np.ndarray):
        from . import snp
        if isinstance(a, snp.SArr):
            a = snp.base(a)
        return [_elem(x) for x in a]
    return list(a)


def flat(a):
    if isinstance(a, np.ndarray):
        from . import snp
        if isinstance(a, snp.SArr):
            a = snp.base(a)
        return [x for x in a.reshape(-1)]
    if isinstance(a, (list, tuple)):
        r = []
        for x in a:
            r.extend(flat(x))
        return r
    return [a]


def rows(a):
    """list of row lists"""
    return [flat(r) for r in a]


# ------------------------------------------------------------------ symbolic mode

class Finding(EngineStop):
    pass


class SymS(SBase):
    symbolic = True

    def __init__(self, runner):
        self.undo_ = []
        self.run = runner
        self.C = core.ctx()
        self.observed = []
        self.reached = []

    # --- inputs
    def real(self, name, lo=None, hi=None):
        lo = -50 if lo is None else lo
        hi = 50 if hi is None else hi
        e = z3.Real(name)
        v = SNum(e, None, 'f')
        self.C.inputs[name] = ('real', e, lo, hi)
        self.C.add(e >= core.zreal(Fraction(lo)))
        self.C.add(e <= core.zreal(Fraction(hi)))
        return v

    def int(self, name, lo, hi):
        e = z3.Int(name)
        self.C.inputs[name] = ('int', e, lo, hi)
        self.C.add(e >= lo)
        self.C.add(e <= hi)
        return SNum(e, None, 'i')

    def fork_int(self, name, lo, hi):
        return int(self.int(name, lo, hi))

    def bool(self, name):
        e = z3.Bool(name)
        self.C.inputs[name] = ('bool', e, 0, 1)
        return SBool(e)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.fork_int(name, 0, len(options) - 1)]

    def arr(self, x):
        from . import snp
        return snp.sarr(x)

    def angle(self, name, lo_full=False):
        """any angle in (-pi, pi); with cos/sin rational in tan(angle/2)"""
        t = self.real(name + '.t', -8, 8)
        d = 1 + t * t
        return self.C.new_angle(name, (1 - t * t) / d, 2 * t / d, -math.pi, math.pi)

    def angle_pos(self, name):
        """any angle in [0, pi)"""
        t = self.real(name + '.t', 0, 8)
        d = 1 + t * t
        return self.C.new_angle(name, (1 - t * t) / d, 2 * t / d, 0.0, math.pi)

    def cs(self, ang):
        if is_sym(ang):
            return ang.cs()
        return math.cos(ang), math.sin(ang)

    def structure(self, matrix, species, coords):
        from .stubs import FakeStructure
        return FakeStructure(self.arr(matrix), [int(s) for s in species], self.arr(coords))

    def ase_atoms(self, species, positions, **k):
        from . import stubs
        return stubs.FakeAtoms(numbers=[int(z) for z in species], positions=positions, **k)

    def pmg_molecule(self, species, positions):
        from . import stubs
        return stubs.fake_pmg_molecule(species, positions)

    def seed_draw(self, name):
        return self.C.drawn[name]

    def purify(self):
        self.C.purify = True

    def fork_casts(self, minmax=False):
        self.C.fork_casts = True
        self.C.fork_minmax = minmax

    def max_draws(self, n, hang=False):
        self.C.draw_limit = n
        self.C.draw_hang = hang

    def int_near(self, name, x):
        """the integer nearest to x, as a value of the oracle (ties either way)"""
        if not is_sym(x):
            return int(round(float(x)))
        return (x + Fraction(1, 2)) // 1

    def writes(self):
        from . import stubs
        return stubs.WRITES

    def panels(self, draw):
        """what draw() shows: the panels of its figure"""
        import matplotlib.pyplot as plt
        from . import plots
        fake = plots.FakePlot()
        self.stand_in(plt, fake)
        try:
            draw()
        finally:
            self.undo()
        return fake.log

    def interactive(self, module, make):
        """the function and the arguments an interactive view is made of (ipywidgets.interact is replaced by a recorder)"""
        seen = []
        old = module.interact
        module.interact = lambda f=None, **kw: seen.append((f, kw))
        try:
            make()
        finally:
            module.interact = old
        if len(seen) != 1:
            from .core import Unsupported
            raise Unsupported('not one interactive view')
        return seen[0]

    def atoms_view(self, a):
        return lst(a.get_atomic_numbers()), rows(a.get_positions())

    # --- assumptions and checks
    def assume(self, c):
        c = self._b(c)
        self.C.assume(c)

    def observe(self, name, v):
        self.observed.append((name, v))

    def check(self, name, cond, exact=None):
        cond = self._b(cond)
        self.reached.append(name)
        self.run.prove(self, name, cond, exact)

    def reach(self, name):
        self.reached.append(name)

    def raises(self, f, types=Exception):
        try:
            f()
        except types:
            self.observe(f"raises{len(self.observed)}", True)
            return True
        self.observe(f"raises{len(self.observed)}", False)
        return False

    def fix_draws(self, salt, kinds=('unit', 'normal')):
        """random draws of these kinds take one arbitrary but fixed value each (stated in the bounds)"""
        self.C.hooks['draws'] = (str(salt), kinds)

    def first_draws(self, offsets):
        """the first integer draws are this far above the lower ends of their ranges; later ones are free"""
        self.C.hooks['first draws'] = list(offsets)

    def same_draw(self, v):
        """from now on every uniform random number is this one"""
        self.C.hooks['same draw'] = v

    def script_draws(self, values):
        """the first uniform random numbers are these; later ones are free"""
        self.C.hooks['script'] = [float(v) for v in values]

    def hook_delaunay(self, **attrs):
        self.C.hooks['delaunay'] = attrs


# ------------------------------------------------------------------ replay mode

class ReplayS(SBase):
    symbolic = False

    def __init__(self, inputs, draws):
        self.undo_ = []
        self.inputs = inputs
        self.draws = draws
        self.observed = []
        self.failed = []
        self.reached = []
        self._writes = []
        self.hooks = {}

    def _get(self, name, default):
        if name in self.inputs:
            return Fraction(self.inputs[name])
        return default

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, Fraction(1)))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    fork_int = int

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def arr(self, x):
        return np.array(x, dtype=float)

    def angle(self, name, lo_full=False):
        t = self.real(name + '.t')
        return 2 * math.atan(t)

    angle_pos = angle

    def cs(self, ang):
        return math.cos(ang), math.sin(ang)

    def structure(self, matrix, species, coords):
        from pymatgen.core import Structure, Lattice
        return Structure(Lattice(np.array(matrix, dtype=float)), [int(s) for s in species],
                         np.array(coords, dtype=float))

    def ase_atoms(self, species, positions, **k):
        from ase import Atoms
        return Atoms(numbers=[int(z) for z in species], positions=np.array(positions, dtype=float), **k)

    def pmg_molecule(self, species, positions):
        from pymatgen.core.structure import Molecule
        return Molecule([int(z) for z in species], np.array(positions, dtype=float))

    def seed_draw(self, name):
        return self.draws.draw(name, 'unit', 0, 1)

    def int_near(self, name, x):
        return int(math.floor(x + 0.5))

    def writes(self):
        return self._writes

    def panels(self, draw):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from . import plots
        plt.close('all')
        try:
            draw()
            return plots.real_panels()
        finally:
            plt.close('all')

    def interactive(self, module, make):
        """the function and the arguments an interactive view is made of (ipywidgets.interact is replaced by a recorder)"""
        seen = []
        old = module.interact
        module.interact = lambda f=None, **kw: seen.append((f, kw))
        try:
            make()
        finally:
            module.interact = old
        if len(seen) != 1:
            from .core import Unsupported
            raise Unsupported('not one interactive view')
        return seen[0]

    def atoms_view(self, a):
        return [int(x) for x in a.get_atomic_numbers()], rows(np.array(a.get_positions()))

    def assume(self, c):
        if not bool(self._b(c)):
            raise ReplayAssumptionFailed()

    def observe(self, name, v):
        self.observed.append((name, [float(x) if not isinstance(x, (str, type(None))) else x for x in flat(v)]))

    def check(self, name, cond, exact=None):
        self.reached.append(name)
        if not bool(self._b(cond)):
            self.failed.append(name)

    def reach(self, name):
        self.reached.append(name)

    def raises(self, f, types=Exception):
        try:
            f()
        except types:
            self.observe(f"raises{len(self.observed)}", True)
            return True
        self.observe(f"raises{len(self.observed)}", False)
        return False

    def first_draws(self, offsets):
        pass

    def same_draw(self, v):
        self.draws.same = v

    def script_draws(self, values):
        self.draws.script = [float(v) for v in values]

    def fix_draws(self, salt, kinds=('unit', 'normal')):
        self.draws.fixed = (str(salt), kinds)

    def hook_delaunay(self, **attrs):
        from scipy.spatial import Delaunay

        class Hooked:
            def __init__(self, *a, **k):
                self.__dict__['tri'] = Delaunay(*a, **k)

            def __getattr__(self, nm):
                return np.array(attrs[nm]) if nm in attrs else getattr(self.tri, nm)
        self.stand_in(Delaunay, Hooked)
