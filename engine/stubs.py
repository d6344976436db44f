"""Environment of the code under test: nondeterminism and compiled libraries.

Every stub is part of the claims (see DESIGN.md "Stubs"): it returns *any* value its
documented contract allows, as a symbolic value, and the same contract constrains replay.
"""
import copy
import hashlib
import itertools
import math
from fractions import Fraction

import numpy as np

from . import core, snp
from .core import SNum, SBool, SAngle, Unsupported, PathCut, b_and, b_or, b_not, ite, is_sym, lift
from .snp import sarr, wrap, base, natural, has_sym, _cs, s_mul, s_add, s_sub, _det, _lol, replace
import z3


# ------------------------------------------------------------------ random numbers

class Draws:
    """named draws, shared by the symbolic and the replay side.

    A generator created with seed s reads stream `s`; two generators created with the same
    seed read the same stream from the start (reproducibility contract of numpy)."""

    def __init__(self, draw):
        self.draw = draw            # draw(name, kind, lo, hi) -> value
        self.n_none = 0

    def generator(self, seed=None):
        if isinstance(seed, np.ndarray) and seed.size == 1:
            seed = seed.reshape(-1)[0]
        if isinstance(seed, RNG):
            return seed
        if seed is None:
            self.n_none += 1
            key = f"none{self.n_none}"
        elif isinstance(seed, SNum):
            key = f"s{seed.concretize()}" if seed.const() is not None else f"e{str(seed.n)}"
        else:
            key = f"s{int(seed)}"
        return RNG(self, key)


def _size(size):
    if size is None:
        return None
    if isinstance(size, (SNum, int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class RNG:
    def __init__(self, owner, key):
        self.owner, self.key, self.pos = owner, key, 0

    def _one(self, kind, lo=None, hi=None):
        self.pos += 1
        return self.owner.draw(f"rng[{self.key}]#{self.pos}", kind, lo, hi)

    def _many(self, size, f):
        size = _size(size)
        if size is None:
            return snp.out_scalar(f())
        a = np.empty(size, dtype=object)
        af = a.reshape(-1)
        for i in range(af.shape[0]):
            af[i] = f()
        return self.owner.finish(af.reshape(size))

    def random(self, size=None, **k):
        return self._many(size, lambda: self._one('unit'))

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = (x if isinstance(x, (SNum,)) else x for x in (low, high))
        if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray) or isinstance(lo, (list, tuple)) \
                or isinstance(hi, (list, tuple)):
            lo_, hi_ = sarr(lo), sarr(hi)
            shp = _size(size) or np.broadcast_shapes(lo_.shape, hi_.shape)
            u = sarr(self._many(shp, lambda: self._one('unit')))
            return self.owner.finish(base(lo_ + (hi_ - lo_) * u))
        if not is_sym(lo) and not is_sym(hi) and lo == 0 and hi == 1:
            return self.random(size)
        return self._many(size, lambda: _cs(s_add(lo, s_mul(s_sub(hi, lo), self._one('unit')))))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        if bool(hi < low):
            raise ValueError("low >= high")
        return self._many(size, lambda: self._one('int', low, hi))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer, SNum)):
            a = self.owner.finish(np.arange(int(a)).astype(object))
        a = a if isinstance(a, np.ndarray) else self.owner.finish(base(sarr(a)))
        n = a.shape[0]
        if n == 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        size = _size(size)
        if size is None:
            i = int(self._one('pick', 0, n - 1))
            return a[i]
        tot = int(np.prod(size))
        if not replace and tot > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        idx = []
        for _ in range(tot):
            if replace:
                idx.append(int(self._one('pick', 0, n - 1)))
            else:
                free = [j for j in range(n) if j not in idx]
                idx.append(free[int(self._one('pick', 0, len(free) - 1))])
        r = a[np.array(idx, dtype=int)]
        return r.reshape(size + a.shape[1:])

    def permutation(self, x):
        n = int(x) if isinstance(x, (int, np.integer, SNum)) else len(x)
        return self.choice(x, n, replace=False)

    def shuffle(self, x, axis=0):
        p = self.permutation(x)
        for i in range(len(x)):
            x[i] = p[i]

    def standard_normal(self, size=None, **k):
        return self._many(size, lambda: self._one('normal'))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(size, lambda: _cs(s_add(loc, s_mul(scale, self._one('normal')))))

    @property
    def bit_generator(self):
        raise Unsupported("bit_generator")


class LegacyRandom:
    """numpy.random module functions (one global stream)"""

    def __init__(self, owner):
        object.__setattr__(self, '_o', owner)
        object.__setattr__(self, '_g', RNG(owner, 'global'))

    def default_rng(self, seed=None):
        return self._o.generator(seed)

    def seed(self, s=None):
        object.__setattr__(self, '_g', self._o.generator(s))

    def rand(self, *shape):
        for s in shape:
            if isinstance(s, (tuple, list)):
                raise TypeError("'tuple' object cannot be interpreted as an integer")
        return self._g.random(tuple(shape) if shape else None)

    def random(self, size=None):
        return self._g.random(size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._g.uniform(low, high, size)

    def randint(self, low, high=None, size=None, dtype=None):
        return self._g.integers(low, high, size)

    def randn(self, *shape):
        return self._g.standard_normal(tuple(shape) if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._g.normal(loc, scale, size)

    def choice(self, a, size=None, replace=True, p=None):
        return self._g.choice(a, size, replace)

    def permutation(self, x):
        return self._g.permutation(x)

    def shuffle(self, x):
        return self._g.shuffle(x)

    Generator = RNG

    def __getattr__(self, nm):
        raise Unsupported(f"numpy.random.{nm}")


def fixed_draw(salt, name, kind, lo, hi):
    """a reproducible value for a draw the case does not want to explore"""
    h = int(hashlib.sha256((salt + name).encode()).hexdigest()[:8], 16) % (8 if kind in ('unit', 'normal') else 4096) / (8.0 if kind in ('unit', 'normal') else 4096.0)
    if kind in ('int', 'pick'):
        return int(lo) + int(h * (int(hi) - int(lo) + 1))
    return h if kind == 'unit' else 4 * h - 2


class SymDraws(Draws):
    def __init__(self):
        Draws.__init__(self, self._draw)

    def finish(self, a):
        return wrap(a) if not isinstance(a, snp.SArr) else a

    def _draw(self, name, kind, lo, hi):
        C = core.ctx()
        if kind == 'unit' and 'same draw' in C.hooks:
            return C.hooks['same draw']
        if name in C.drawn:
            return C.drawn[name]
        script = C.hooks.get('script')
        if kind == 'unit' and script:
            return script.pop(0)
        fix = C.hooks.get('draws')
        if fix is not None and kind in fix[1]:
            return fixed_draw(fix[0], name, kind, lo, hi)
        if C.draw_limit is not None and len(C.drawn) >= C.draw_limit:
            if C.draw_hang:
                raise core.DrawHang("keeps drawing")
            raise PathCut("more random draws than the stated bound")
        if kind in ('int', 'pick'):
            e = z3.Int(name)
            v = SNum(e, None, 'i')
            C.assume(v >= lo)
            C.assume(v <= hi)
            if not is_sym(lo) and not is_sym(hi) and lo == hi:
                v = int(lo)
            first = C.hooks.get('first draws', ())
            if len(C.drawn) < len(first):
                C.assume(v == lo + first[len(C.drawn)])
        else:
            e = z3.Real(name)
            v = SNum(e, None, 'f')
            if kind == 'unit':
                C.assume(v >= 0)
                C.assume(v < 1)
            else:
                C.assume(v >= -6)
                C.assume(v <= 6)
        C.inputs[name] = ('int' if kind == 'pick' else kind, e)
        C.drawn[name] = v
        return v


class ReplayDraws(Draws):
    def __init__(self, inputs):
        Draws.__init__(self, self._draw)
        self.inputs = inputs
        self.missing = 0
        self.fixed = None
        self.same = None
        self.script = None

    def finish(self, a):
        a = np.asarray(a)
        if a.dtype == object:
            if all(isinstance(x, (int, np.integer)) for x in a.flat) and a.size:
                return a.astype(np.int64)
            return a.astype(float)
        return a

    def _draw(self, name, kind, lo, hi):
        if kind == 'unit' and self.same is not None:
            return float(self.same)
        if kind == 'unit' and self.script:
            return float(self.script.pop(0))
        if self.fixed is not None and kind in self.fixed[1]:
            return fixed_draw(self.fixed[0], name, kind, lo, hi)
        if name in self.inputs:
            v = self.inputs[name]
            if kind in ('int', 'pick') and not (int(lo) <= int(Fraction(v)) <= int(hi)):
                # the concrete run left the symbolic path (rounding at a decision boundary)
                from .harness import ReplayAssumptionFailed
                raise ReplayAssumptionFailed()
            return int(Fraction(v)) if kind in ('int', 'pick') else float(Fraction(v))
        self.missing += 1
        h = int(hashlib.sha256(name.encode()).hexdigest()[:12], 16) / 16.0 ** 12
        if kind in ('int', 'pick'):
            return int(lo) + int(h * (int(hi) - int(lo) + 1))
        return h if kind == 'unit' else 4 * h - 2


# ------------------------------------------------------------------ convex hulls

from scipy.spatial import QhullError  # noqa: E402


def tetra_weights(pts, x):
    """barycentric numerators of x w.r.t. 4 points, and the determinant (all polynomials)"""
    a = [[_cs(v) for v in p] for p in pts]
    x = [_cs(v) for v in x]

    def det4(rows):
        d = [[s_sub(rows[i][k], rows[3][k]) for k in range(3)] for i in range(3)]
        return _det(d)
    D = det4(a)
    w = []
    for i in range(4):
        r = list(a)
        r[i] = x
        w.append(det4(r))
    return w, D


def in_hull(pts, x, strict=False, slack=0):
    """x in the convex hull of pts (Caratheodory over all 4-subsets), as a formula"""
    pts = [list(p) for p in pts]
    n = len(pts)
    if not has_sym(pts) and n > 4:
        from scipy.spatial import ConvexHull
        eqs = ConvexHull(np.array([[float(v) for v in p] for p in pts])).equations
        conds = []
        seen = []
        for e in eqs:
            if any(np.allclose(e, s, atol=1e-9) for s in seen):
                continue
            seen.append(e)
            # e.x + d <= 0
            v = 0
            for k in range(3):
                if abs(e[k]) > 1e-12:
                    v = s_add(v, s_mul(float(e[k]), x[k]))
            v = s_add(v, float(e[3]))
            conds.append(v < -slack if strict else v <= slack)
        return b_and(*conds)
    alts = []
    for c in itertools.combinations(range(n), 4):
        w, D = tetra_weights([pts[i] for i in c], x)
        tol = slack
        if strict:
            pos = b_and(D > 0, *[q > 0 for q in w])
            neg = b_and(D < 0, *[q < 0 for q in w])
        else:
            pos = b_and(D > 0, *[q >= s_mul(-tol, D) for q in w])
            neg = b_and(D < 0, *[q <= s_mul(-tol, D) for q in w])
        alts.append(b_or(pos, neg))
    return b_or(*alts)


def _degenerate(pts):
    if not has_sym(pts):
        a = np.array([[float(v) for v in p] for p in pts])
        return np.linalg.matrix_rank(a[1:] - a[0], tol=1e-12 * (1 + np.abs(a).max())) < 3
    conds = []
    for c in itertools.combinations(range(len(pts)), 4):
        _, D = tetra_weights([pts[i] for i in c], pts[0])
        conds.append(_cs(D) == 0)
    return b_and(*conds)


class SymDelaunay:
    def __init__(self, points, furthest_site=False, incremental=False, qhull_options=None):
        self.points = sarr(points)
        if self.points.ndim != 2:
            raise ValueError("points must be 2-d")
        self._pts = [list(base(p)) for p in self.points]
        if len(self._pts) < 4 or bool(_degenerate(self._pts)):
            raise QhullError("QH6154 initial simplex is flat")
        self._real = None
        if not has_sym(self.points):
            from scipy.spatial import Delaunay
            self._real = Delaunay(natural(self.points))
        self._hook = core.ctx().hooks.get('delaunay') or {}

    def find_simplex(self, xi, bruteforce=False, tol=None):
        xi = sarr(xi)
        rows = xi if xi.ndim > 1 else xi[None, :]
        if rows.shape[-1] != 3:
            raise ValueError("wrong dimensionality in xi")
        t = 0 if tol is None else tol
        if not is_sym(t) and abs(t) < 1e-9:
            t = 0
        out = np.empty(rows.shape[0], dtype=object)
        for i, r in enumerate(base(rows)):
            out[i] = _cs(ite(in_hull(self._pts, list(r), slack=t), 0, -1))
        return wrap(out, 'i') if xi.ndim > 1 else snp.out_scalar(out[0])

    @property
    def simplices(self):
        if 'simplices' in self._hook:
            return snp.wrap_out(np.array(self._hook['simplices']))
        if self._real is not None:
            return snp.wrap_out(self._real.simplices)
        if len(self._pts) == 4:
            return snp.wrap_out(np.array([[0, 1, 2, 3]]))
        raise Unsupported("simplices of a symbolic triangulation")

    @property
    def neighbors(self):
        if 'neighbors' in self._hook:
            return snp.wrap_out(np.array(self._hook['neighbors']))
        if self._real is not None:
            return snp.wrap_out(self._real.neighbors)
        if len(self._pts) == 4:
            return snp.wrap_out(np.array([[-1, -1, -1, -1]]))
        raise Unsupported("neighbors of a symbolic triangulation")

    @property
    def convex_hull(self):
        if 'convex_hull' in self._hook:
            return snp.wrap_out(np.array(self._hook['convex_hull']))
        if self._real is not None:
            return snp.wrap_out(self._real.convex_hull)
        if len(self._pts) == 4:
            return snp.wrap_out(np.array([[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]))
        raise Unsupported("facets of a symbolic triangulation")

    @property
    def npoints(self):
        return len(self._pts)

    def add_points(self, points, restart=False):
        self.__init__(np.concatenate([self.points, sarr(points)], axis=0))

    def close(self):
        pass


class SymConvexHull:
    """hull of points; `vertices` may list points that are not extreme (harmless superset)"""

    def __init__(self, points, incremental=False, qhull_options=None):
        self.points = snp.f_copy(sarr(points))
        self.incremental = incremental
        self._chk()

    def _chk(self):
        p = [list(base(p)) for p in self.points]
        if len(p) < 4 or bool(_degenerate(p)):
            raise QhullError("QH6154 initial simplex is flat")
        self._real = None
        if not has_sym(self.points):
            from scipy.spatial import ConvexHull
            self._real = ConvexHull(natural(self.points))

    def add_points(self, points, restart=False):
        if not self.incremental:
            raise RuntimeError("incremental mode not enabled or already closed")
        points = sarr(points)
        if points.ndim != 2 or points.shape[1] != 3:
            raise ValueError("Need a 2-d array of points of the right dimension")
        self.points = np.concatenate([self.points, points], axis=0)
        self._chk()

    @property
    def vertices(self):
        if self._real is not None:
            return snp.wrap_out(self._real.vertices)
        return snp.wrap_out(np.arange(self.points.shape[0]))

    @property
    def simplices(self):
        if self._real is not None:
            return snp.wrap_out(self._real.simplices)
        if self.points.shape[0] == 4:
            return snp.wrap_out(np.array([[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]))
        raise Unsupported("facets of a symbolic hull")

    @property
    def equations(self):
        if self._real is not None:
            return snp.wrap_out(self._real.equations)
        raise Unsupported("equations of a symbolic hull")

    @property
    def volume(self):
        if self._real is not None:
            return self._real.volume
        raise Unsupported("volume of a symbolic hull")

    def close(self):
        pass

    def __deepcopy__(self, memo):
        r = SymConvexHull.__new__(SymConvexHull)
        r.__dict__.update(self.__dict__)
        r.points = snp.f_copy(self.points)
        return r


# ------------------------------------------------------------------ linear programming

class LPResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def _frac(x):
    return core.nice_fraction(float(x))


def _solve_frac(M, b):
    """exact solve of a square Fraction system with symbolic right-hand side; None if singular"""
    n = len(M)
    M = [list(r) for r in M]
    b = list(b)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        b[i], b[p] = b[p], b[i]
        d = M[i][i]
        M[i] = [x / d for x in M[i]]
        b[i] = s_mul(1 / d, b[i]) if not isinstance(b[i], Fraction) else b[i] / d
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
                b[r] = b[r] - f * b[i] if isinstance(b[r], Fraction) else s_sub(b[r], s_mul(f, b[i]))
    return b


def sym_linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), method='highs', **kw):
    """Contract of scipy.optimize.linprog for a concrete constraint matrix and a symbolic
    right-hand side: status 0/2/3 decided exactly (Farkas rays / recession cone), x any optimum."""
    if A_eq is not None or A_ub is None:
        raise Unsupported("linprog form")
    if has_sym(A_ub) or has_sym(c):
        raise Unsupported("linprog with symbolic constraint matrix")
    A = [[_frac(v) for v in r] for r in natural(sarr(A_ub))]
    cc = [_frac(v) for v in natural(sarr(c)).ravel()]
    b = [_cs(v) for v in base(sarr(b_ub)).ravel()]
    n = len(cc)
    bl = list(bounds) if not isinstance(bounds, tuple) or (len(bounds) and isinstance(bounds[0], (tuple, list))) \
        else bounds
    if isinstance(bl, tuple) and len(bl) == 2 and not isinstance(bl[0], (tuple, list)):
        bl = [bl] * n
    bl = [tuple(x) for x in bl]
    if len(bl) == 1:
        bl = bl * n
    for j, (lo, hi) in enumerate(bl):
        if lo is not None and not (isinstance(lo, float) and math.isinf(lo)):
            A.append([Fraction(-1 if k == j else 0) for k in range(n)])
            b.append(-lo if not is_sym(lo) else -lo)
        if hi is not None and not (isinstance(hi, float) and math.isinf(hi)):
            A.append([Fraction(1 if k == j else 0) for k in range(n)])
            b.append(hi)
    m = len(A)
    b = [lift(v) if not is_sym(v) else v for v in b]
    # dual: min b.y, A^T y = -c, y >= 0.   Farkas: A^T y = 0, y >= 0, b.y < 0.
    rays, verts = [], []
    seen_r, seen_v = set(), set()
    AT = [[A[i][j] for i in range(m)] for j in range(n)]
    for k in range(1, n + 2):
        for S in itertools.combinations(range(m), k):
            y = _nullvec([[AT[j][i] for i in S] for j in range(n)], k)
            if y is None:
                continue
            if all(v > 0 for v in y) or all(v < 0 for v in y):
                s = sum(abs(v) for v in y)
                key = tuple(sorted((i, abs(v) / s) for i, v in zip(S, y)))
                if key not in seen_r:
                    seen_r.add(key)
                    rays.append(key)
    for k in range(0, n + 1):
        for S in itertools.combinations(range(m), k):
            y = _unique_sol([[AT[j][i] for i in S] for j in range(n)], [-v for v in cc])
            if y is None or not all(v > 0 for v in y):
                continue
            key = tuple(zip(S, y))
            if key not in seen_v:
                seen_v.add(key)
                verts.append(key)

    def val(key):
        s = lift(0)
        for i, v in key:
            s = s + s_mul(v, b[i])
        return s
    feas = b_and(*[val(r) >= 0 for r in rays])
    fail = LPResult(x=None, success=False, fun=None, message='', nit=0, slack=None, con=None)
    if not bool(feas):
        return LPResult(fail, status=2)
    if not verts:           # dual infeasible: unbounded
        return LPResult(fail, status=3)
    C = core.ctx()
    x = [SNum(z3.Real(C.fresh_name('lp')), None, 'f') for _ in range(n)]
    opt = None
    for v in verts:
        t = val(v)
        opt = t if opt is None else core.smin(opt, t)
    for i in range(m):
        s = lift(0)
        for j in range(n):
            if A[i][j] != 0:
                s = s + s_mul(A[i][j], x[j])
        C.define(s <= b[i], exact=True)
    obj = lift(0)
    for j in range(n):
        if cc[j] != 0:
            obj = obj + s_mul(cc[j], x[j])
    C.define(-obj == opt, exact=True)
    return LPResult(x=sarr(x), success=True, status=0, fun=obj, message='', nit=1)


def _rref(M):
    M = [list(r) for r in M]
    rows, cols = len(M), len(M[0]) if M else 0
    piv = []
    r = 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        d = M[r][c]
        M[r] = [x / d for x in M[r]]
        for i in range(rows):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M, piv


def _nullvec(M, k):
    """the null vector of M (n x k) if its null space is one-dimensional with full support"""
    R, piv = _rref(M)
    free = [c for c in range(k) if c not in piv]
    if len(free) != 1:
        return None
    y = [Fraction(0)] * k
    y[free[0]] = Fraction(1)
    for r, c in enumerate(piv):
        y[c] = -R[r][free[0]]
    if any(v == 0 for v in y):
        return None
    return y


def _unique_sol(M, rhs):
    k = len(M[0]) if M and M[0] is not None else 0
    if k == 0:
        return [] if all(v == 0 for v in rhs) else None
    R, piv = _rref([list(r) + [v] for r, v in zip(M, rhs)])
    if k in piv or len(piv) != k:
        return None
    y = [Fraction(0)] * k
    for r, c in enumerate(piv):
        y[c] = R[r][k]
    return y


class SymHalfspaceIntersection:
    def __init__(self, halfspaces, interior_point, incremental=False, qhull_options=None):
        H = sarr(halfspaces)
        if has_sym(H[:, :3]):
            raise Unsupported("half spaces with symbolic normals")
        A = [[_frac(v) for v in r] for r in natural(H[:, :3])]
        d = [_cs(v) for v in base(H[:, 3])]
        p = [_cs(v) for v in base(sarr(interior_point)).ravel()]
        ok = []
        for r, dd in zip(A, d):
            s = dd
            for k in range(3):
                if r[k] != 0:
                    s = s_add(s, s_mul(r[k], p[k]))
            ok.append(s < 0)
        if not bool(b_and(*ok)):
            raise QhullError("QH6023 feasible point is not clearly inside halfspace")
        verts = []
        for c in itertools.combinations(range(len(A)), 3):
            v = _solve_frac([A[i] for i in c], [lift(0) - lift(d[i]) for i in c])
            if v is None:
                continue
            conds = []
            for i, (r, dd) in enumerate(zip(A, d)):
                if i in c:
                    continue
                s = dd
                for k in range(3):
                    if r[k] != 0:
                        s = s_add(s, s_mul(r[k], v[k]))
                conds.append(s <= 0)
            if bool(b_and(*conds)):
                verts.append(v)
        self.intersections = sarr(verts, 'f') if verts else snp.c_zeros((0, 3))
        self.halfspaces = H
        self.interior_point = sarr(interior_point)


# ------------------------------------------------------------------ rotations

class SymRot:
    def __init__(self, m):
        self.m = sarr(m)

    def as_matrix(self):
        return self.m

    as_dcm = as_matrix

    def apply(self, v, inverse=False):
        m = self.m.T if inverse else self.m
        return snp.matmul(sarr(v), wrap(base(m).T.copy()))

    def inv(self):
        return SymRot(wrap(base(self.m).T.copy()))

    def __mul__(self, o):
        return SymRot(snp.matmul(self.m, o.m))

    @staticmethod
    def from_matrix(m):
        return SymRot(m)

    from_dcm = from_matrix

    @staticmethod
    def identity(num=None):
        return SymRot(np.eye(3))

    @staticmethod
    def from_rotvec(v, degrees=False):
        v = sarr(v)
        if not has_sym(v):
            from scipy.spatial.transform import Rotation as R
            return SymRot(snp.wrap_out(R.from_rotvec(natural(v), degrees=degrees).as_matrix()))
        if v.shape != (3,):
            raise Unsupported("stacked rotation vectors")
        ang, sc = None, []
        for x in base(v):
            if isinstance(x, SAngle):
                key = (tuple(sorted(x.terms.items())), x.c)
                if ang is None:
                    ang = key
                elif ang != key:
                    raise Unsupported("rotation vector with mixed angles")
                sc.append(lift(x.scale))
            elif not is_sym(x) and x == 0:
                sc.append(lift(0))
            else:
                # symbolic multiple of a concrete angle
                raise Unsupported("rotation vector of symbolic length")
        a = SAngle(dict(ang[0]), ang[1])
        n2 = sc[0] * sc[0] + sc[1] * sc[1] + sc[2] * sc[2]
        k = n2.const() if isinstance(n2, SNum) else n2
        if k is not None and abs(k - 1) < 1e-9:
            pass            # unit up to rounding
        elif not (n2 == 1) is True and not core.ctx().branch(core.zbool(n2 == 1)):
            raise Unsupported("rotation vector of non-unit axis")
        if degrees:
            raise Unsupported("degrees")
        return SymRot(rodrigues(sc, *a.cs()))

    @staticmethod
    def from_euler(seq, angles, degrees=False):
        if isinstance(angles, (SAngle, SNum, float, int)):
            angles = [angles]
        angles = list(angles)
        ext = seq == seq.lower()
        if not ext and seq != seq.upper():
            raise ValueError("Expected axes in `seq` to be from ['x','y','z'] or ['X','Y','Z']")
        if degrees:
            angles = [a * (math.pi / 180) for a in angles]
        M = None
        for ax, a in zip(seq.lower(), angles):
            if isinstance(a, SAngle):
                c, s = a.cs()
            elif is_sym(a):
                raise Unsupported("euler angle")
            else:
                c, s = math.cos(a), math.sin(a)
            e = [1 if ax == 'x' else 0, 1 if ax == 'y' else 0, 1 if ax == 'z' else 0]
            R = rodrigues(e, c, s)
            M = R if M is None else (snp.matmul(R, M) if ext else snp.matmul(M, R))
        return SymRot(M)

    @staticmethod
    def align_vectors(a, b, weights=None, return_sensitivity=False):
        """contract for exactly alignable sets: a rotation with R b_i = a_i (scaled by lengths)"""
        A, B = sarr(a), sarr(b)
        if not has_sym(A) and not has_sym(B):
            from scipy.spatial.transform import Rotation as R
            r, rssd = R.align_vectors(natural(A), natural(B))
            return SymRot(snp.wrap_out(r.as_matrix())), rssd
        C = core.ctx()
        Q = sarr([[SNum(z3.Real(C.fresh_name('R')), None, 'f') for _ in range(3)] for _ in range(3)])
        QQ = snp.matmul(Q, Q.T)
        for i in range(3):
            for j in range(i, 3):
                C.assume(QQ[i, j] == (1 if i == j else 0))
        C.assume(snp.f_det(Q) == 1)
        QB = snp.matmul(B, Q.T)
        for p, q in zip(base(QB).flat, base(A).flat):
            C.assume(_cs(p) == _cs(q))
        if C._check() == z3.unsat:
            raise PathCut("align_vectors: sets that are not exactly alignable")
        return SymRot(Q), 0.0

    def __getattr__(self, nm):
        raise Unsupported(f"Rotation.{nm}")


def rodrigues(u, c, s):
    u = [_cs(x) for x in u]
    one_c = s_sub(1, c)
    K = [[0, -u[2] if is_sym(u[2]) else -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
    M = []
    for i in range(3):
        r = []
        for j in range(3):
            v = s_mul(one_c, s_mul(u[i], u[j]))
            if i == j:
                v = s_add(v, c)
            else:
                v = s_add(v, s_mul(s, K[i][j]))
            r.append(v)
        M.append(r)
    return sarr(M)


# ------------------------------------------------------------------ sparse matrices

class SymCSR:
    def __init__(self, m, shape=None, **k):
        if isinstance(m, tuple):
            data, (i, j) = m
            n = shape
            a = snp.c_zeros(n)
            for d, p, q in zip(data, i, j):
                a[int(p), int(q)] = a[int(p), int(q)] + d
            m = a
        self.m = sarr(m)
        self.shape = self.m.shape

    def __matmul__(self, o):
        return SymCSR(snp.matmul(self.m, o.m)) if isinstance(o, SymCSR) else snp.matmul(self.m, o)

    dot = __matmul__
    __mul__ = __matmul__

    def toarray(self):
        return self.m

    todense = toarray

    def __getitem__(self, i):
        return SymCSR(self.m[i]) if not isinstance(i, tuple) else self.m[i]

    @property
    def T(self):
        return SymCSR(self.m.T)

    def nonzero(self):
        return snp.f_nonzero(self.m)

    def tocsr(self):
        return self

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Unsupported(f"csr_matrix.{nm}")


# ------------------------------------------------------------------ crystals / ASE

from pymatgen.core import Lattice, Structure  # noqa: E402


class _LatticeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Lattice) or type.__instancecheck__(cls, x)


class FakeLattice(metaclass=_LatticeMeta):
    """pymatgen Lattice: rows of `matrix` are the lattice vectors"""

    def __init__(self, matrix, pbc=(True, True, True)):
        self.matrix = sarr(matrix).astype('f8')
        if self.matrix.shape == (9,):
            self.matrix = self.matrix.reshape(3, 3)
        self.pbc = pbc

    @classmethod
    def from_parameters(cls, a, b, c, alpha, beta, gamma, vesta=False, pbc=(True, True, True)):
        """Contract: rows of these lengths and mutual angles; the lengths may be symbolic, the angles not"""
        if any(is_sym(_cs(x)) for x in (alpha, beta, gamma)):
            raise Unsupported("lattice of symbolic angles")
        unit = Lattice.from_parameters(1, 1, 1, float(_cs(alpha)), float(_cs(beta)), float(_cs(gamma)), vesta=vesta).matrix
        r = cls([[_cs(k) * float(x) for x in row] for k, row in zip((a, b, c), unit)], pbc)
        r.given = (tuple(_cs(x) for x in (a, b, c)), tuple(float(_cs(x)) for x in (alpha, beta, gamma)))
        return r

    @classmethod
    def cubic(cls, a, pbc=(True, True, True)):
        return cls.from_parameters(a, a, a, 90, 90, 90, pbc=pbc)

    @classmethod
    def tetragonal(cls, a, c, pbc=(True, True, True)):
        return cls.from_parameters(a, a, c, 90, 90, 90, pbc=pbc)

    @classmethod
    def orthorhombic(cls, a, b, c, pbc=(True, True, True)):
        return cls.from_parameters(a, b, c, 90, 90, 90, pbc=pbc)

    @classmethod
    def monoclinic(cls, a, b, c, beta, pbc=(True, True, True)):
        return cls.from_parameters(a, b, c, 90, beta, 90, pbc=pbc)

    @classmethod
    def hexagonal(cls, a, c, pbc=(True, True, True)):
        return cls.from_parameters(a, a, c, 90, 90, 120, pbc=pbc)

    @classmethod
    def rhombohedral(cls, a, alpha, pbc=(True, True, True)):
        return cls.from_parameters(a, a, a, alpha, alpha, alpha, pbc=pbc)

    @property
    def angles(self):
        if hasattr(self, 'given'):
            return self.given[1]
        raise Unsupported("Lattice.angles")

    @property
    def inv_matrix(self):
        return snp.f_inv(self.matrix)

    @property
    def abc(self):
        if hasattr(self, 'given'):
            return self.given[0]
        return tuple(snp.f_norm(self.matrix[i]) for i in range(3))

    lengths = abc
    a = property(lambda self: self.abc[0])
    b = property(lambda self: self.abc[1])
    c = property(lambda self: self.abc[2])

    def copy(self):
        r = FakeLattice(snp.f_copy(self.matrix), self.pbc)
        r.__dict__.update({k: v for k, v in self.__dict__.items() if k == 'given'})
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def d_hkl(self, hkl):
        g = snp.matmul(self.inv_matrix, sarr(list(hkl)).astype('f8'))
        # |G|^2 = hkl . G* . hkl ; columns of inv_matrix are reciprocal vectors (no 2 pi)
        return 1 / snp.f_norm(g)

    def get_cartesian_coords(self, f):
        return snp.matmul(sarr(f), self.matrix)

    def get_fractional_coords(self, x):
        return snp.matmul(sarr(x), self.inv_matrix)

    @property
    def reciprocal_lattice_crystallographic(self):
        return FakeLattice(self.inv_matrix.T)

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Unsupported(f"Lattice.{nm}")


def _number(x):
    from pymatgen.core import Element
    x = _cs(x)
    if isinstance(x, str):
        return Element(x).Z
    if hasattr(x, 'Z'):
        return x.Z
    if hasattr(x, 'elements'):
        raise Unsupported("sites of several elements")
    return int(x)


class _StructureMeta(type(Structure)):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(Structure, x)


class FakeStructure(Structure, metaclass=_StructureMeta):
    def __init__(self, lattice, species, coords, charge=None, validate_proximity=False, to_unit_cell=False,
                 coords_are_cartesian=False, site_properties=None, labels=None, properties=None):
        self.__dict__['_fl'] = lattice if isinstance(lattice, FakeLattice) else FakeLattice(lattice)
        self.__dict__['_fs'] = tuple(_number(x) for x in flatten1(species))
        c = sarr(coords).astype('f8')
        if len(self._fs) != len(c):
            raise ValueError("atomic species and fractional coordinates must have same length")
        if to_unit_cell:
            raise Unsupported("sites folded into the cell")
        self.__dict__['_fc'] = self._fl.get_fractional_coords(c) if coords_are_cartesian else c

    @classmethod
    def from_spacegroup(cls, sg, lattice, species, coords, site_properties=None, coords_are_cartesian=False,
                        tol=1e-5, labels=None):
        """Contract: the images of each site under the operations of the group; symbolic sites are in
        general position and are not folded back into the cell"""
        spg = _spacegroup(sg)
        lat = lattice if isinstance(lattice, FakeLattice) else FakeLattice(lattice)
        if not spg.is_compatible(lat):
            raise ValueError("Supplied lattice is incompatible with supplied spacegroup")
        species = list(flatten1(species))
        c = sarr(coords).astype('f8')
        if coords_are_cartesian:
            c = lat.get_fractional_coords(c)
        if len(species) != len(c):
            raise ValueError("Supplied species and coords lengths are different!")
        sp, out = [], []
        for z, x in zip(species, c):
            for y in _orbit(spg, [_cs(v) for v in base(x).reshape(-1)], tol):
                sp.append(z)
                out.append(y)
        return cls(lat, sp, out)

    lattice = property(lambda self: self._fl)
    frac_coords = property(lambda self: self._fc)
    atomic_numbers = property(lambda self: self._fs)
    cart_coords = property(lambda self: snp.matmul(self._fc, self._fl.matrix))
    num_sites = property(lambda self: len(self._fs))

    @property
    def species(self):
        raise Unsupported("Structure.species")

    def __len__(self):
        return len(self._fs)

    def __deepcopy__(self, memo):
        return FakeStructure(self._fl.copy(), self._fs, snp.f_copy(self._fc))

    def copy(self, *a, **k):
        return self.__deepcopy__({})

    def get_primitive_structure(self, *a, **k):
        """Contract: a smallest cell of the same crystal; sites at known fractional coordinates"""
        if len(self._fs) == 1:
            return self.__deepcopy__({})
        F = []
        for r in base(self._fc):
            if any(is_sym(_cs(x)) for x in r):
                raise Unsupported("primitive structure of several sites at symbolic places")
            F.append([Fraction(float(_cs(x))).limit_denominator(10**6) for x in r])
        mod = lambda v: tuple(x % 1 for x in v)
        have = {(z, mod(x)) for z, x in zip(self._fs, F)}
        add = lambda a, b: [x + y for x, y in zip(a, b)]
        T = [mod([y - x for x, y in zip(F[0], g)]) for z, g in zip(self._fs, F) if z == self._fs[0]]
        T = [t for t in T if all((z, mod(add(x, t))) in have for z, x in zip(self._fs, F))]
        if len(T) == 1:
            return self.__deepcopy__({})
        near = sorted({tuple(add(t, s)) for t in T for s in itertools.product((-1, 0, 1), repeat=3)}, key=lambda v: (sum(x * x for x in v), v))
        near = [v for v in near if any(v)][:40]
        for tri in itertools.combinations(near, 3):
            (a, b, c), (d, e, g), (h, i, j) = tri
            if a * (e * j - g * i) - b * (d * j - g * h) + c * (d * i - e * h) == Fraction(1, len(T)):
                break
        else:
            raise Unsupported("primitive cell")
        sites, seen = [], set()
        for k, (z, x) in enumerate(zip(self._fs, F)):
            if (z, mod(x)) not in seen:
                sites.append(k)
                seen |= {(z, mod(add(x, t))) for t in T}
        lat = FakeLattice(snp.matmul(sarr([[float(x) for x in v] for v in tri]), self._fl.matrix))
        cart = base(self.cart_coords)
        return FakeStructure(lat, [self._fs[k] for k in sites], sarr([list(cart[k]) for k in sites]), coords_are_cartesian=True)

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Unsupported(f"Structure.{nm}")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "FakeStructure"

    __str__ = __repr__


def flatten1(x):
    return [_cs(v) for v in (base(x).reshape(-1) if isinstance(x, np.ndarray) else x)]


def _spacegroup(sg):
    from pymatgen.symmetry.groups import SpaceGroup
    sg = _cs(sg)
    try:
        return SpaceGroup.from_int_number(int(sg))
    except ValueError:
        return SpaceGroup(sg)


def _orbit(spg, c, tol):
    """images of a site under the operations of a space group"""
    if not any(is_sym(x) for x in c):
        return [list(map(float, y)) for y in spg.get_orbit([float(x) for x in c], tol=tol)]
    out = []
    for op in sorted(spg.symmetry_ops, key=str):
        m = [[Fraction(float(v)).limit_denominator(48) for v in r] for r in op.affine_matrix]
        out.append([m[i][0] * c[0] + m[i][1] * c[1] + m[i][2] * c[2] + m[i][3] for i in range(3)])
    return out


class FakeAtoms:
    """recorder standing for ase.Atoms"""

    def __init__(self, symbols=None, positions=None, numbers=None, cell=None, pbc=None, **k):
        self.symbols = symbols
        self._num = snp.c_array(symbols if symbols is not None else (numbers if numbers is not None else []))
        self._pos = snp.c_array(positions) if positions is not None else None
        self._cell = None if cell is None else snp.c_array(cell)
        self._pbc = np.array([bool(x) for x in np.broadcast_to(False if pbc is None else pbc, 3)])
        if self._pos is not None and symbols is not None and len(self._num) != len(self._pos):
            raise ValueError("Array \"positions\" has wrong length")

    numbers = property(lambda s: s._num)
    positions = property(lambda s: s._pos)
    cell = property(lambda s: s._cell)

    pbc = property(lambda s: s._pbc.copy())

    def get_pbc(self):
        return self._pbc.copy()

    def get_positions(self, wrap=False, **k):
        if not wrap or not self._pbc.any():
            return snp.f_copy(self._pos)
        return self._wrapped(**k)

    def _wrapped(self, **k):
        # ase.geometry.wrap_positions, for box-shaped cells
        L = self._cell if self._cell is not None else None
        if k or L is None or L.shape != (3,):
            raise Unsupported('ase.Atoms.get_positions: wrapping options')
        out = snp.f_copy(self._pos)
        for a in range(3):
            if self._pbc[a]:
                for i in range(len(out)):
                    q = out[i, a] / L[a]
                    out[i, a] = (q - np.floor(q + 1e-7)) * L[a]
        return out

    def wrap(self, **k):
        self._pos = self._wrapped(**k)

    def get_atomic_numbers(self):
        return snp.f_copy(self._num)

    def __len__(self):
        return len(self._num)

    def set_cell(self, c, **k):
        self._cell = snp.c_array(c)

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Unsupported(f"ase.Atoms.{nm}")


def fake_pmg_molecule(species, positions):
    """a pymatgen molecule whose coordinates are symbolic"""
    from pymatgen.core.structure import Molecule
    from pymatgen.core import Element

    class FakeMolecule(Molecule):
        def __init__(self):
            self.__dict__['_sp'] = [Element.from_Z(int(z)) for z in species]
            self.__dict__['_xyz'] = sarr(positions).astype('f8')

        species = property(lambda self: list(self._sp))
        atomic_numbers = property(lambda self: tuple(e.number for e in self._sp))
        cart_coords = property(lambda self: snp.f_copy(self._xyz))
        __len__ = lambda self: len(self._sp)
        num_sites = property(lambda self: len(self._sp))

        def __getattr__(self, nm):
            if nm.startswith('__'):
                raise AttributeError(nm)
            raise Unsupported(f"Molecule.{nm}")
    return FakeMolecule()


WRITES = []        # recorded calls of ase.io.write


def record_write(filename, images, format=None, parallel=True, append=False, **kw):
    k = dict(kw)
    if format is not None:
        k['format'] = format
    if append:
        k['append'] = append
    WRITES.append((filename, images, k))


def sym_Symbols(nums):
    from ase.symbols import Symbols
    return Symbols([int(x) for x in nums])


# ------------------------------------------------------------------ installation

SYMDRAWS = None


class _DrawProxy:
    """numpy.random as seen by the code under test (per-path state)"""

    def __getattr__(self, nm):
        C = core.ctx()
        if C.rand is None:
            C.rand = LegacyRandom(SymDraws())
        return getattr(C.rand, nm)


def install():
    """replace module globals of czone by symbolic-capable ones (in this process only)"""
    import sys
    import types
    import czone  # noqa: F401
    import scipy.spatial
    import scipy.optimize
    import scipy.sparse
    from scipy.spatial.transform import Rotation as scRot
    import ase
    import ase.io
    import ase.symbols
    rp = _DrawProxy()
    replace(np.random, rp)
    replace(np.random.default_rng, lambda seed=None: rp.default_rng(seed))
    for nm in ('rand', 'random', 'uniform', 'randint', 'randn', 'normal', 'choice', 'permutation', 'shuffle', 'seed'):
        replace(getattr(np.random, nm), (lambda n: lambda *a, **k: getattr(rp, n)(*a, **k))(nm))
    replace(scipy.spatial.Delaunay, SymDelaunay)
    replace(scipy.spatial.ConvexHull, SymConvexHull)
    replace(scipy.spatial.HalfspaceIntersection, SymHalfspaceIntersection)
    replace(scipy.optimize.linprog, sym_linprog)
    replace(scRot, SymRot)
    replace(scipy.sparse.csr_matrix, SymCSR)
    replace(ase.Atoms, FakeAtoms)
    replace(Lattice, FakeLattice)
    replace(Structure, FakeStructure)
    replace(ase.io.write, record_write)
    replace(ase.symbols.Symbols, sym_Symbols)
    import importlib
    for m in ('czone.volume.volume', 'czone.volume.algebraic', 'czone.volume.voxel', 'czone.scene.scene',
              'czone.generator.generator', 'czone.generator.amorphous_algorithms', 'czone.transform.transform',
              'czone.transform.strain', 'czone.transform.post', 'czone.molecule.molecule', 'czone.util.misc',
              'czone.util.measure', 'czone.surface.adsorbate', 'czone.surface.alpha_shape',
              'czone.prefab.prefab', 'czone.prefab.wulff'):
        try:
            importlib.import_module(m)
        except ModuleNotFoundError:
            pass
    for name, mod in list(sys.modules.items()):
        if not (name == 'czone' or name.startswith('czone.')) or mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            if isinstance(v, types.ModuleType) and (v.__name__ == 'czone' or v.__name__.startswith('czone.')):
                continue
            r = snp.shim_value(v)
            if r is not v:
                g[k] = r
        g.setdefault('float', snp.FloatShim)
        g.setdefault('int', snp.IntShim)
