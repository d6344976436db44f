"""Symbolic scalars and path exploration.

The real code of /repo is *executed* (by CPython) on these scalars: every input is a
z3 variable, every arithmetic operation builds a z3 term, and every place where Python
needs a concrete truth value / index forks the execution (depth first, by re-execution
with a decision prefix), keeping only sides z3 cannot refute under the path condition.

Numbers are mathematical reals / integers.  A real is kept as  num / prod(atom^k)  where
num is a z3 polynomial and the atoms are z3 polynomials known to be non-zero on the path,
so that equalities and inequalities reach the solver as polynomial constraints.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np

from .z3path import sys  # noqa: F401
import z3

z3.set_param('memory_max_size', 6000)


class EngineStop(BaseException):
    """Base of everything that must not be swallowed by code under test."""


class Unsupported(EngineStop):
    """The code did something the encoding does not model."""


class PathInfeasible(EngineStop):
    """An assumption is unsatisfiable on this path."""


class Budget(EngineStop):
    """Exploration budget exhausted."""


class DrawHang(EngineStop):
    pass


class PathCut(EngineStop):
    """Path left the stated bounds (e.g. more loop iterations than the bound)."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


SOM = dict(som=True, som_blowup=10 ** 9)


def ast_size(e, cap=40000):
    seen = set()
    st = [e]
    while st and len(seen) < cap:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return len(seen)


def simp(e):
    return z3.simplify(e)


def expand(e):
    return z3.simplify(e, **SOM)


def nice_fraction(f):
    """Python float -> rational.  Floats within 4 ulp of a short decimal/rational are read as
    that rational (0.1 -> 1/10, 1/3 -> 1/3): the code's literals are idealised as reals."""
    fr = Fraction(f)
    if fr.denominator == 1:
        return fr
    if abs(fr) > Fraction(1, 10 ** 14) and abs(fr) < 10 ** 9:
        g = fr.limit_denominator(5000)
        if g != 0 and abs(g - fr) <= abs(fr) * Fraction(1, 2 ** 50):
            return g
    g = Fraction(repr(float(f)))
    if len(repr(float(f))) <= 12:
        return g
    return fr


def zreal(fr):
    fr = Fraction(fr)
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)


def num_const(e):
    """Fraction if e is a numeral else None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def is_sym(x):
    return isinstance(x, (SNum, SBool, SAngle))


# --------------------------------------------------------------------------- booleans


EXACT = {}


def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return x.nonzero().e if isinstance(x.nonzero(), SBool) else z3.BoolVal(x.nonzero())
    if isinstance(x, numbers.Number):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return zbool(x.item())
    raise Unsupported(f"not a boolean: {type(x)}")


def mkbool(e):
    """SBool, or a Python bool when the term simplifies to a constant."""
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def b_and(*xs):
    xs = [x for x in xs]
    if any(isinstance(x, (bool, np.bool_)) and not x for x in xs):
        return False
    es = [zbool(x) for x in xs if not (isinstance(x, (bool, np.bool_)) and x)]
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else mkbool(es[0])


def b_or(*xs):
    if any(isinstance(x, (bool, np.bool_)) and x for x in xs):
        return True
    es = [zbool(x) for x in xs if not (isinstance(x, (bool, np.bool_)) and not x)]
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else mkbool(es[0])


def b_not(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return mkbool(z3.Not(zbool(x)))


def b_iff(a, b):
    if isinstance(a, (bool, np.bool_)):
        return b if a else b_not(b)
    if isinstance(b, (bool, np.bool_)):
        return a if b else b_not(a)
    return mkbool(zbool(a) == zbool(b))


def b_implies(a, b):
    return b_or(b_not(a), b)


class _SymBase:
    """Scalar protocol shared by symbolic values, so that they survive numpy idioms."""
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.handle_function(func, args, kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def astype(self, dt, **k):
        from . import snp
        return snp.cast(self, dt)

    def _arr(self):
        from . import snp
        return snp.sarr(self)

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def ravel(self):
        return self._arr().ravel()

    flatten = ravel

    @property
    def T(self):
        return self

    def __getitem__(self, idx):
        return self._arr()[idx]

    def __iter__(self):
        raise TypeError("iteration over a 0-d array")

    def __len__(self):
        raise TypeError("len() of unsized object")

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


# keep hasattr(x,'__iter__') False for scalars, as for numpy scalars (np.float64 has no __iter__)
del _SymBase.__iter__, _SymBase.__len__


def _is_arr(x):
    return isinstance(x, (np.ndarray, list, tuple))


def _lift_arr(op):
    """numpy broadcasting when the other operand is an array"""
    def f(self, other):
        from . import snp
        return snp.apply_ufunc(op[0], (self, other) if not op[1] else (other, self))
    return f


class SBool(_SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __repr__(self):
        return f"SBool({str(self.e)[:60]})"

    def __and__(self, o):
        if _is_arr(o):
            return NotImplemented
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if _is_arr(o):
            return NotImplemented
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if _is_arr(o):
            return NotImplemented
        return b_not(b_iff(self, o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def as_int(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), kind='i')

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return b_iff(self, o)
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (numbers.Number, SNum)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self.as_int()


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'mod',
           'pow', 'lt', 'le', 'gt', 'ge'):
    def _mk(nm):
        def f(self, o):
            if isinstance(o, SBool):
                o = o.as_int()
            return getattr(self.as_int(), nm)(o)
        return f
    setattr(SBool, f'__{_n}__', _mk(f'__{_n}__'))
for _n in ('neg', 'pos', 'abs'):
    def _mk1(nm):
        def f(self):
            return getattr(self.as_int(), nm)()
        return f
    setattr(SBool, f'__{_n}__', _mk1(f'__{_n}__'))


# --------------------------------------------------------------------------- numbers


def lift(x):
    """anything numeric -> SNum, or None if it is a special float (nan/inf)"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, (bool, np.bool_)):
        return SNum(z3.IntVal(int(x)), kind='i')
    if isinstance(x, (int, np.integer)):
        return SNum(z3.IntVal(int(x)), kind='i')
    if isinstance(x, Fraction):
        return SNum(zreal(x), kind='f')
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        if x == int(x) and abs(x) < 2 ** 60:
            return SNum(z3.IntVal(int(x)), kind='f')
        return SNum(zreal(nice_fraction(x)), kind='f')
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    raise TypeError(f"unsupported operand {type(x)}")


def _special(x):
    return isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x))


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def _den_expr(d):
    atoms = ctx().atoms
    r = None
    for k, p in sorted(d.items()):
        for _ in range(p):
            r = atoms[k][0] if r is None else r * atoms[k][0]
    return r


def _den_mul(a, b):
    if not a:
        return dict(b)
    r = dict(a)
    for k, p in b.items():
        r[k] = r.get(k, 0) + p
    return r


def _scale_to(n, d, L):
    """n/d rewritten over denominator L: returns the numerator"""
    m = {k: p - d.get(k, 0) for k, p in L.items() if p - d.get(k, 0) > 0}
    if not m:
        return n
    return _real(n) * _den_expr(m)


def _common(a, b):
    if not a.d and not b.d:
        return a.n, b.n, {}
    L = dict(a.d)
    for k, p in b.d.items():
        L[k] = max(L.get(k, 0), p)
    return _scale_to(a.n, a.d, L), _scale_to(b.n, b.d, L), L


def _match(p, q):
    if z3.is_int(p) != z3.is_int(q):
        return _real(p), _real(q)
    return p, q


class SNum(_SymBase):
    __slots__ = ('n', 'd', 'kind')

    def __init__(self, n, d=None, kind='f'):
        self.n = n
        self.d = d or {}
        self.kind = kind

    def __repr__(self):
        return f"SNum({str(self.n)[:60]}{'/..' if self.d else ''})"

    # -- queries
    def const(self):
        c = num_const(simp(self.n))
        if c is None:
            return None
        if not self.d or c == 0:
            return c
        return None

    def expr(self):
        """as a z3 term (with division; only used for models/printing)"""
        if not self.d:
            return self.n
        return _real(self.n) / _den_expr(self.d)

    def nonzero(self):
        c = self.const()
        if c is not None:
            return c != 0
        return mkbool(self.n != 0)

    def __bool__(self):
        r = self.nonzero()
        return r if isinstance(r, bool) else bool(r)

    # -- arithmetic
    def _bin(self, o, f):
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SAngle):
            return NotImplemented
        if _special(o):
            return self._special_bin(o, f)
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'f'
        p, q, L = _common(self, o)
        p, q = _match(p, q)
        r = simp(f(p, q))
        if L and num_const(r) == 0:
            L = {}
        return SNum(r, L, kind)

    def _special_bin(self, o, f):
        return f(0.0, float(o))  # finite +- special

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if _is_arr(o) or isinstance(o, SAngle):
            return NotImplemented
        if _special(o):
            if math.isnan(o):
                return float('nan')
            s = self.sign()
            s = int(s) if not isinstance(s, SNum) else int(s)
            return float('nan') if s == 0 else s * float(o)
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'f'
        ca, cb = num_const(self.n), num_const(o.n)
        if ca == 0 or cb == 0:
            return SNum(z3.IntVal(0), None, kind)
        if ca == 1 and not self.d:
            return SNum(o.n, o.d, kind)
        if cb == 1 and not o.d:
            return SNum(self.n, self.d, kind)
        p, q = _match(self.n, o.n)
        C = ctx()
        if C.roots:
            return SNum(*C.reduce_den(C.mul_roots(p, q), _den_mul(self.d, o.d)), kind)
        return SNum(simp(p * q), _den_mul(self.d, o.d), kind)

    __rmul__ = __mul__

    def _div(self, o):
        """self / o (both SNum)"""
        co = num_const(simp(o.n))
        if co is not None and co != 0 and not o.d:
            return SNum(simp(_real(self.n) * zreal(1 / co)), self.d, 'f')
        nz = ctx().known_nonzero(o)
        if not nz:
            # numpy float semantics: x/0 -> nan or signed inf
            s = self.sign()
            s = int(s)
            return float('nan') if s == 0 else s * float('inf')
        if co is not None:
            extra, c = {}, co
        else:
            k, c = ctx().atom(o.n)
            extra = {k: 1}
        n = _real(self.n)
        if c != 1:
            n = n * zreal(1 / c)
        if o.d:
            # cancel common denominators first
            d = dict(self.d)
            up = {}
            for k2, p in o.d.items():
                t = min(p, d.get(k2, 0))
                if t:
                    d[k2] -= t
                    if d[k2] == 0:
                        del d[k2]
                if p - t:
                    up[k2] = p - t
            if up:
                n = n * _den_expr(up)
        else:
            d = dict(self.d)
        return SNum(*ctx().reduce_den(simp(n), _den_mul(d, extra)), 'f')

    def __truediv__(self, o):
        if _is_arr(o) or isinstance(o, SAngle):
            return NotImplemented
        if _special(o):
            return float('nan') if math.isnan(o) else 0.0
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return self._div(o)

    def __rtruediv__(self, o):
        if _is_arr(o) or isinstance(o, SAngle):
            return NotImplemented
        if _special(o):
            if math.isnan(o):
                return float('nan')
            s = int(self.sign())
            return float(o) * (s if s else 1)
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return o._div(self)

    def __neg__(self):
        return SNum(simp(-self.n), self.d, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.const()
        if c is not None:
            return SNum(zreal(abs(c)) if c.denominator != 1 else z3.IntVal(abs(c.numerator)), None, self.kind)
        if self._known_zero():
            return SNum(z3.IntVal(0), None, self.kind)
        pos = (self >= 0)
        if pos is True:
            return self
        if pos is False:
            return -self
        k = ctx().known(pos.e)
        if k is True:
            return self
        if k is False:
            return -self
        return ite(pos, self, -self)

    def _known_zero(self):
        if ast_size(self.n, 3000) >= 3000:
            return False
        return num_const(expand(self.n)) == 0

    def sign(self):
        c = self.const()
        if c is not None:
            return (c > 0) - (c < 0)
        g = self > 0
        if g is True or (isinstance(g, SBool) and bool(g)):
            return 1
        l = self < 0
        if l is True or (isinstance(l, SBool) and bool(l)):
            return -1
        return 0

    def __pow__(self, o):
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SNum):
            c = o.const()
            if c is None:
                raise Unsupported("symbolic exponent")
            o = c
        o = Fraction(o) if not isinstance(o, Fraction) else o
        if o.denominator == 1:
            k = int(o)
            if k == 0:
                return SNum(z3.IntVal(1), None, self.kind)
            b = self if k > 0 else 1 / self
            r = b
            for _ in range(abs(k) - 1):
                r = r * b
            if isinstance(r, SNum):
                r = SNum(r.n, r.d, self.kind if k > 0 else 'f')
            return r
        if o == Fraction(1, 2):
            return sqrt(self)
        if o == Fraction(-1, 2):
            return 1 / sqrt(self)
        raise Unsupported(f"power {o}")

    def __rpow__(self, o):
        k = self.concretize()
        return o ** k

    def _intpair(self, o):
        return (isinstance(o, SNum) and z3.is_int(self.n) and z3.is_int(o.n) and not self.d and not o.d)

    def __floordiv__(self, o):
        if _is_arr(o):
            return NotImplemented
        o = lift(o)
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'f'
        if self._intpair(o):
            c = num_const(simp(o.n))
            if c is None:
                if bool(o == 0):
                    raise Unsupported("integer division by zero")
                pos = bool(o > 0)
            elif c == 0:
                raise Unsupported("integer division by zero")
            else:
                pos = c > 0
            if pos:
                return SNum(simp(self.n / o.n), None, kind)
            return SNum(simp((-self.n) / (-o.n)), None, kind)
        r = (self / o)
        if not isinstance(r, SNum):
            return r
        r = r.floor()
        return SNum(r.n, r.d, kind)

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        if _is_arr(o):
            return NotImplemented
        o = lift(o)
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'f'
        if self._intpair(o):
            c = num_const(simp(o.n))
            if c is not None and c > 0:
                return SNum(simp(self.n % o.n), None, kind)
        r = self - self.__floordiv__(o) * o
        return SNum(r.n, r.d, kind)

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    # -- rounding
    def floor(self):
        if z3.is_int(self.n) and not self.d:
            return self
        c = self.const()
        if c is not None:
            return SNum(z3.IntVal(math.floor(c)), None, 'f')
        if not self.d:
            return SNum(simp(z3.ToInt(self.n)), None, 'f')
        k = z3.Int(ctx().fresh_name('floor'))
        kk = SNum(k, None, 'f')
        ctx().define(b_and(kk <= self, self < kk + 1), ('floor', self, kk))
        return kk

    def ceil(self):
        r = (-self).floor()
        return -r

    def trunc(self):
        if z3.is_int(self.n) and not self.d:
            return self
        return ite(self >= 0, self.floor(), self.ceil())

    def rint(self):
        """round half to even"""
        if z3.is_int(self.n) and not self.d:
            return self
        h = self + Fraction(1, 2)
        f = h.floor()
        tie = b_and(h == f, SNum(simp(f.n % 2), None, 'i') == 1)
        return ite(tie, f - 1, f)

    def __floor__(self):
        r = self.floor()
        return SNum(r.n, r.d, 'i')

    def __ceil__(self):
        r = self.ceil()
        return SNum(r.n, r.d, 'i')

    def __trunc__(self):
        r = self.trunc()
        return SNum(r.n, r.d, 'i')

    def __round__(self, nd=None):
        if nd:
            s = 10 ** nd
            return (self * s).rint() / s
        r = self.rint()
        return SNum(r.n, r.d, 'i' if nd is None else self.kind)

    def toint(self):
        r = self.trunc()
        if not isinstance(r, SNum):
            return int(r)
        return SNum(r.n, r.d, 'i')

    # -- comparisons
    def _cmp(self, o, op):
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SAngle):
            return NotImplemented
        if o is None or isinstance(o, str):
            if op in ('==', '!='):
                return op == '!='
            return NotImplemented
        if _special(o):
            return {'<': 0.0 < o, '<=': 0.0 <= o, '>': 0.0 > o, '>=': 0.0 >= o, '==': False,
                    '!=': True}[op]
        try:
            o = lift(o)
        except TypeError:
            if op in ('==', '!='):
                return op == '!='
            return NotImplemented
        p, q, L = _common(self, o)
        if op not in ('==', '!='):
            for k, e in L.items():
                if e % 2 and not ctx().atom_positive(k):
                    if ctx().atom_positive(k, neg=True):
                        p, q = -_real(p), -_real(q)
                    else:
                        a = ctx().atoms[k][0]
                        p, q = _real(p) * a, _real(q) * a
        p, q = _match(p, q)
        cp, cq = num_const(p), num_const(q)
        if cp is not None and cq is not None:
            return {'<': cp < cq, '<=': cp <= cq, '>': cp > cq, '>=': cp >= cq, '==': cp == cq, '!=': cp != cq}[op]
        if not (z3.is_int(p)):
            diff = simp(p - q)
            if num_const(diff) is None and ast_size(diff, 4000) < 4000:
                diff = expand(diff)
            c = num_const(diff)
            if c is not None:
                return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
            r = ctx().cmp_root(diff, op)
            if r is not None:
                return mkbool(r)
        return mkbool({'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q, '==': p == q, '!=': p != q}[op])

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return hash(self.concretize())

    # -- concretisation
    def concretize(self):
        """fork over the feasible values of an integer term"""
        c = self.const()
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
        if z3.is_int(self.n) and not self.d:
            return ctx().concretize_int(self.n)
        raise Unsupported("a symbolic real is needed as a concrete float")

    def __index__(self):
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concretize()

    def __int__(self):
        return int(self.toint().concretize())

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if z3.is_int(self.n) and not self.d:
            return float(ctx().concretize_int(self.n))
        raise Unsupported("float() of a symbolic real")

    def __complex__(self):
        raise Unsupported("complex")

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return self == self.floor()

    def sqrt(self):
        return sqrt(self)

    # ndarray-scalar methods
    def sum(self, *a, **k):
        return self

    mean = max = min = prod = sum

    def round(self, decimals=0, out=None):
        return self.__round__(decimals) if decimals else SNum(self.rint().n, None, self.kind)

    def any(self, *a, **k):
        return self.nonzero()

    all = any

    def dot(self, o):
        return self * o

    def clip(self, a, b):
        return smin(smax(self, a), b)

    @property
    def dtype(self):
        return np.dtype(np.int64 if self.kind == 'i' else np.float64)


def ite(c, a, b):
    """if-then-else on numbers, no fork"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, SAngle) or isinstance(b, SAngle) or _special(a) or _special(b):
        return a if bool(c) else b
    try:
        a, b = lift(a), lift(b)
    except TypeError:
        return a if bool(c) else b
    kind = 'i' if a.kind == 'i' and b.kind == 'i' else 'f'
    p, q, L = _common(a, b)
    p, q = _match(p, q)
    if p.eq(q):
        return SNum(p, L, kind)
    r = simp(z3.If(c.e, p, q))
    C = CTX
    if C is not None and C.purify and kind == 'f' and r.decl().kind() == z3.Z3_OP_ITE and not z3.is_int(r) and not _int_leaves(r):
        # a name for the conditional value: keeps products of conditionals out of the arithmetic
        key = r.get_id()
        if key not in C.purified:
            v = z3.Real(C.fresh_name('ite'))
            C.add(z3.If(c.e, v == p, v == q))
            C.purified[key] = (r, v)
        return SNum(C.purified[key][1], L, kind)
    return SNum(r, L, kind)


def _int_leaves(e):
    if e.decl().kind() == z3.Z3_OP_ITE:
        return _int_leaves(e.arg(1)) and _int_leaves(e.arg(2))
    return z3.is_int(e) or z3.is_to_real(e) or z3.is_rational_value(e)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if _special(a) or _special(b):
        if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
            return float('nan')
    c = b < a
    return ite(c, b, a)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if _special(a) or _special(b):
        if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
            return float('nan')
    c = b > a
    return ite(c, b, a)


def _isqrt_frac(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(x):
    if isinstance(x, SAngle):
        raise Unsupported("sqrt of angle")
    if not is_sym(x):
        if ctx().exact_surds:
            x = lift(x)
            if x is None:
                return float('nan')
        else:
            return math.sqrt(x) if x >= 0 else float('nan')
    return ctx().sqrt(lift(x))


def arccos(x):
    """angle in [0, pi] with the given cosine; nan outside [-1, 1]"""
    c = x.const()
    if c is not None:
        return math.acos(float(c)) if -1 <= c <= 1 else float('nan')
    C = ctx()
    bad = b_or(x > 1, x < -1)
    if bad is True or (isinstance(bad, SBool) and C.branch(bad.e, unknown=False)):
        return float('nan')
    s = C.sqrt(lift(1) - x * x)
    return C.new_angle(C.fresh_name('acos'), x, s)


def arcsin(x):
    r = arccos(x)
    return r if isinstance(r, float) and math.isnan(r) else math.pi / 2 - r


def arctan(x):
    raise Unsupported("arctan of a symbolic number")


# --------------------------------------------------------------------------- angles


class SAngle(_SymBase):
    """scale * (sum_i k_i*theta_i + c)  where theta_i are base angles with known cos/sin and
    k_i small rationals, c a concrete float, scale a number (for rotation vectors)."""
    __slots__ = ('terms', 'c', 'scale')

    def __init__(self, terms, c=0.0, scale=1):
        self.terms = terms        # dict name -> Fraction
        self.c = c
        self.scale = scale

    kind = 'f'
    dtype = np.dtype(np.float64)

    def __repr__(self):
        return f"SAngle({self.terms},{self.c},{self.scale})"

    def _unscaled(self):
        return isinstance(self.scale, (int, float)) and self.scale == 1

    def _add(self, o, sg, rev=False):
        a = self
        if not self._unscaled():
            if isinstance(o, SAngle) and o.terms == self.terms and o.c == self.c:
                return SAngle(self.terms, self.c, self.scale + sg * o.scale)
            if not is_sym(o) and not _is_arr(o) and o == 0:
                return self
            raise Unsupported("sum of scaled angles")
        if isinstance(o, SAngle):
            if not o._unscaled():
                raise Unsupported("sum of scaled angles")
            t = dict(self.terms)
            for k, v in o.terms.items():
                t[k] = t.get(k, 0) + sg * v
            t = {k: v for k, v in t.items() if v != 0}
            return SAngle(t, self.c + sg * o.c)
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SNum):
            c = o.const()
            if c is None:
                raise Unsupported("angle + symbolic number")
            o = float(c)
        return SAngle(self.terms, self.c + sg * float(o))

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SAngle):
            raise Unsupported("angle * angle")
        if isinstance(o, SNum):
            c = o.const()
            if c is None:
                return SAngle(self.terms, self.c, o * self.scale)
            o = c
        f = nice_fraction(float(o)) if not isinstance(o, Fraction) else o
        if self._unscaled() and f.denominator <= 64:
            if f == 0:
                return 0.0
            return SAngle({k: v * f for k, v in self.terms.items()}, self.c * float(f))
        return SAngle(self.terms, self.c, self.scale * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SNum):
            c = o.const()
            if c is None:
                return SAngle(self.terms, self.c, self.scale / o)
            o = c
        return self * (1 / Fraction(o) if not isinstance(o, float) else 1 / nice_fraction(o))

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    def __mod__(self, m):
        m = float(m)
        for k in range(64):
            for j in ((k,) if k == 0 else (k, -k)):
                if bool(self >= j * m) and bool(self < (j + 1) * m):
                    return self - j * m
        raise Unsupported("angle modulo a small number")

    def __floordiv__(self, m):
        m = float(m)
        for k in range(64):
            for j in ((k,) if k == 0 else (k, -k)):
                if bool(self >= j * m) and bool(self < (j + 1) * m):
                    return float(j)
        raise Unsupported("angle divided by a small number")

    def cos(self):
        return self.cs()[0]

    def sin(self):
        return self.cs()[1]

    def cs(self):
        s = self.scale
        if not self._unscaled():
            raise Unsupported("cos/sin of a scaled angle")
        q = self.c / (math.pi / 2)
        r = round(q)
        if abs(q - r) < 1e-12:
            C, S = [(1, 0), (0, 1), (-1, 0), (0, -1)][r % 4]
        else:
            C, S = math.cos(self.c), math.sin(self.c)
        for k, v in sorted(self.terms.items()):
            ck, sk = ctx().angle_cs(k, v)
            C, S = C * ck - S * sk, S * ck + C * sk
        return C, S

    def tan(self):
        c, s = self.cs()
        return s / c

    def _cmp(self, o, op):
        """comparison with a concrete number; only for  +-theta + c  with theta in [0, pi]"""
        if _is_arr(o):
            return NotImplemented
        if isinstance(o, SAngle):
            return (self - o)._cmp(0.0, op) if (self.terms != o.terms) else {
                '<': self.c < o.c, '<=': self.c <= o.c, '>': self.c > o.c, '>=': self.c >= o.c}[op]
        if not self.terms:
            return {'<': self.c < o, '<=': self.c <= o, '>': self.c > o, '>=': self.c >= o}[op]
        if isinstance(o, SNum):
            c = o.const()
            if c is None:
                raise Unsupported("angle vs symbolic number")
            o = float(c)
        if not self._unscaled() or len(self.terms) != 1:
            raise Unsupported("comparison of compound angles")
        (k, v), = self.terms.items()
        lo, hi = ctx().angle_range(k)
        # v*theta + c op o   <=>   theta op' (o-c)/v
        t = (o - self.c) / float(v)
        if v < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if abs(t) < 1e-13:
            t = 0.0 if self.c == 0 and o == 0 else t
        return ctx().angle_cmp(k, op, t)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return b_and(self <= o, self >= o)

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        raise Unsupported("hash of angle")

    def __float__(self):
        raise Unsupported("float of a symbolic angle")


# --------------------------------------------------------------------------- exploration


class Ctx:
    def __init__(self, limits=None):
        lim = dict(max_paths=20000, time=600.0, branch_ms=4000, prove_ms=20000, int_values=64)
        lim.update(limits or {})
        self.lim = lim
        self.t0 = time.time()
        self.stats = dict(branch_queries=0, prove_queries=0, solver_s=0.0, paths=0, infeasible=0,
                          unknown_branch=0, decisions=0, cut=0)
        self.exact_surds = False
        self.trace = []          # list of [choice(bool), alternative_open(bool)]
        self.reset()

    # ---- per path state
    def reset(self):
        self.pos = 0
        self.pc = []             # z3 constraints of the path (assumptions, definitions, branches)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.lim['branch_ms'])
        self.nfresh = 0
        self.atoms = {}          # id -> (expr, sign)   sign in {'+','-','?'}
        self.atom_ids = {}
        self.roots = {}
        self._rootmemo = {}
        self._splitmemo = {}
        self.sqrts = []          # (radicand SNum, root SNum)
        self.angles = {}         # name -> dict(cos,sin,lo,hi)
        self.inputs = {}         # name -> (kind, z3 var)
        self.branch_cache = {}
        self.path_desc = []
        self.assumed_unknown = []
        self.purify = False
        self.fork_minmax = False
        self.fork_casts = False  # numbers truncated to integers are enumerated at once
        self.purified = {}
        self.draw_hang = False
        self.draw_limit = None   # number of random values after which a path is cut (stated bound)
        self.drawn = {}          # values drawn from stubbed nondeterminism, by name
        self.rand = None
        self.hooks = {}

    def fresh_name(self, base):
        self.nfresh += 1
        return f"{base}!{self.nfresh}"

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def define(self, cond, info=None, exact=False):
        """constraint introduced by a definition of a fresh variable (always satisfiable)"""
        if cond is True:
            return
        e = zbool(cond)
        self.add(e)
        if exact:       # not to be strengthened when looking for models away from decision boundaries
            EXACT[e.get_id()] = e

    def _check(self, *extra):
        t = time.time()
        if t - self.t0 > self.lim['time']:
            raise Budget("time")
        self.stats['branch_queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        return r

    def known(self, e):
        """True/False if the solver decides e on this path, else None"""
        key = e.get_id()
        if key in self.branch_cache:
            return self.branch_cache[key][1]
        r = None
        if self._check(z3.Not(e)) == z3.unsat:
            r = True
        elif self._check(e) == z3.unsat:
            r = False
        if r is not None:
            self.branch_cache[key] = (e, r)
        return r

    def branch(self, e, unknown=None):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.branch_cache:
            return self.branch_cache[key][1]
        if self.pos < len(self.trace):
            c = self.trace[self.pos][0]
            self.pos += 1
            self.add(e if c else z3.Not(e))
            self.branch_cache[key] = (e, c)
            return c
        self.stats['decisions'] += 1
        rt = self._check(e)
        rf = self._check(z3.Not(e)) if rt != z3.unsat else z3.sat
        if rt == z3.unknown or rf == z3.unknown:
            self.stats['unknown_branch'] += 1
        if rt == z3.unsat and rf == z3.unsat:
            raise PathInfeasible()
        both = rt != z3.unsat and rf != z3.unsat
        c = rt != z3.unsat
        if unknown is not None and both and z3.unknown in (rt, rf):
            # side condition the solver cannot settle: follow the stated default only
            self.assumed_unknown.append(str(e)[:120])
            c, both = bool(unknown), False
        self.trace.append([c, both])
        self.pos += 1
        self.add(e if c else z3.Not(e))
        self.branch_cache[key] = (e, c)
        return c

    def choose(self, n):
        """free (nondeterministic) choice in range(n), forked"""
        for i in range(n - 1):
            b = z3.Bool(self.fresh_name('choice'))
            if self.branch(b):
                return i
        return n - 1

    def concretize_int(self, e):
        e = simp(e)
        c = num_const(e)
        if c is not None:
            return int(c)
        key = ('int', e.get_id())
        if key in self.branch_cache:
            return self.branch_cache[key][1]
        for _ in range(self.lim['int_values']):
            if self.pos < len(self.trace):
                v = self.trace[self.pos][2] if len(self.trace[self.pos]) > 2 else None
                if v is None:
                    raise Unsupported("non-deterministic re-execution (int)")
                ch = self.trace[self.pos][0]
                self.pos += 1
                self.add(e == v if ch else e != v)
                if ch:
                    self.branch_cache[key] = (e, v)
                    return v
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise Unsupported("cannot enumerate an integer (solver unknown)")
            m = self.solver.model()
            v = m.eval(e, model_completion=True).as_long()
            self.stats['decisions'] += 1
            other = self._check(e != v)
            self.trace.append([True, other != z3.unsat, v])
            self.pos += 1
            self.add(e == v)
            self.branch_cache[key] = (e, v)
            return v
        raise Unsupported("an integer with too many values had to be enumerated")

    def next_path(self):
        while self.trace:
            last = self.trace[-1]
            if last[1] and last[0]:
                last[0] = False
                last[1] = False
                return True
            self.trace.pop()
        return False

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathInfeasible()
            return
        e = simp(zbool(cond))
        if z3.is_false(e):
            raise PathInfeasible()
        self.add(e)

    # ---- atoms (denominators)
    def atom(self, n):
        """returns (id, c): the non-constant polynomial n equals c * atom"""
        n = _real(n)
        n2 = simp(n)
        if ast_size(n2, 2000) < 2000:
            n2 = expand(n2)
        # pull out a leading rational coefficient  c*x
        c = Fraction(1)
        if z3.is_mul(n2):
            ch = n2.children()
            c0 = num_const(ch[0])
            if c0 is not None and len(ch) >= 2:
                c = c0
                rest = ch[1]
                for x in ch[2:]:
                    rest = rest * x
                n2 = simp(rest)
        k = n2.get_id()
        if k not in self.atom_ids:
            self.atom_ids[k] = k
            self.atoms[k] = [n2, None]
        return k, c

    def atom_positive(self, k, neg=False):
        a = self.atoms[k]
        if a[1] is None:
            if self._check(a[0] <= 0) == z3.unsat:
                a[1] = '+'
            elif self._check(a[0] >= 0) == z3.unsat:
                a[1] = '-'
            else:
                a[1] = '?'
        return a[1] == ('-' if neg else '+')

    def known_nonzero(self, x):
        c = num_const(simp(x.n))
        if c is not None:
            return c != 0
        nn = x.n
        if z3.is_mul(simp(nn)) or True:
            nn = simp(nn)
        if ast_size(nn, 2000) < 2000:
            ex = expand(nn)
            c = num_const(ex)
            if c is not None:
                return c != 0
            nn = ex
        return self.branch(nn != 0)

    # ---- square roots
    def sqrt(self, x):
        c = x.const()
        if c is not None:
            if c < 0:
                return float('nan')
            r = _isqrt_frac(c)
            if r is not None:
                return lift(r)
        if x._known_zero():
            return lift(0.0)
        for rad, root in self.sqrts:
            if (rad == x) is True:
                return root
        # candidates: roots already known, and 1
        for root in [lift(1)] + [r for _, r in self.sqrts]:
            if (root * root == x) is True:
                return root
        if x.d:
            # pull the denominator out of the root:  sqrt(n/prod a^k)
            n, den = x.n, lift(1)
            for k, p in sorted(x.d.items()):
                a = SNum(self.atoms[k][0], None, 'f')
                if p % 2:
                    n = _real(n) * self.atoms[k][0]
                for _ in range((p + 1) // 2):
                    den = den * a
            rn = self.sqrt(SNum(simp(n), None, 'f'))
            if not isinstance(rn, SNum):
                return rn
            return rn / abs(den)
        # rational factor that is a perfect square
        r = SNum(z3.Real(self.fresh_name('sqrt')), None, 'f')
        if x.d:
            e = (r * r == x)
            if not isinstance(e, SBool):
                raise Unsupported("sqrt")
        neg = (x < 0)
        if neg is True:
            return float('nan')
        if isinstance(neg, SBool) and not self._sum_of_squares(x) and bool(neg):
            return float('nan')
        self.add(r.n >= 0)
        self.add(zbool(r * r == x))
        self.sqrts.append((x, r))
        if not x.d:
            self.roots[r.n.get_id()] = (r.n, _real(x.n))
        return r

    def cmp_root(self, diff, op):
        """comparison  A*s + B op 0  with one square root s of known-sign coefficient A, as a
        comparison of polynomials without s"""
        if not self.roots:
            return None
        rs = self._roots_in(diff)
        if len(rs) != 1 or ast_size(diff, 3000) >= 3000:
            return None
        s, rad = self.roots[next(iter(rs))]
        zero = z3.RealVal(0)
        B = simp(z3.substitute(diff, (s, zero)))
        A = expand(z3.substitute(diff, (s, z3.RealVal(1))) - B)
        if num_const(expand(diff - (A * s + B))) != 0:
            return None
        ca = num_const(A)
        if ca is None:
            if self._check(A <= 0) == z3.unsat:
                sg = 1
            elif self._check(A >= 0) == z3.unsat:
                sg = -1
            else:
                return None
        else:
            sg = 1 if ca > 0 else -1
        if sg < 0:
            A, B = simp(-A), simp(-B)
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        l, r = A * A * rad, B * B
        if op == '<':
            return z3.And(B < 0, l < r)
        if op == '<=':
            return z3.And(B <= 0, l <= r)
        if op == '>':
            return z3.Or(B > 0, l > r)
        if op == '>=':
            return z3.Or(B >= 0, l >= r)
        e = z3.And(B <= 0, l == r)
        return e if op == '==' else z3.Not(e)

    def mul_roots(self, p, q):
        """product of two numerators, with s*s rewritten to its radicand (each numerator is
        kept linear in every root)"""
        common = self._roots_in(p) & self._roots_in(q)
        if not common or ast_size(p, 1500) + ast_size(q, 1500) > 1500:
            return simp(p * q)
        s, rad = self.roots[min(common)]
        p0, p1 = self._split(p, s)
        q0, q1 = self._split(q, s)
        if p1 is None or q1 is None:
            return simp(p * q)
        r0 = self.mul_roots(p0, q0) + self.mul_roots(self.mul_roots(p1, q1), rad)
        r1 = self.mul_roots(p0, q1) + self.mul_roots(p1, q0)
        return simp(r0 + r1 * s)

    def _split(self, p, s):
        key = (p.get_id(), s.get_id())
        if key in self._splitmemo:
            return self._splitmemo[key][1]
        a0 = simp(z3.substitute(p, (s, z3.RealVal(0))))
        a1 = expand(z3.substitute(p, (s, z3.RealVal(1))) - a0)
        if num_const(expand(p - (a0 + a1 * s))) != 0:
            a1 = None
        self._splitmemo[key] = (p, (a0, a1))
        return a0, a1

    def reduce_den(self, n, d):
        """s^2 in a denominator -> radicand"""
        if not self.roots:
            return n, d
        for k in [k for k, p in d.items() if p >= 2 and k in self.roots]:
            s, rad = self.roots[k]
            d = dict(d)
            h = d[k] // 2
            d[k] -= 2 * h
            if not d[k]:
                del d[k]
            c = num_const(rad)
            if c is not None:
                n = _real(n) * zreal(1 / c ** h)
                continue
            k2, c = self.atom(rad)
            if self.atoms[k2][1] is None and c > 0:
                self.atoms[k2][1] = '+'          # radicand of a non-zero real root
            d[k2] = d.get(k2, 0) + h
            if c != 1:
                n = _real(n) * zreal(1 / c ** h)
        return simp(n), d

    def _roots_in(self, e):
        i = e.get_id()
        if i in self._rootmemo:
            return self._rootmemo[i][1]
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            if j in self.roots:
                out.add(j)
            st.extend(x.children())
        self._rootmemo[i] = (e, out)
        return out

    def _sum_of_squares(self, x):
        """cheap syntactic test: numerator is a sum of even powers / known non-negative"""
        return self.known((x >= 0).e) is True if isinstance(x >= 0, SBool) else True

    def hint_root(self, root):
        """register a non-negative value as a candidate square root (verified on use)"""
        root = lift(root)
        self.sqrts.append((root * root, root))

    # ---- angles
    def new_angle(self, name, cos, sin, lo=0.0, hi=math.pi):
        self.angles[name] = dict(cos=cos, sin=sin, lo=lo, hi=hi)
        return SAngle({name: Fraction(1)})

    def angle_cs(self, name, v):
        a = self.angles[name]
        c, s = a['cos'], a['sin']
        if v.denominator != 1:
            raise Unsupported("fractional multiple of a symbolic angle")
        k = abs(int(v))
        C, S = 1, 0
        for _ in range(k):
            C, S = C * c - S * s, S * c + C * s
        if v < 0:
            S = -S
        return C, S

    def angle_range(self, name):
        a = self.angles[name]
        return a['lo'], a['hi']

    def angle_cmp(self, name, op, t):
        a = self.angles[name]
        lo, hi = a['lo'], a['hi']
        c, s = a['cos'], a['sin']
        if lo >= 0 and hi <= math.pi:
            if t < 0:
                return op in ('>', '>=')
            if t > math.pi + 1e-12:
                return op in ('<', '<=')
            ct = math.cos(t)
            if abs(t) < 1e-9:
                # threshold next to 0:  theta < t with t tiny  ==  theta == 0 (idealised)
                if op in ('<', '<='):
                    return False if (t == 0 and op == '<') else (lift(c) >= 1)
                return True if (t == 0 and op == '>=') else (lift(c) < 1)
            if abs(t - math.pi) < 1e-9:
                if op in ('<', '<='):
                    return True if (t >= math.pi and op == '<=') else (lift(c) > -1)
                return False if (t > math.pi) else (lift(c) <= -1)
            # cos decreasing
            c = lift(c)
            return {'<': c > ct, '<=': c >= ct, '>': c < ct, '>=': c <= ct}[op]
        if lo >= -math.pi and hi <= math.pi and abs(t) < 1e-12:
            s = lift(s)
            if op in ('<', '<='):
                return (s < 0) if op == '<' else b_or(s < 0, b_and(s == 0, lift(c) > 0))
            return b_or(s > 0, b_and(s == 0, lift(c) < 0)) if op == '>' else b_or(s > 0, s == 0)
        raise Unsupported("angle comparison")
