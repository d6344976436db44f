"""Symbolic numpy: object arrays of symbolic scalars plus a shim for the `numpy` global.

`SArr` is an ndarray subclass with dtype object.  Elementwise operations are looped over
the symbolic scalars of core.py; structural functions run natively; the numerical
routines the code under test can reach (norm, solve, unique, where, histogram, ...) are
re-stated here over symbolic values.  Anything else raises Unsupported (never guessed).
"""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (SNum, SBool, SAngle, _SymBase, Unsupported, b_and, b_or, b_not, b_iff, ite,
                   smin, smax, is_sym, lift)

SCALARS = (bool, int, float, np.bool_, np.integer, np.floating, SNum, SBool, SAngle)


# ------------------------------------------------------------------ kinds / casting

def elem_kind(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, SNum):
        return x.kind
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, SAngle, Fraction)):
        return 'f'
    return 'O'


_ORD = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def infer_kind(a):
    k = None
    for x in a.flat:
        e = elem_kind(x)
        if k is None or _ORD[e] > _ORD[k]:
            k = e
            if k == 'O':
                break
    return k or 'f'


def dt_kind(dt):
    """dtype argument -> kind"""
    if dt is None:
        return None
    if dt is object:
        return 'O'
    d = np.dtype(dt)
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'O': 'O'}.get(d.kind, 'X')


def narrow_int(dt):
    """(bits, signed) of integer dtypes that do not hold every value the code uses, else None"""
    if dt is None or dt is object or dt is int:
        return None
    d = np.dtype(dt)
    return (8 * d.itemsize, d.kind == 'i') if d.kind == 'u' or (d.kind == 'i' and d.itemsize < 8) else None


def wrap_int(x, nb):
    bits, signed = nb
    lo = -2 ** (bits - 1) if signed else 0
    if isinstance(x, (int, np.integer)):
        return (int(x) - lo) % 2 ** bits + lo
    if isinstance(x, SNum):
        return s_mod(x - lo, 2 ** bits) + lo
    return x


def cast_elem(x, k):
    if k == 'O' or k is None:
        return x
    if x is None:
        return float('nan')
    if k == 'f':
        if isinstance(x, SNum):
            return x if x.kind == 'f' else SNum(x.n, x.d, 'f')
        if isinstance(x, SBool):
            n = x.as_int()
            return SNum(n.n, n.d, 'f')
        if isinstance(x, SAngle):
            return x
        return float(x)
    if k == 'i':
        if isinstance(x, SNum):
            if x.kind == 'i':
                return x
            n = x.toint()
            return n.concretize() if is_sym(n) and core.ctx() is not None and core.ctx().fork_casts else n
        if isinstance(x, SBool):
            return x.as_int()
        if isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x)):
            return -2 ** 63
        return int(x)
    if k == 'b':
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return x.nonzero()
        return bool(x)
    raise Unsupported(f"cast to dtype kind {k}")


def cast(x, dt):
    """astype on a scalar"""
    return out_scalar(cast_elem(x, dt_kind(dt)))


def out_scalar(x):
    """scalar handed to code under test"""
    if isinstance(x, (np.generic, _SymBase)):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, Fraction):
        return np.float64(float(x))
    return x


_KDT = {'b': np.dtype(bool), 'i': np.dtype(np.int64), 'f': np.dtype(np.float64), 'O': np.dtype(object)}


# ------------------------------------------------------------------ arrays

class SArr(np.ndarray):
    _k = None

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', None)

    # -- kind / dtype
    @property
    def kind(self):
        if self._k is None:
            self._k = infer_kind(self)
        return self._k

    @property
    def dtype(self):
        return _KDT[self.kind]

    # -- element access
    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, norm_index(idx, self))
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not _has_ellipsis(idx):
                return out_scalar(r.item())
            return r
        return out_scalar(r)

    def __setitem__(self, idx, val):
        idx = norm_index(idx, self)
        k = self.kind
        if isinstance(val, SArr):
            v = val.view(np.ndarray)
        elif isinstance(val, _SymBase) or isinstance(val, (bool, int, float, np.generic)):
            v = cast_elem(val, k)
            sel = np.ndarray.__getitem__(self, idx)
            if isinstance(sel, np.ndarray):
                tmp = np.empty((), dtype=object)
                tmp[()] = v
                v = tmp
            np.ndarray.__setitem__(self, idx, v)
            return
        else:
            v = base(sarr(val))
        if k in ('f', 'i', 'b'):
            w = np.empty(v.shape, dtype=object)
            wf = w.reshape(-1)
            for i, x in enumerate(v.flat):
                wf[i] = cast_elem(x, k)
            v = wf.reshape(v.shape)
        np.ndarray.__setitem__(self, idx, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def tolist(self):
        return np.ndarray.tolist(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim != 0 or self.kind not in 'ib':
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._one().__index__()

    def __repr__(self):
        return f"SArr(shape={self.shape})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __deepcopy__(self, memo):
        return wrap(base(self).copy(), self._k)

    def __copy__(self):
        return wrap(base(self).copy(), self._k)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return handle_function(func, args, kwargs)

    # -- methods
    def astype(self, dt, **kw):
        k = dt_kind(dt)
        if k == 'X':
            return natural(self).astype(dt)
        r = np.empty(self.shape, dtype=object)
        rf = r.reshape(-1)
        for i, x in enumerate(base(self).flat):
            rf[i] = cast_elem(x, k)
        nb = narrow_int(dt) if k == 'i' else None
        if nb is not None:
            for i in range(len(rf)):
                rf[i] = wrap_int(rf[i], nb)
        return wrap(rf.reshape(self.shape), k)

    def copy(self, *a, **k):
        return wrap(base(self).copy(), self._k)

    def squeeze(self, axis=None):
        return wrap(base(self).squeeze(axis), self._k)

    def sort(self, axis=-1, **k):
        r = f_sort(self, axis)
        self[...] = r


def _has_ellipsis(idx):
    if idx is Ellipsis:
        return True
    return isinstance(idx, tuple) and any(i is Ellipsis for i in idx)


def base(a):
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def wrap(a, k=None):
    r = a.view(SArr)
    r._k = k
    return r


def _norm_index1(i, arr):
    if isinstance(i, SArr):
        k = i.kind
        if i.size == 0 and i._k is None:
            k = 'i'
        if k == 'b':
            r = np.empty(i.shape, dtype=bool)
            rf = r.reshape(-1)
            for j, x in enumerate(base(i).flat):
                rf[j] = bool(x)
            return rf.reshape(i.shape)
        if k == 'i':
            r = np.empty(i.shape, dtype=np.int64)
            rf = r.reshape(-1)
            for j, x in enumerate(base(i).flat):
                rf[j] = int(x)
            return rf.reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, SNum):
        if i.kind != 'i':
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) "
                             "and integer or boolean arrays are valid indices")
        return int(i)
    if isinstance(i, SAngle):
        raise IndexError("invalid index")
    if isinstance(i, list):
        a = sarr(i)
        if a.size == 0:
            return np.array(i, dtype=int)
        return _norm_index1(a, arr)
    if isinstance(i, np.ndarray) and i.dtype == object:
        return _norm_index1(wrap(i), arr)
    return i


def norm_index(idx, arr):
    if isinstance(idx, tuple):
        return tuple(_norm_index1(i, arr) for i in idx)
    return _norm_index1(idx, arr)


def has_sym(x, depth=0):
    if isinstance(x, _SymBase):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object or isinstance(x, SArr):
            return any(isinstance(e, _SymBase) for e in base(x).flat)
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, (set, frozenset)):
        return False
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    return False


def has_sarr(x):
    if isinstance(x, (SArr, _SymBase)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sarr(e) for e in x)
    if isinstance(x, dict):
        return any(has_sarr(e) for e in x.values())
    return False


def natural(x):
    """SArr without symbolic elements -> ordinary ndarray; recursive on containers"""
    if isinstance(x, SArr):
        k = x.kind
        b = base(x)
        if k == 'O':
            return b
        return b.astype({'b': bool, 'i': np.int64, 'f': np.float64}[k])
    if isinstance(x, list):
        return [natural(e) for e in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(natural(e) for e in x)
    if isinstance(x, dict):
        return {k: natural(v) for k, v in x.items()}
    return x


def wrap_out(r):
    """result of a real numpy call -> what code under test sees"""
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray) and type(r) in (np.ndarray, np.memmap):
        if r.dtype.kind in 'biuf':
            return wrap(r.astype(object), dt_kind(r.dtype))
        if r.dtype == object:
            return wrap(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap_out(e) for e in r)
    if type(r) is list:
        return [wrap_out(e) for e in r]
    return r


def sarr(x, k=None):
    """anything array-like -> SArr (copy for non-SArr)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, _SymBase):
        a = np.empty((), dtype=object)
        a[()] = x
        return wrap(a, k)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf':
            return wrap(x.astype(object), k or dt_kind(x.dtype))
        if x.dtype == object:
            return wrap(x, k)
        raise Unsupported(f"array of dtype {x.dtype}")
    if isinstance(x, (bool, int, float, np.generic)):
        a = np.empty((), dtype=object)
        a[()] = x
        return wrap(a, k)
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if len(x) == 0:
            return wrap(np.empty((0,), dtype=object), k or 'f')
        if all(isinstance(e, SCALARS) for e in x):
            a = np.empty(len(x), dtype=object)
            for i, e in enumerate(x):
                a[i] = e
            return wrap(a, k)
        subs = [sarr(e) for e in x]
        shp = subs[0].shape
        if any(s.shape != shp for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an "
                             "inhomogeneous shape")
        a = np.empty((len(x),) + shp, dtype=object)
        for i, s in enumerate(subs):
            a[i] = base(s) if s.ndim else s.item()
        kk = k
        if kk is None and a.size == 0:
            kk = 'f'
        return wrap(a, kk)
    if hasattr(x, '__array__'):
        return sarr(np.asarray(x))
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict, set)):
        return sarr(list(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return wrap(a, 'O')


# ------------------------------------------------------------------ scalar operations

def _cs(x):
    """clean scalar (python number or symbolic)"""
    if isinstance(x, np.ndarray):
        x = x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def s_div(a, b):
    a, b = _cs(a), _cs(b)
    if is_sym(a) or is_sym(b):
        if isinstance(a, SBool):
            a = a.as_int()
        if isinstance(b, SBool):
            b = b.as_int()
        return a / b
    with np.errstate(all='ignore'):
        return (np.float64(a) / np.float64(b)).item()


def s_floordiv(a, b):
    if is_sym(a) or is_sym(b):
        return a // b
    with np.errstate(all='ignore'):
        return np.floor_divide(a, b).item()


def s_mod(a, b):
    if is_sym(a) or is_sym(b):
        return a % b
    with np.errstate(all='ignore'):
        return np.mod(a, b).item()


def s_pow(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(b, SNum):
            c = b.const()
            if c is None:
                raise Unsupported("symbolic exponent")
            b = c
        if isinstance(a, SAngle):
            raise Unsupported("angle power")
        return lift(a) ** Fraction(b)
    with np.errstate(all='ignore'):
        return np.power(a, b).item()


def s_mul(a, b):
    a, b = _cs(a), _cs(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return b_and(a, b)
    return a * b


def s_add(a, b):
    a, b = _cs(a), _cs(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return b_or(a, b)
    return a + b


def s_sub(a, b):
    a, b = _cs(a), _cs(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return a - b


def _cmp(op):
    import operator
    f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
         '!=': operator.ne}[op]

    def g(a, b):
        a, b = _cs(a), _cs(b)
        r = f(a, b)
        if r is NotImplemented:
            raise Unsupported("comparison")
        return r
    return g


def _tb(x):
    """truth value as boolean term"""
    x = _cs(x)
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, SNum):
        return x.nonzero()
    if isinstance(x, SAngle):
        return x != 0
    return bool(x)


def s_abs(a):
    return abs(_cs(a))


def s_sign(a):
    a = _cs(a)
    if isinstance(a, SBool):
        a = a.as_int()
    if isinstance(a, SNum):
        r = ite(a > 0, 1, ite(a < 0, -1, 0))
        return cast_elem(r, a.kind)
    return np.sign(a).item()


def _fl(nm):
    def f(a):
        a = _cs(a)
        if isinstance(a, SBool):
            a = a.as_int()
        if isinstance(a, SNum):
            r = getattr(a, nm)()
            return r
        return {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint}[nm](a).item()
    return f


def s_sqrt(a):
    a = _cs(a)
    if isinstance(a, SBool):
        a = a.as_int()
    if isinstance(a, SNum):
        return core.sqrt(a)
    with np.errstate(all='ignore'):
        return np.sqrt(a).item()


def s_square(a):
    return s_mul(a, a)


def _trig(nm):
    def f(a):
        a = _cs(a)
        if isinstance(a, SAngle):
            return getattr(a, nm)()
        if isinstance(a, SNum):
            c = a.const()
            if c is None:
                raise Unsupported(f"{nm} of a symbolic number")
            a = float(c)
        return getattr(np, nm)(a).item()
    return f


def _arc(nm):
    def f(a):
        a = _cs(a)
        if isinstance(a, (SNum, SBool)):
            return getattr(core, nm)(lift(a))
        with np.errstate(all='ignore'):
            return getattr(np, nm)(a).item()
    return f


def s_isnan(a):
    a = _cs(a)
    return False if is_sym(a) else math.isnan(a)


def s_isinf(a):
    a = _cs(a)
    return False if is_sym(a) else math.isinf(a)


def s_isfinite(a):
    a = _cs(a)
    return True if is_sym(a) else math.isfinite(a)


def _deg(f):
    def g(a):
        a = _cs(a)
        return a * f if is_sym(a) else float(a) * f
    return g


def _transc(nm):
    def f(a):
        a = _cs(a)
        if is_sym(a):
            c = a.const() if isinstance(a, SNum) else None
            if c is None:
                raise Unsupported(f"np.{nm} of a symbolic number")
            a = float(c)
        with np.errstate(all='ignore'):
            return getattr(np, nm)(a).item()
    return f


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_arctan2(a, b):
    a, b = _cs(a), _cs(b)
    if is_sym(a) or is_sym(b):
        from . import core
        C = core.ctx()
        a, b = core.lift(a), core.lift(b)
        r = C.sqrt(a * a + b * b)
        neg = a < 0
        neg = neg if isinstance(neg, bool) else C.branch(neg.e)
        z = a == 0
        z = z if isinstance(z, bool) else C.branch(z.e)
        if z:
            p = b >= 0
            return 0.0 if (p if isinstance(p, bool) else C.branch(p.e)) else math.pi
        if neg:
            return -C.new_angle(C.fresh_name('atan2'), b / r, (-a) / r)
        return C.new_angle(C.fresh_name('atan2'), b / r, a / r)
    return math.atan2(a, b)


def s_min(a, b):
    a, b = _cs(a), _cs(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return b_and(a, b)
    if not is_sym(a) and not is_sym(b):
        r = np.minimum(a, b)
        return r.item() if hasattr(r, 'item') else r
    if core.ctx() is not None and core.ctx().fork_minmax:
        return a if bool(a <= b) else b
    return smin(a, b)


def s_max(a, b):
    a, b = _cs(a), _cs(b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return b_or(a, b)
    if not is_sym(a) and not is_sym(b):
        r = np.maximum(a, b)
        return r.item() if hasattr(r, 'item') else r
    if core.ctx() is not None and core.ctx().fork_minmax:
        return a if bool(a >= b) else b
    return smax(a, b)


def s_neg(a):
    a = _cs(a)
    if isinstance(a, (bool, SBool)):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return -a


def s_inv(a):
    a = _cs(a)
    if isinstance(a, (bool, SBool)):
        return b_not(a)
    if isinstance(a, int):
        return ~a
    raise TypeError("invert")


def _bit(nm):
    def f(a, b):
        a, b = _cs(a), _cs(b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return {'and': b_and, 'or': b_or, 'xor': lambda p, q: b_not(b_iff(p, q))}[nm](a, b)
        if elem_kind(a) == 'f' or elem_kind(b) == 'f':
            raise TypeError("ufunc 'bitwise' not supported for the input types")
        a, b = int(a), int(b)
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[nm]
    return f


UF = {
    'add': s_add, 'subtract': s_sub, 'multiply': s_mul, 'divide': s_div, 'true_divide': s_div,
    'floor_divide': s_floordiv, 'remainder': s_mod, 'mod': s_mod, 'power': s_pow, 'float_power': s_pow,
    'less': _cmp('<'), 'less_equal': _cmp('<='), 'greater': _cmp('>'), 'greater_equal': _cmp('>='),
    'equal': _cmp('=='), 'not_equal': _cmp('!='),
    'logical_and': lambda a, b: b_and(_tb(a), _tb(b)), 'logical_or': lambda a, b: b_or(_tb(a), _tb(b)),
    'logical_not': lambda a: b_not(_tb(a)), 'logical_xor': lambda a, b: b_not(b_iff(_tb(a), _tb(b))),
    'bitwise_and': _bit('and'), 'bitwise_or': _bit('or'), 'bitwise_xor': _bit('xor'), 'invert': s_inv,
    'absolute': s_abs, 'fabs': s_abs, 'sign': s_sign, 'negative': s_neg, 'positive': lambda a: +_cs(a),
    'floor': _fl('floor'), 'ceil': _fl('ceil'), 'trunc': _fl('trunc'), 'rint': _fl('rint'),
    'sqrt': s_sqrt, 'square': s_square, 'reciprocal': lambda a: s_div(1, a),
    'minimum': s_min, 'maximum': s_max, 'fmin': s_min, 'fmax': s_max,
    'isnan': s_isnan, 'isinf': s_isinf, 'isfinite': s_isfinite, 'conjugate': lambda a: a,
    'cos': _trig('cos'), 'sin': _trig('sin'), 'tan': _trig('tan'),
    'arccos': _arc('arccos'), 'arcsin': _arc('arcsin'), 'arctan': _arc('arctan'),
    'arctan2': s_arctan2, 'hypot': s_hypot,
    'deg2rad': _deg(math.pi / 180), 'radians': _deg(math.pi / 180),
    'rad2deg': _deg(180 / math.pi), 'degrees': _deg(180 / math.pi),
    'exp': _transc('exp'), 'log': _transc('log'), 'log2': _transc('log2'), 'log10': _transc('log10'),
    'cbrt': _transc('cbrt'),
}
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_and': True,
         'bitwise_or': False, 'logical_xor': False}
BOOL_OUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
            'logical_or', 'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite'}
FLOAT_OUT = {'divide', 'true_divide', 'sqrt', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan'}


def _res_kind(name, arrs):
    """kind of an empty result"""
    if name in BOOL_OUT:
        return 'b'
    if name in FLOAT_OUT:
        return 'f'
    k = 'b'
    for a in arrs:
        kk = a.kind if isinstance(a, SArr) else elem_kind(a)
        if _ORD[kk] > _ORD[k]:
            k = kk
    return k


def elementwise(name, *xs):
    f = UF[name]
    arrs = [sarr(x) for x in xs]
    bs = [base(a) for a in arrs]
    shp = np.broadcast_shapes(*[b.shape for b in bs])
    if shp == ():
        r = f(*[b.item() for b in bs])
        return out_scalar(r)
    bb = [np.broadcast_to(b, shp) for b in bs]
    out = np.empty(shp, dtype=object)
    of = out.reshape(-1)
    its = [b.flat for b in bb]
    for i, t in enumerate(zip(*its)):
        of[i] = _cs(f(*t))
    k = None
    if out.size == 0:
        k = _res_kind(name, arrs)
    elif name in BOOL_OUT:
        k = 'b'
    elif name in FLOAT_OUT:
        k = 'f'
    else:
        kin = _res_kind(name, arrs)
        if kin == 'f':
            k = 'f'
    if k == 'f':
        for i in range(of.shape[0]):
            of[i] = cast_elem(of[i], 'f')
    return wrap(of.reshape(shp), k)


def matmul(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    A, B = base(a), base(b)
    if _plain(A) and _plain(B) and A.size and B.size:
        return wrap_out(np.matmul(A.astype(float), B.astype(float)))
    sa, sb = A.ndim == 1, B.ndim == 1
    if sa:
        A = A[None, :]
    if sb:
        B = B[:, None]
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc "
                         f"signature (n?,k),(k,m?)->(n?,m?) (size {B.shape[-2]} is different from {A.shape[-1]})")
    isb = a.kind == 'b' and b.kind == 'b'
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    n, kk, m = A.shape[-2], A.shape[-1], B.shape[-1]
    out = np.empty(lead + (n, m), dtype=object)
    for ix in np.ndindex(*lead):
        for i in range(n):
            for j in range(m):
                if isb:
                    out[ix + (i, j)] = b_or(*[b_and(_tb(A[ix + (i, l)]), _tb(B[ix + (l, j)]))
                                              for l in range(kk)])
                else:
                    out[ix + (i, j)] = _dot1([A[ix + (i, l)] for l in range(kk)],
                                             [B[ix + (l, j)] for l in range(kk)])
    if sa:
        out = out[..., 0, :]
    if sb:
        out = out[..., 0]
    k = _res_kind('x', [a, b])
    if not isinstance(out, np.ndarray) or out.shape == ():
        x = out.item() if isinstance(out, np.ndarray) else out
        return out_scalar(cast_elem(x, k) if k == 'f' else x)
    r = wrap(out, None)
    return r.astype('f8') if k == 'f' else r


def _plain(a):
    """all floats (no symbols, no exact fractions)"""
    return all(type(x) is float or type(x) is np.float64 for x in a.flat)


def _dot1(xs, ys):
    s = None
    for x, y in zip(xs, ys):
        x, y = _cs(x), _cs(y)
        if not is_sym(x) and x == 0 and not isinstance(x, bool) and not _isspecial(y):
            continue
        if not is_sym(y) and y == 0 and not isinstance(y, bool) and not _isspecial(x):
            continue
        p = s_mul(x, y)
        s = p if s is None else s_add(s, p)
    return 0 if s is None else s


def _isspecial(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def dot(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise('multiply', a, b)
    if b.ndim <= 2 and a.ndim <= 2:
        try:
            return matmul(a, b)
        except ValueError:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("shapes not aligned")
    A, B = base(a), base(b)
    out = np.empty(A.shape[:-1] + B.shape[:-2] + B.shape[-1:], dtype=object)
    for i in np.ndindex(*A.shape[:-1]):
        for j in np.ndindex(*B.shape[:-2]):
            for l in range(B.shape[-1]):
                out[i + j + (l,)] = _dot1(list(A[i]), list(B[j + (slice(None), l)]))
    return wrap(out)


def _norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, tuple):
        axis = (axis,)
    r = []
    for a in axis:
        a = int(a)
        if a < -nd or a >= nd:
            raise np.AxisError(a, nd)
        r.append(a % nd)
    return tuple(r)


def reduce_axis(a, axis, keepdims, f, kind=None):
    """apply f(list of elements) along axis"""
    a = sarr(a)
    b = base(a)
    ax = _norm_axis(axis, b.ndim)
    rest = [i for i in range(b.ndim) if i not in ax]
    shp = tuple(b.shape[i] for i in rest)
    t = np.transpose(b, rest + list(ax)).reshape(shp + (-1,)) if b.size else None
    if shp == ():
        r = _cs(f(list(t) if t is not None else []))
        if keepdims:
            o = np.empty((1,) * b.ndim, dtype=object)
            o[(0,) * b.ndim] = r
            return wrap(o, kind)
        return out_scalar(r)
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        out[ix] = _cs(f(list(t[ix]) if t is not None else []))
    if keepdims:
        full = [1 if i in ax else b.shape[i] for i in range(b.ndim)]
        out = out.reshape(full)
    if kind is None and out.size == 0:
        kind = a.kind
    return wrap(out, kind)


def _sum_list(xs, k='f'):
    s = None
    for x in xs:
        x = _cs(x)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, SBool):
            x = x.as_int()
        s = x if s is None else s + x
    return (0.0 if k == 'f' else 0) if s is None else s


def _fold(name, xs, initial=None):
    f = UF[name]
    if name == 'add':
        r = _sum_list(xs)
        return r if initial is None else r + initial
    it = list(xs)
    if initial is None:
        if not it:
            if name in IDENT:
                return IDENT[name]
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        if name in ('logical_and', 'logical_or'):
            r = _tb(it[0])
        else:
            r = it[0]
        it = it[1:]
    else:
        r = initial
    for x in it:
        r = f(r, x)
    return r


def apply_ufunc(name, args):
    return elementwise(name, *args)


def _store_out(out, r):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if not isinstance(out, SArr):
        if has_sym(r):
            raise Unsupported("symbolic result stored into a plain ndarray")
        out[...] = natural(r)
        return out
    rk = r.kind if isinstance(r, SArr) else elem_kind(r)
    if _ORD[rk] > _ORD[out.kind] and out.kind != 'O':
        raise TypeError(f"Cannot cast ufunc output from {_KDT[rk]} to {out.dtype} with casting rule 'same_kind'")
    out[...] = r
    return out


def handle_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    name = ufunc.__name__
    if name == 'true_divide':
        name = 'divide'
    if any(isinstance(x, (dict, str, set)) or x is None for x in inputs):
        if name in ('equal', 'not_equal'):
            a = [x for x in inputs if isinstance(x, SArr)]
            if a:
                return wrap(np.full(a[0].shape, name == 'not_equal', dtype=object), 'b')
            return name == 'not_equal'
        raise TypeError("unsupported operand for ufunc " + name)
    if where is not True:
        if method == '__call__':
            r = elementwise(name, *inputs)
            o = out[0] if isinstance(out, tuple) else out
            if o is None:
                raise Unsupported("ufunc where without out")
            return _store_out(o, f_where(where, r, o))
        raise Unsupported("ufunc where")
    if method == '__call__':
        if name in ('matmul',):
            r = matmul(*inputs)
        elif name == 'divmod':
            return elementwise('floor_divide', *inputs), elementwise('remainder', *inputs)
        elif name == 'modf':
            t = elementwise('trunc', inputs[0])
            return elementwise('subtract', inputs[0], t), t
        elif name == 'clip':
            r = f_clip(*inputs)
        elif name in UF:
            r = elementwise(name, *inputs)
        elif not any(has_sym(x) for x in inputs):
            r = wrap_out(ufunc(*[natural(x) for x in inputs]))
        else:
            raise Unsupported(f"ufunc {name}")
        if dtype is not None:
            r = r.astype(dtype)
        return _store_out(out, r)
    if name not in UF and not any(has_sym(x) for x in inputs):
        r = wrap_out(getattr(ufunc, method)(*[natural(x) for x in inputs], **kw))
        return _store_out(out, r)
    if method == 'reduce':
        a = sarr(inputs[0])
        axis = kw.pop('axis', inputs[1] if len(inputs) > 1 else 0)
        keep = kw.pop('keepdims', False)
        initial = kw.pop('initial', None)
        if initial is np._NoValue:
            initial = None
        if axis == 0 and a.ndim == 0:
            axis = None
        if name == 'add' and a.size == 0:
            ks = a.kind
            r = reduce_axis(a, axis, keep, lambda xs: _sum_list(xs, ks) + (initial or 0))
        else:
            r = reduce_axis(a, axis, keep, lambda xs: _fold(name, xs, initial),
                            'b' if name in BOOL_OUT else None)
        if dtype is not None and dt_kind(dtype) != 'O':
            r = r.astype(dtype)
        return _store_out(out, r)
    if method == 'accumulate':
        return _store_out(out, f_accumulate(name, inputs[0], kw.get('axis', 0)))
    if method == 'outer':
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return elementwise(name, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = norm_index(idx, a)
        val = inputs[2] if len(inputs) > 2 else None
        ids = np.arange(a.size).reshape(a.shape)[idx]
        vv = np.broadcast_to(base(sarr(val)), ids.shape)
        for p, v in zip(ids.flat, vv.flat):
            ix = np.unravel_index(p, a.shape)
            a[ix] = UF[name](a[ix], v)
        return None
    raise Unsupported(f"ufunc method {method}")


def f_accumulate(name, a, axis=0):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        r = None
        for i in range(b.shape[-1]):
            x = b[ix + (i,)]
            if name == 'add':
                x = _cs(x)
                if isinstance(x, (bool, np.bool_)):
                    x = int(x)
                if isinstance(x, SBool):
                    x = x.as_int()
            r = x if r is None else UF[name](r, x)
            out[ix + (i,)] = _cs(r)
    return wrap(np.moveaxis(out, -1, axis).copy())


# ------------------------------------------------------------------ functions

def f_where(cond, x=None, y=None):
    if x is None:
        return f_nonzero(cond)
    c, x, y = sarr(cond), sarr(x), sarr(y)
    shp = np.broadcast_shapes(c.shape, x.shape, y.shape)
    out = np.empty(shp, dtype=object)
    of = out.reshape(-1)
    for i, (a, p, q) in enumerate(zip(np.broadcast_to(base(c), shp).flat, np.broadcast_to(base(x), shp).flat,
                                      np.broadcast_to(base(y), shp).flat)):
        of[i] = _cs(ite(_tb(a), _cs(p), _cs(q)))
    k = _res_kind('x', [x, y])
    r = wrap(of.reshape(shp), k)
    return r.astype('f8') if k == 'f' else r


def f_nonzero(a):
    a = sarr(a)
    m = np.empty(a.shape, dtype=bool)
    mf = m.reshape(-1)
    for i, x in enumerate(base(a).flat):
        mf[i] = bool(_tb(x))
    return tuple(wrap_out(r) for r in np.nonzero(mf.reshape(a.shape)))


def _bools(a):
    a = sarr(a)
    m = np.empty(a.shape, dtype=bool)
    mf = m.reshape(-1)
    for i, x in enumerate(base(a).flat):
        mf[i] = bool(_tb(x))
    return mf.reshape(a.shape)


def _argbest(xs, better):
    bi = 0
    for i in range(1, len(xs)):
        if bool(better(_cs(xs[i]), _cs(xs[bi]))):
            bi = i
    return bi


def f_argmin(a, axis=None, out=None, keepdims=False):
    if sarr(a).size == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    return reduce_axis(a, axis, keepdims, lambda xs: _argbest(xs, lambda p, q: p < q), 'i')


def f_argmax(a, axis=None, out=None, keepdims=False):
    if sarr(a).size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    return reduce_axis(a, axis, keepdims, lambda xs: _argbest(xs, lambda p, q: b_and(p, b_not(q))
                                                              if isinstance(p, (bool, SBool)) and
                                                              isinstance(q, (bool, SBool)) else p > q), 'i')


def _sorted_idx(xs):
    """stable insertion sort of indices (forks on symbolic comparisons)"""
    out = []
    for i in range(len(xs)):
        j = len(out)
        while j > 0 and bool(_cs(xs[i]) < _cs(xs[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


def f_argsort(a, axis=-1, kind=None, order=None):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = _sorted_idx(list(b[ix]))
    return wrap(np.moveaxis(out, -1, axis).copy(), 'i')


def f_sort(a, axis=-1, kind=None, order=None):
    a = sarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        row = list(b[ix])
        si = _sorted_idx(row)
        for j, s in enumerate(si):
            out[ix + (j,)] = row[s]
    return wrap(np.moveaxis(out, -1, axis).copy(), a._k)


class _Row:
    """a row compared lexicographically (forks on symbolic comparisons)"""

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        for a, b in zip(self.v, o.v):
            if bool(_cs(a) < _cs(b)):
                return True
            if not bool(_cs(a) == _cs(b)):
                return False
        return False

    def __eq__(self, o):
        return all(bool(_cs(a) == _cs(b)) for a, b in zip(self.v, o.v))


def f_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True):
    if axis is not None:
        if not isinstance(axis, int) or return_inverse:
            raise Unsupported("unique with axis")
        b = np.moveaxis(base(sarr(ar)), axis, 0)
        groups = []
        rws = [_Row(list(r.ravel())) for r in b]
        out = []
        for i in range(len(rws)):     # stable insertion
            j = len(out)
            while j > 0 and rws[i] < rws[out[j - 1]]:
                j -= 1
            out.insert(j, i)
        for i in out:
            if groups and rws[groups[-1][0]] == rws[i]:
                groups[-1].append(i)
            else:
                groups.append([i])
        res = [wrap(np.moveaxis(b[[g[0] for g in groups]], 0, axis).copy(), sarr(ar).kind)]
        if return_index:
            res.append(sarr([min(g) for g in groups], 'i'))
        if return_counts:
            res.append(sarr([len(g) for g in groups], 'i'))
        return tuple(res) if len(res) > 1 else res[0]
    a = sarr(ar).ravel()
    xs = list(base(a))
    order = _sorted_idx(xs)
    groups = []
    for i in order:
        if groups and bool(_cs(xs[groups[-1][0]]) == _cs(xs[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = np.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        vals[j] = xs[g[0]]
    res = [wrap(vals, a.kind)]
    if return_index:
        res.append(sarr([min(g) for g in groups], 'i') if groups else sarr([], 'i'))
    if return_inverse:
        inv = [0] * len(xs)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        res.append(sarr(inv, 'i'))
    if return_counts:
        res.append(sarr([len(g) for g in groups], 'i'))
    return tuple(res) if len(res) > 1 else res[0]


def _red(name, kind=None):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, dtype=None):
        if keepdims is np._NoValue:
            keepdims = False
        if initial is np._NoValue:
            initial = None
        if where is not True and where is not np._NoValue:
            raise Unsupported("reduction with where")
        a = sarr(a)
        ks = a.kind
        if name == 'add':
            r = reduce_axis(a, axis, keepdims, lambda xs: (_sum_list(xs, ks) if initial is None
                                                           else _sum_list(xs, ks) + initial))
        else:
            r = reduce_axis(a, axis, keepdims, lambda xs: _fold(name, xs, initial), kind)
        if dtype is not None:
            r = r.astype(dtype)
        return _store_out(out, r)
    return f


f_sum = _red('add')
f_prod = _red('multiply')
f_min = _red('minimum')
f_max = _red('maximum')
f_any = _red('logical_or', 'b')
f_all = _red('logical_and', 'b')


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = sarr(a)
    if keepdims is np._NoValue:
        keepdims = False
    return reduce_axis(a, axis, keepdims, lambda xs: s_div(_sum_list(xs), len(xs)), 'f')


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    def v(xs):
        m = s_div(_sum_list(xs), len(xs))
        return s_div(_sum_list([s_mul(s_sub(x, m), s_sub(x, m)) for x in xs]), len(xs) - ddof)
    return reduce_axis(a, axis, bool(keepdims) and keepdims is not np._NoValue, v, 'f')


def f_std(a, *args, **k):
    return elementwise('sqrt', f_var(a, *args, **k))


def f_ptp(a, axis=None, out=None, keepdims=False):
    return elementwise('subtract', f_max(a, axis), f_min(a, axis))


def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return f_mean(a, axis)
    w = sarr(weights)
    a = sarr(a)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        shp = [1] * a.ndim
        shp[axis] = w.shape[0]
        w = w.reshape(shp)
    p = elementwise('multiply', a, w)
    w = np.broadcast_to(base(w), p.shape)
    return elementwise('divide', f_sum(p, axis), f_sum(wrap(np.array(w)), axis))


def f_median(a, axis=None, **k):
    def med(xs):
        s = [xs[i] for i in _sorted_idx(xs)]
        n = len(s)
        return s[n // 2] if n % 2 else s_div(s_add(s[n // 2 - 1], s[n // 2]), 2)
    return reduce_axis(a, axis, False, med, 'f')


def f_count_nonzero(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, lambda xs: _sum_list([_tb(x) for x in xs], 'i'), 'i')


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    if 'min' in k:
        a_min = k['min']
    if 'max' in k:
        a_max = k['max']
    r = a
    if a_min is not None:
        r = elementwise('maximum', r, a_min)
    if a_max is not None:
        r = elementwise('minimum', r, a_max)
    return _store_out(out, r)


def f_round(a, decimals=0, out=None):
    if decimals == 0:
        r = elementwise('rint', a)
    else:
        s = 10.0 ** decimals
        r = elementwise('divide', elementwise('rint', elementwise('multiply', a, s)), s)
    return _store_out(out, r)


def f_fix(x, out=None):
    return _store_out(out, elementwise('trunc', x))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = elementwise('absolute', elementwise('subtract', a, b))
    lim = elementwise('add', atol, elementwise('multiply', rtol, elementwise('absolute', b)))
    return elementwise('less_equal', d, lim)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol))


def f_array_equal(a, b, equal_nan=False):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return f_all(elementwise('equal', a, b))


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = sarr(x)
    if axis is None and (ord is None or (ord in ('fro', 'f') and x.ndim == 2)
                         or (ord == 2 and x.ndim == 1)):
        return reduce_axis(x, None, keepdims, lambda xs: s_sqrt(_sum_list([s_mul(v, v) for v in xs])), 'f')
    if axis is None and x.ndim == 1:
        axis = 0
    if ord in (None, 2) and (not isinstance(axis, tuple) or ord is None):
        return reduce_axis(x, axis, keepdims, lambda xs: s_sqrt(_sum_list([s_mul(v, v) for v in xs])), 'f')
    if ord == 1 and not isinstance(axis, tuple) and axis is not None:
        return reduce_axis(x, axis, keepdims, lambda xs: _sum_list([s_abs(v) for v in xs]), 'f')
    if ord == np.inf and not isinstance(axis, tuple) and axis is not None:
        return reduce_axis(x, axis, keepdims, lambda xs: _fold('maximum', [s_abs(v) for v in xs]), 'f')
    raise Unsupported(f"norm ord={ord}")


def _minor(M, i, j):
    return [[M[r][c] for c in range(len(M)) if c != j] for r in range(len(M)) if r != i]


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return s_sub(s_mul(M[0][0], M[1][1]), s_mul(M[0][1], M[1][0]))
    r = 0
    for j in range(n):
        a = _cs(M[0][j])
        if not is_sym(a) and a == 0:
            continue
        t = s_mul(a, _det(_minor(M, 0, j)))
        r = s_add(r, t) if j % 2 == 0 else s_sub(r, t)
    return r


def _lol(a):
    return [[_cs(x) for x in row] for row in base(a)]


def f_det(a):
    a = sarr(a)
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.ndim == 2:
        return out_scalar(cast_elem(_det(_lol(a)), 'f'))
    out = np.empty(a.shape[:-2], dtype=object)
    for ix in np.ndindex(*a.shape[:-2]):
        out[ix] = cast_elem(_det(_lol(wrap(base(a)[ix]))), 'f')
    return wrap(out, 'f')


def _adj(M):
    n = len(M)
    if n == 1:
        return [[1]]
    R = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            d = _det(_minor(M, i, j))
            R[j][i] = d if (i + j) % 2 == 0 else s_neg(d)
    return R


def _singular(d):
    d = _cs(d)
    if not is_sym(d):
        return d == 0
    return bool(d == 0)


def f_inv(a):
    a = sarr(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape[:-2]):
            out[ix] = base(f_inv(wrap(base(a)[ix])))
        return wrap(out, 'f')
    M = _lol(a)
    d = _det(M)
    if _singular(d):
        raise np.linalg.LinAlgError("Singular matrix")
    A = _adj(M)
    return sarr([[s_div(x, d) for x in r] for r in A], 'f')


def f_solve(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim != 2:
        raise Unsupported("stacked solve")
    if a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    M = _lol(a)
    d = _det(M)
    if _singular(d):
        raise np.linalg.LinAlgError("Singular matrix")
    if b.shape[0] != a.shape[0]:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    r = matmul(sarr(_adj(M)), b)
    return elementwise('divide', r, d)


def f_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    A = np.moveaxis(base(sarr(a)), axisa, -1)
    B = np.moveaxis(base(sarr(b)), axisb, -1)
    if A.shape[-1] != 3 or B.shape[-1] != 3:
        raise Unsupported("2-d cross product")
    A, B = wrap(A), wrap(B)
    a0, a1, a2 = A[..., 0], A[..., 1], A[..., 2]
    b0, b1, b2 = B[..., 0], B[..., 1], B[..., 2]
    E = elementwise

    def d(p, q, r, s):
        return E('subtract', E('multiply', p, q), E('multiply', r, s))
    c = [d(a1, b2, a2, b1), d(a2, b0, a0, b2), d(a0, b1, a1, b0)]
    cs = [base(sarr(x)) for x in c]
    out = np.stack(cs, axis=-1)
    if out.ndim > 1:
        out = np.moveaxis(out, -1, axisc)
    return wrap(out.copy())


def f_histogram(a, bins=10, range=None, density=None, weights=None):
    a = sarr(a).ravel()
    if density or weights is not None:
        raise Unsupported("histogram density/weights")
    if isinstance(bins, np.ndarray) or isinstance(bins, (list, tuple)):
        edges = list(sarr(bins))
        n = len(edges) - 1
        counts = []
        for k in builtins.range(n):
            cs = []
            for v in base(a):
                up = (v <= edges[k + 1]) if k == n - 1 else (v < edges[k + 1])
                cs.append(b_and(_cs(v) >= edges[k], up))
            counts.append(_sum_list(cs, 'i'))
        return sarr(counts, 'i'), sarr(edges)
    n = int(bins)
    if range is None:
        raise Unsupported("histogram without range")
    lo, hi = range
    counts = []
    pos = [s_mul(s_div(s_sub(v, lo), s_sub(hi, lo)), n) for v in base(a)]
    for k in builtins.range(n):
        cs = []
        for x in pos:
            up = (x <= k + 1) if k == n - 1 else (x < k + 1)
            cs.append(b_and(x >= k, up))
        counts.append(_sum_list(cs, 'i'))
    edges = [s_add(lo, s_mul(s_div(s_sub(hi, lo), n), k)) for k in builtins.range(n + 1)]
    return sarr(counts, 'i'), sarr(edges, 'f')


def f_bincount(x, weights=None, minlength=0):
    x = [int(v) for v in sarr(x)]
    n = max(max(x) + 1 if x else 0, minlength)
    w = [1] * len(x) if weights is None else list(sarr(weights))
    out = [0] * n
    for i, ww in zip(x, w):
        out[i] = s_add(out[i], ww)
    return sarr(out)


def f_einsum(subs, *ops, **kw):
    if not isinstance(subs, str) or '.' in subs:
        raise Unsupported("einsum form")
    subs = subs.replace(' ', '')
    ins, _, o = subs.partition('->')
    ins = ins.split(',')
    ops = [base(sarr(x)) for x in ops]
    dims = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise ValueError("einsum subscripts")
        for c, n in zip(s, a.shape):
            dims[c] = n
    if '->' not in subs:
        al = ''.join(ins)
        o = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    summed = [c for c in dims if c not in o]
    out = np.empty(tuple(dims[c] for c in o), dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(o, ix))
        tot = 0
        for jx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, jx))
            p = None
            for s, a in zip(ins, ops):
                v = _cs(a[tuple(env[c] for c in s)])
                p = v if p is None else s_mul(p, v)
            tot = s_add(tot, p)
        out[ix] = tot
    if out.shape == ():
        return out_scalar(out.item())
    return wrap(out)


def f_tensordot(a, b, axes=2):
    a, b = sarr(a), sarr(b)
    if isinstance(axes, (int, np.integer)):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in bb]
    A = np.transpose(base(a), ra + aa)
    B = np.transpose(base(b), bb + rb)
    k = int(np.prod([a.shape[i] for i in aa], dtype=int))
    r = matmul(wrap(A.reshape(-1, k)), wrap(B.reshape(k, -1)))
    return r.reshape(tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb))


def f_inner(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise('multiply', a, b)
    return f_tensordot(a, b, (-1, -1)) if a.ndim + b.ndim > 2 else matmul(a, b)


def f_outer(a, b, out=None):
    a, b = sarr(a).ravel(), sarr(b).ravel()
    return elementwise('multiply', a[:, None], b[None, :])


def f_isin(a, test, assume_unique=False, invert=False, kind=None):
    t = list(base(sarr(test)).flat)
    a = sarr(a)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, x in enumerate(base(a).flat):
        r = b_or(*[_cs(x) == _cs(y) for y in t]) if t else False
        of[i] = b_not(r) if invert else r
    return wrap(of.reshape(a.shape), 'b')


def f_interp(x, xp, fp, **k):
    raise Unsupported("interp")


def f_searchsorted(a, v, side='left', sorter=None):
    xs = list(base(sarr(a)))

    def one(q):
        n = [(_cs(x) < q) if side == 'left' else (_cs(x) <= q) for x in xs]
        return _sum_list(n, 'i')
    v = sarr(v)
    out = np.empty(v.shape, dtype=object)
    of = out.reshape(-1)
    for i, q in enumerate(base(v).flat):
        of[i] = one(q)
    return wrap(of.reshape(v.shape), 'i') if v.ndim else out_scalar(of[0])


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side='left' if right else 'right')


def f_diff(a, n=1, axis=-1, **k):
    a = sarr(a)
    for _ in range(n):
        b = np.moveaxis(base(a), axis, 0)
        a = wrap(np.moveaxis(base(elementwise('subtract', wrap(b[1:]), wrap(b[:-1]))), 0, axis))
    return a


def f_full_like(a, v, dtype=None, **k):
    a = sarr(a)
    kk = dt_kind(dtype) or a.kind
    out = np.empty(k.get('shape') or a.shape, dtype=object)
    out.fill(cast_elem(v, kk))
    return wrap(out, kk)


def f_nan_to_num(a, copy=True, nan=0.0, **k):
    return f_where(elementwise('isnan', a), nan, a)


def f_setdiff1d(a, b, assume_unique=False):
    u = f_unique(a)
    return u[b_arr(f_isin(u, b, invert=True))]


def b_arr(a):
    return wrap_out(_bools(a))


def f_matrix_power(a, n):
    r = sarr(np.eye(sarr(a).shape[0]))
    for _ in range(n):
        r = matmul(r, a)
    return r


def f_take_along(a, idx, axis):
    a = sarr(a)
    i = _norm_index1(sarr(idx), a)
    return wrap(np.take_along_axis(base(a), i, axis), a._k)


def f_take(a, indices, axis=None, **k):
    a = sarr(a)
    i = _norm_index1(sarr(indices), a) if isinstance(indices, (SArr, list, tuple, SNum)) else indices
    r = np.take(base(a), i, axis=axis)
    return wrap(r, a._k) if isinstance(r, np.ndarray) else out_scalar(r)


def f_delete(arr, obj, axis=None):
    a = sarr(arr)
    if isinstance(obj, (SArr, list, tuple)):
        obj = _norm_index1(sarr(obj) if len(obj) else sarr([], 'i'), a)
    elif isinstance(obj, (SNum, SBool)):
        obj = int(obj)
    return wrap(np.delete(base(a), obj, axis=axis), a._k)


def f_copy(a, order='K', subok=False):
    a = sarr(a)
    return wrap(base(a).copy(), a._k)


def f_trace(a, *r, **k):
    a = sarr(a)
    return out_scalar(_sum_list([a[i, i] for i in range(min(a.shape))]))


def f_append(arr, values, axis=None):
    a, v = sarr(arr), sarr(values)
    r = np.append(base(a), base(v), axis=axis)
    return wrap(r)


def f_cumsum(a, axis=None, dtype=None, out=None):
    return f_accumulate('add', a, axis)


def f_cumprod(a, axis=None, dtype=None, out=None):
    return f_accumulate('multiply', a, axis)


def f_apply_along_axis(f, axis, arr, *args, **kw):
    a = sarr(arr)
    b = np.moveaxis(base(a), axis, -1)
    rows = [f(wrap(b[ix]), *args, **kw) for ix in np.ndindex(*b.shape[:-1])]
    r = sarr(rows)
    r = r.reshape(b.shape[:-1] + r.shape[1:])
    if r.ndim == b.ndim:
        return wrap(np.moveaxis(base(r), -1, axis).copy())
    return r


def f_broadcast_to(a, shape, subok=False):
    return wrap(np.broadcast_to(base(sarr(a)), shape), getattr(a, '_k', None))


def f_shape(a):
    return sarr(a).shape


def f_average_(a, *r, **k):
    return f_average(a, *r, **k)


AF = {
    'where': f_where, 'nonzero': f_nonzero, 'flatnonzero': lambda a: f_nonzero(sarr(a).ravel())[0],
    'argwhere': lambda a: wrap_out(np.argwhere(_bools(a))),
    'argmin': f_argmin, 'argmax': f_argmax, 'argsort': f_argsort, 'sort': f_sort, 'unique': f_unique,
    'sum': f_sum, 'prod': f_prod, 'product': f_prod, 'min': f_min, 'max': f_max, 'amin': f_min, 'amax': f_max,
    'nansum': f_sum, 'nanmin': f_min, 'nanmax': f_max,
    'any': f_any, 'all': f_all, 'alltrue': f_all, 'sometrue': f_any, 'mean': f_mean, 'nanmean': f_mean,
    'var': f_var, 'std': f_std, 'ptp': f_ptp,
    'average': f_average_, 'median': f_median, 'count_nonzero': f_count_nonzero, 'clip': f_clip,
    'round': f_round, 'around': f_round, 'round_': f_round, 'fix': f_fix, 'isclose': f_isclose, 'allclose': f_allclose,
    'array_equal': f_array_equal, 'norm': f_norm, 'det': f_det, 'inv': f_inv, 'solve': f_solve,
    'cross': f_cross, 'histogram': f_histogram, 'bincount': f_bincount, 'einsum': f_einsum,
    'tensordot': f_tensordot, 'inner': f_inner, 'outer': f_outer, 'dot': dot, 'vdot': dot, 'matmul': matmul,
    'isin': f_isin, 'in1d': f_isin, 'interp': f_interp, 'searchsorted': f_searchsorted, 'digitize': f_digitize,
    'diff': f_diff, 'full_like': f_full_like, 'zeros_like': lambda a, dtype=None, **k: f_full_like(a, 0, dtype, **k),
    'ones_like': lambda a, dtype=None, **k: f_full_like(a, 1, dtype, **k),
    'empty_like': lambda a, dtype=None, **k: f_full_like(a, 0, dtype, **k),
    'nan_to_num': f_nan_to_num, 'setdiff1d': f_setdiff1d, 'matrix_power': f_matrix_power,
    'take_along_axis': f_take_along, 'take': f_take, 'delete': f_delete, 'copy': f_copy, 'trace': f_trace,
    'append': f_append, 'cumsum': f_cumsum, 'cumprod': f_cumprod, 'apply_along_axis': f_apply_along_axis,
    'broadcast_to': f_broadcast_to, 'shape': f_shape,
    'ndim': lambda a: sarr(a).ndim, 'size': lambda a, axis=None: sarr(a).size if axis is None else sarr(a).shape[axis],
    'linalg_norm': f_norm, 'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True, 'real': lambda a: a,
    'logical_and_reduce': f_all,
}
STRUCT = {
    'concatenate', 'vstack', 'row_stack', 'hstack', 'dstack', 'stack', 'column_stack', 'expand_dims', 'squeeze',
    'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'roll', 'flip', 'fliplr', 'flipud',
    'rot90', 'repeat', 'tile', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_arrays', 'split', 'array_split',
    'hsplit', 'vsplit', 'dsplit', 'insert', 'diag', 'diagonal', 'diagflat', 'meshgrid', 'ix_', 'block', 'resize',
    'tril', 'triu', 'compress', 'extract', 'kron',
}


def _kinds_in(x, acc):
    if isinstance(x, SArr):
        acc.append(x.kind)
    elif isinstance(x, _SymBase) or isinstance(x, (bool, int, float, np.generic)):
        acc.append(elem_kind(x))
    elif isinstance(x, np.ndarray):
        acc.append(dt_kind(x.dtype))
    elif isinstance(x, (list, tuple)):
        for e in x:
            _kinds_in(e, acc)
    return acc


def _unw(x):
    if isinstance(x, SArr):
        return base(x)
    if isinstance(x, _SymBase):
        return base(sarr(x))
    if isinstance(x, np.ndarray) and x.dtype.kind in 'biuf':
        return x.astype(object)
    if isinstance(x, list):
        if x and has_sym(x) and all(isinstance(e, SCALARS) for e in x):
            return base(sarr(x))
        return [_unw(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_unw(e) for e in x)
    return x


def fname(func):
    return getattr(func, '__name__', str(func))


def handle_function(func, args, kwargs):
    name = fname(func)
    if not has_sym(args) and not has_sym(kwargs):
        out = kwargs.get('out')
        if isinstance(out, SArr):
            kw = {k: v for k, v in kwargs.items() if k != 'out'}
            r = wrap_out(func(*natural(list(args)), **natural(kw)))
            out[...] = r
            return out
        return wrap_out(func(*natural(list(args)), **natural(kwargs)))
    if name in AF:
        return AF[name](*args, **kwargs)
    if name in STRUCT:
        if name in ('concatenate', 'vstack', 'hstack', 'dstack', 'stack', 'column_stack', 'row_stack'):
            seq = [base(sarr(x)) for x in args[0]]
            ks = [sarr(x).kind for x in args[0]]
            k = max(ks, key=lambda q: _ORD[q])
            r = func(seq, *args[1:], **kwargs)
            r = wrap(r)
            return r.astype('f8') if k == 'f' else r
        r = func(*[_unw(a) for a in args], **{k: _unw(v) for k, v in kwargs.items()})
        return wrap_out(r)
    raise Unsupported(f"numpy function {name}")


def _meth(nm):
    def f(self, *a, **k):
        if not any(isinstance(e, _SymBase) for e in base(self).flat) and not has_sym(a) and not has_sym(k):
            try:
                nat = natural(self)
                if nm != 'nonzero' and k.get('out') is not None:
                    raise TypeError
                return wrap_out(getattr(nat, nm)(*natural(list(a)), **natural(k)))
            except (TypeError,) as e:
                if 'out' not in str(k):
                    raise
        return AF[nm](self, *a, **k)
    f.__name__ = nm
    return f


for _n in ('sum', 'prod', 'min', 'max', 'any', 'all', 'mean', 'var', 'std', 'ptp', 'argmin', 'argmax', 'argsort',
           'nonzero', 'clip', 'round', 'cumsum', 'cumprod', 'dot', 'take', 'trace', 'searchsorted'):
    setattr(SArr, _n, _meth(_n))


# ------------------------------------------------------------------ masked arrays (mini)

class SMasked:
    """the part of numpy.ma the code uses"""

    def __init__(self, data, mask=False, **k):
        self._data = sarr(data)
        self.mask = mask

    @property
    def data(self):
        return self._data

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        m = sarr(m)
        self._mask = wrap(np.broadcast_to(base(m), self._data.shape).copy(), 'b')

    @property
    def shape(self):
        return self._data.shape

    def __len__(self):
        return len(self._data)

    def astype(self, dt):
        d = np.empty(self._data.shape, dtype=object)
        df, mf, of = base(self._data).reshape(-1), base(self._mask).reshape(-1), d.reshape(-1)
        k = dt_kind(dt)
        for i in range(df.shape[0]):
            of[i] = (0 if k == 'i' else float('nan')) if mf[i] is True else cast_elem(df[i], k)
        return SMasked(wrap(of.reshape(d.shape), k), self._mask)

    def __iter__(self):
        for i in range(self._data.shape[0]):
            yield SMasked(self._data[i], self._mask[i]) if self._data.ndim > 1 else self._data[i]

    def __getitem__(self, i):
        return SMasked(self._data[i], self._mask[i])

    def compressed(self):
        return self._data.ravel()[wrap_out(~_bools(self._mask.ravel()))]

    def count(self, *a):
        return int((~_bools(self._mask)).sum())

    def filled(self, v):
        return f_where(self._mask, v, self._data)


class MaShim:
    def array(self, data, mask=False, **k):
        return SMasked(data, mask)

    masked_array = array
    MaskedArray = SMasked

    def masked_where(self, cond, a):
        return SMasked(a, cond)

    def compressed(self, x):
        return x.compressed() if isinstance(x, SMasked) else sarr(x).ravel()

    def getmaskarray(self, x):
        return x.mask

    def __getattr__(self, nm):
        raise Unsupported(f"numpy.ma.{nm}")


# ------------------------------------------------------------------ the numpy shim

def _shape(s):
    if isinstance(s, (SNum, SBool)):
        return int(s)
    if isinstance(s, SArr):
        return tuple(int(x) for x in s)
    if isinstance(s, (tuple, list)):
        return tuple(int(x) if isinstance(x, (_SymBase, np.generic)) else x for x in s)
    return s


def c_array(obj, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(obj, SMasked):
        obj = obj.data
    if isinstance(obj, (str, bytes)) or (isinstance(obj, (list, tuple)) and obj and isinstance(obj[0], str)):
        return np.array(obj, dtype=dtype)
    if isinstance(obj, (dict, set)):
        return np.array(obj, dtype=dtype)
    if isinstance(obj, np.ndarray) and not isinstance(obj, SArr) and obj.dtype.kind not in 'biufO':
        return np.array(obj, dtype=dtype)
    if isinstance(obj, SArr):
        r = wrap(base(obj).copy(), obj._k)
    else:
        r = sarr(obj)
        if isinstance(obj, np.ndarray):
            r = wrap(base(r).copy(), r._k)
    if r.kind == 'O' and any(isinstance(e, str) for e in base(r).flat):
        return np.array(obj, dtype=dtype)
    if r.kind in 'fi' and dtype is None:
        if r.kind == 'f':
            r = r.astype('f8')
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None, ...]
    return r


def c_asarray(obj, dtype=None, **k):
    if isinstance(obj, SArr) and (dtype is None or dt_kind(dtype) == obj.kind):
        return obj
    return c_array(obj, dtype)


def _filled(shape, v, dtype, default='f'):
    k = dt_kind(dtype) or default
    shape = _shape(shape)
    a = np.empty(shape, dtype=object)
    a.fill(cast_elem(v, k))
    return wrap(a, k)


def c_zeros(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def c_ones(shape, dtype=None, **k):
    return _filled(shape, 1, dtype)


def c_empty(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def c_full(shape, v, dtype=None, **k):
    if isinstance(v, (list, tuple, np.ndarray)):
        r = wrap(np.broadcast_to(base(sarr(v)), _shape(shape)).copy())
        return r.astype(dtype) if dtype is not None else r
    return _filled(shape, v, dtype, elem_kind(v))


def c_eye(N, M=None, k=0, dtype=None, **kw):
    return wrap_out(np.eye(int(N), None if M is None else int(M), k)).astype(dtype or float)


def c_arange(*a, dtype=None, **k):
    if has_sym(a):
        if all(elem_kind(x) == 'i' for x in a):
            a = tuple(int(x) for x in a)
        elif len(a) == 1:
            a = (int(core.lift(a[0]).ceil()) if isinstance(a[0], SNum) else a[0],)
            return wrap_out(np.arange(*a).astype(float))
        else:
            raise Unsupported("arange over symbolic reals")
    r = wrap_out(np.arange(*[natural(sarr(x)).item() if isinstance(x, (SArr,)) else x for x in a]))
    return r.astype(dtype) if dtype is not None else r


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    n = num - 1 if endpoint else num
    st, sp = sarr(start), sarr(stop)
    step = elementwise('divide', elementwise('subtract', sp, st), n) if n else 0
    rows = [elementwise('add', st, elementwise('multiply', step, i)) for i in range(num)]
    r = sarr(rows, 'f') if rows else sarr([], 'f')
    return (r, step) if retstep else r


def c_fromiter(it, dtype=None, count=-1):
    return c_array(list(it), dtype)


def c_fromfunction(f, shape, dtype=float, **k):
    idx = np.indices(shape)
    return f(*[wrap_out(i.astype(float)) for i in idx], **k)


CREATE = {'array': c_array, 'asarray': c_asarray, 'asanyarray': c_asarray, 'ascontiguousarray': c_asarray,
          'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty, 'full': c_full, 'eye': c_eye,
          'identity': lambda n, dtype=None, **k: c_eye(n, dtype=dtype), 'arange': c_arange, 'linspace': c_linspace,
          'fromiter': c_fromiter, 'fromfunction': c_fromfunction, 'asfarray': lambda a, dtype=float: c_array(a, float),
          'require': c_asarray}


def _issubdtype(a, b):
    if a is SNum or a is SBool:
        raise Unsupported("type() of a symbolic number")
    if a is FloatShim:
        a = float
    if a is IntShim:
        a = int
    if b is FloatShim:
        b = float
    if b is IntShim:
        b = int
    return np.issubdtype(a, b)


def wrapped(func):
    """numpy function as seen by code under test"""
    nm = fname(func)

    def f(*args, **kwargs):
        if has_sym(args) or has_sym(kwargs):
            return handle_function(func, args, kwargs)
        return wrap_out(func(*natural(list(args)), **natural(kwargs)))
    f.__name__ = nm
    f.__wrapped__ = func
    return f


class UfuncShim:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if self.uf.nout > 1 and not has_sym(a):
            return wrap_out(self.uf(*natural(list(a))))
        return handle_ufunc(self.uf, '__call__', a, k)

    def reduce(self, a, axis=0, **k):
        return handle_ufunc(self.uf, 'reduce', (sarr(a),), dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return handle_ufunc(self.uf, 'accumulate', (sarr(a),), dict(axis=axis, **k))

    def outer(self, a, b, **k):
        return handle_ufunc(self.uf, 'outer', (sarr(a), sarr(b)), k)

    def at(self, a, i, b=None):
        return handle_ufunc(self.uf, 'at', (a, i, b), {})


class _TypeShim(type):
    def __instancecheck__(cls, x):
        if cls is FloatShim:
            return isinstance(x, float) or (isinstance(x, SNum) and x.kind == 'f') or isinstance(x, SAngle)
        if cls is IntShim:
            # numpy ints are not Python ints; symbolic ints model Python ints unless marked
            return isinstance(x, int) or (isinstance(x, SNum) and x.kind == 'i')
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        return issubclass(c, float if cls is FloatShim else int)

    def __eq__(cls, o):
        return o is cls or o is (float if cls is FloatShim else int)

    def __hash__(cls):
        return hash(float if cls is FloatShim else int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr):
            x = x._one()
        if cls is FloatShim:
            if isinstance(x, (SNum, SBool)):
                return cast_elem(x, 'f')
            if isinstance(x, SAngle):
                return x
            return float(x)
        if isinstance(x, SNum):
            return x.toint()
        if isinstance(x, SBool):
            return x.as_int()
        return int(x, *a)


class FloatShim(metaclass=_TypeShim):
    dtype = np.dtype(np.float64)
    __name__ = 'float'
    fromhex = float.fromhex


class IntShim(metaclass=_TypeShim):
    dtype = np.dtype(np.int64)


class NpModule:
    """stands for the `numpy` module (and submodules) inside the code under test"""

    def __init__(self, mod, special=None):
        object.__setattr__(self, '_mod', mod)
        object.__setattr__(self, '_special', special or {})
        object.__setattr__(self, '_cache', {})

    def __getattr__(self, nm):
        if nm in self._special:
            return self._special[nm]
        c = self._cache
        if nm in c:
            return c[nm]
        v = getattr(self._mod, nm)
        r = shim_value(v)
        c[nm] = r
        return r

    def __setattr__(self, nm, v):
        raise Unsupported("assignment to a numpy attribute")


def _finfo(t):
    if t is FloatShim or isinstance(t, SArr) or isinstance(t, SNum):
        t = float
    return np.finfo(t)


def _iinfo(t):
    return np.iinfo(int if t is IntShim else t)


def _isscalar(x):
    return isinstance(x, _SymBase) or np.isscalar(x)


def _vectorize(f, *a, **k):
    def g(*args):
        arrs = [sarr(x) for x in args]
        shp = np.broadcast_shapes(*[x.shape for x in arrs])
        out = np.empty(shp, dtype=object)
        of = out.reshape(-1)
        for i, t in enumerate(zip(*[np.broadcast_to(base(x), shp).flat for x in arrs])):
            of[i] = f(*[out_scalar(e) for e in t])
        return wrap(of.reshape(shp))
    return g


IDENTITY = {}          # id(original object) -> replacement   (filled by stubs.py)
_KEEP = []


def replace(orig, repl):
    IDENTITY[id(orig)] = repl
    _KEEP.append(orig)


_modcache = {}


def shim_value(v):
    """replacement for a module-level value of the code under test"""
    if id(v) in IDENTITY:
        return IDENTITY[id(v)]
    if isinstance(v, (NpModule, UfuncShim, MaShim)):
        return v
    if isinstance(v, types.ModuleType):
        nm = v.__name__
        if nm.split('.')[0] in ('numpy', 'math', 'scipy', 'ase', 'pymatgen', 'wulffpack'):
            if nm not in _modcache:
                sp = {}
                if nm == 'numpy':
                    sp = dict(NP_SPECIAL)
                    sp['random'] = IDENTITY.get(id(np.random), None) or NpModule(np.random)
                    sp['linalg'] = NpModule(np.linalg, {'LinAlgError': np.linalg.LinAlgError})
                    sp['ma'] = MaShim()
                elif nm == 'numpy.linalg':
                    sp = {'LinAlgError': np.linalg.LinAlgError}
                elif nm == 'numpy.ma':
                    return MaShim()
                elif nm == 'math':
                    sp = dict(MATH)
                _modcache[nm] = NpModule(v, sp)
            return _modcache[nm]
        return v
    if isinstance(v, np.ufunc):
        return UfuncShim(v)
    if isinstance(v, type):
        return v
    if callable(v):
        m = getattr(v, '__module__', None) or ''
        nm = getattr(v, '__name__', '')
        if m == 'numpy' or m.startswith('numpy.') or (m == '' and nm and getattr(np, nm, None) is v):
            if nm in CREATE and getattr(np, nm, None) is v:
                return CREATE[nm]
            if getattr(np, nm, None) is v and nm in NP_SPECIAL:
                return NP_SPECIAL[nm]
            return wrapped(v)
        if getattr(math, nm, None) is v and nm in MATH:
            return MATH[nm]
    return v


def m_wrap(name):
    f = UF[name]

    def g(*a):
        r = f(*[_cs(x._one() if isinstance(x, SArr) else x) for x in a])
        return r
    return g


def _m_int(name):
    f = UF[name]

    def g(a):
        a = _cs(a._one() if isinstance(a, SArr) else a)
        return cast_elem(f(a), 'i')
    return g


def _m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = s_abs(s_sub(a, b))
    return d <= s_max(s_mul(rel_tol, s_max(s_abs(a), s_abs(b))), abs_tol)


def _m_dist(p, q):
    return s_sqrt(_sum_list([s_mul(s_sub(a, b), s_sub(a, b)) for a, b in zip(p, q)]))


def _m_sqrt(a):
    a = _cs(a._one() if isinstance(a, SArr) else a)
    if not is_sym(a):
        return math.sqrt(a)
    r = s_sqrt(a)
    if isinstance(r, float) and math.isnan(r):
        raise ValueError("math domain error")
    return r


def _m_fsum(xs):
    return cast_elem(_sum_list([_cs(x) for x in xs]), 'f')


def _m_prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


MATH = {'sqrt': _m_sqrt, 'floor': _m_int('floor'), 'ceil': _m_int('ceil'), 'trunc': _m_int('trunc'),
        'fabs': m_wrap('fabs'), 'cos': m_wrap('cos'), 'sin': m_wrap('sin'), 'tan': m_wrap('tan'),
        'acos': m_wrap('arccos'), 'asin': m_wrap('arcsin'), 'atan': m_wrap('arctan'), 'atan2': m_wrap('arctan2'),
        'hypot': lambda *a: s_sqrt(_sum_list([s_mul(x, x) for x in a])), 'isnan': m_wrap('isnan'),
        'isinf': m_wrap('isinf'), 'isfinite': m_wrap('isfinite'), 'isclose': _m_isclose, 'dist': _m_dist,
        'degrees': m_wrap('degrees'), 'radians': m_wrap('radians'), 'pow': m_wrap('power'), 'fsum': _m_fsum,
        'prod': _m_prod, 'exp': m_wrap('exp'), 'log': m_wrap('log'), 'fmod': m_wrap('mod')}

NP_SPECIAL = dict(CREATE)
NP_SPECIAL.update({'issubdtype': _issubdtype, 'finfo': _finfo, 'iinfo': _iinfo, 'isscalar': _isscalar,
                   'vectorize': _vectorize, 'errstate': np.errstate})
