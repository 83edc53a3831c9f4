"""A numpy stand-in over symbolic elements.

SArr is a real numpy object array (so slicing, broadcasting, reshaping, views and
aliasing are numpy's own) carrying a virtual dtype; element arithmetic is done by
the functions here on Python numbers / symbolic values, with numpy's semantics for
division by zero, NaN, integer casts and reductions.  Floating-point rounding is
not modelled (elements are exact reals)."""
import builtins
import copy as _copy
import math

import numpy as _np
import z3

from . import core
from .core import Fraction, Sym, SymBool, SymInt, SymReal, Unsupported, mkbool, is_sym

f64 = _np.dtype("float64")
i64 = _np.dtype("int64")
b1 = _np.dtype("bool")


# --------------------------------------------------------------------------
# element functions
# --------------------------------------------------------------------------
def isnan_e(x):
    return isinstance(x, float) and x != x


def isinf_e(x):
    return isinstance(x, float) and math.isinf(x)


def e_div(a, b):
    if isinstance(a, SymBool):
        a = b2i(a)
    if isinstance(b, SymBool):
        b = b2i(b)
    if is_sym(a) or is_sym(b):
        a, b = SymReal.lift(a), SymReal.lift(b)
        return SymReal._div(a, b)
    with _np.errstate(all="ignore"):
        return float(_np.float64(a) / _np.float64(b))


def e_sqrt(a):
    if is_sym(a):
        a = SymReal.lift(a)
        return a.sqrt() if isinstance(a, SymReal) else a
    a = float(a)
    return float("nan") if a < 0 else math.sqrt(a)


def e_round(kind):
    def f(a):
        if isinstance(a, SymInt):
            return a
        if isinstance(a, SymReal):
            return getattr(a, {"rint": "rint", "floor": "floor", "ceil": "ceil"}.get(kind, "rint"))() \
                if kind != "trunc" else SymReal.lift(a.trunc_int())
        return float(getattr(_np, kind)(float(a)))
    return f


def e_sign(a):
    if is_sym(a):
        a = SymReal.lift(a)
        return float(a.sign())
    return float(_np.sign(a))


def e_min(a, b):
    if isnan_e(a):
        return a
    if isnan_e(b):
        return b
    return a if bool(a <= b) else b


def e_max(a, b):
    if isnan_e(a):
        return a
    if isnan_e(b):
        return b
    return a if bool(a >= b) else b


def b2i(x):
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
    return int(x)


def num(x):
    if isinstance(x, (SymBool, bool, _np.bool_)):
        return b2i(x)
    return x


def e_and(a, b):
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return mkbool(z3.And(core.to_z3bool(a), core.to_z3bool(b)))
        return bool(a and b)
    return int(a) & int(b)


def e_or(a, b):
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return mkbool(z3.Or(core.to_z3bool(a), core.to_z3bool(b)))
        return bool(a or b)
    return int(a) | int(b)


def truth(x):
    """element -> bool / SymBool"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def e_not(a):
    a = truth(a)
    return mkbool(z3.Not(a.z)) if isinstance(a, SymBool) else (not a)


def e_pow(a, b):
    a = num(a)
    if is_sym(a) or is_sym(b):
        if isinstance(a, float):
            return a * a if b == 2 else float(_np.power(a, float(b)))
        if isinstance(a, SymInt) and isinstance(b, float):
            a = a.to_real()
        return a ** b
    with _np.errstate(all="ignore"):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        return float(_np.power(float(a), float(b)))


def e_floordiv(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(b, (int, float)) and b == 0:
            return e_div(a, b) if isinstance(a, (float, SymReal)) else 0
        return a // b
    with _np.errstate(all="ignore"):
        return _np.floor_divide(a, b).item()


def e_mod(a, b):
    if is_sym(a) or is_sym(b):
        return a % b
    with _np.errstate(all="ignore"):
        return _np.mod(a, b).item()


def lift_c(f, name):
    """concrete -> numpy; symbolic -> unsupported"""
    def g(*a):
        b = []
        for x in a:
            if isinstance(x, SymReal) and x.const() is not None:
                x = float(x.const())
            if is_sym(x):
                raise Unsupported("np.%s on symbolic value" % name)
            b.append(x)
        with _np.errstate(all="ignore"):
            r = getattr(_np, name)(*b)
        return r.item() if hasattr(r, "item") else r
    return g


def e_bin(op):
    import operator
    o = getattr(operator, op)

    def f(a, b):
        return o(num(a), num(b))
    return f


def e_eq(a, b):
    return a == b


def e_abs(a):
    return abs(num(a))


def e_cmp(op):
    import operator
    o = getattr(operator, op)

    def f(a, b):
        if op in ("eq", "ne") and isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return o(a, b)
        return o(num(a), num(b))
    return f


EL = {
    "add": e_bin("add"), "subtract": e_bin("sub"), "multiply": e_bin("mul"),
    "divide": e_div, "true_divide": e_div, "floor_divide": e_floordiv,
    "remainder": e_mod, "mod": e_mod, "power": e_pow, "float_power": e_pow,
    "negative": lambda a: -num(a), "positive": lambda a: a,
    "absolute": e_abs, "abs": e_abs, "fabs": e_abs, "square": lambda a: num(a) * num(a),
    "sqrt": e_sqrt, "sign": e_sign, "rint": e_round("rint"), "floor": e_round("floor"),
    "ceil": e_round("ceil"), "trunc": e_round("trunc"), "fix": e_round("trunc"),
    "less": e_cmp("lt"), "less_equal": e_cmp("le"), "greater": e_cmp("gt"),
    "greater_equal": e_cmp("ge"), "equal": e_cmp("eq"), "not_equal": e_cmp("ne"),
    "logical_and": lambda a, b: e_and(truth(a), truth(b)),
    "logical_or": lambda a, b: e_or(truth(a), truth(b)),
    "logical_not": e_not, "logical_xor": lambda a, b: truth(a) != truth(b),
    "bitwise_and": e_and, "bitwise_or": e_or, "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: e_not(a) if isinstance(a, (bool, SymBool, _np.bool_)) else ~int(a),
    "bitwise_not": lambda a: e_not(a),
    "isnan": isnan_e, "isinf": isinf_e,
    "isfinite": lambda a: not (isnan_e(a) or isinf_e(a)),
    "minimum": e_min, "maximum": e_max,
    "fmin": lambda a, b: b if isnan_e(a) else a if isnan_e(b) else e_min(a, b),
    "fmax": lambda a, b: b if isnan_e(a) else a if isnan_e(b) else e_max(a, b),
    "left_shift": lambda a, b: int(a) << int(b), "right_shift": lambda a, b: int(a) >> int(b),
    "conjugate": lambda a: a, "reciprocal": lambda a: e_div(1.0, a),
    "hypot": lambda a, b: e_sqrt(a * a + b * b),
}
for _n in ("exp", "log", "log2", "log10", "log1p", "expm1", "sin", "cos", "arccos", "tanh", "arctan2", "ldexp", "cbrt"):
    EL[_n] = lift_c(None, _n)
BOOLUF = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and",
          "logical_or", "logical_not", "logical_xor", "isnan", "isinf", "isfinite"}


# --------------------------------------------------------------------------
def vdof(x):
    """virtual dtype of an argument (or a Python scalar for weak promotion)"""
    if isinstance(x, SArr):
        return x._vd
    if isinstance(x, _np.ndarray):
        return x.dtype
    if isinstance(x, _np.generic):
        return x.dtype
    if isinstance(x, (bool, SymBool)):
        return True
    if isinstance(x, (int, SymInt)):
        return 1
    return 1.0


def result_dtype(name, args):
    if name in BOOLUF:
        return b1
    dummy = []
    for a in args:
        v = vdof(a)
        dummy.append(_np.ones(1, dtype=v) if isinstance(v, _np.dtype) else v)
    try:
        with _np.errstate(all="ignore"):
            uf = getattr(_np, name)
            return _np.asarray(uf(*dummy)).dtype
    except Exception:
        return f64


def pyel(x):
    """python-native element"""
    if isinstance(x, _np.generic):
        return x.item()
    return x


def guess_dtype(flat):
    kinds = set()
    for x in flat:
        if isinstance(x, (SymReal, float, Fraction)):
            kinds.add("f")
        elif isinstance(x, (bool, SymBool)):
            kinds.add("b")
        elif isinstance(x, (int, SymInt)):
            kinds.add("i")
        else:
            return None
    if "f" in kinds:
        return f64
    if "i" in kinds:
        return i64
    if "b" in kinds:
        return b1
    return f64


def cast_el(x, vd):
    """assign x into an array of dtype vd"""
    k = vd.kind
    if k == "f":
        if isinstance(x, (SymBool, bool)):
            x = b2i(x)
        if isinstance(x, SymInt):
            return x.to_real()
        if isinstance(x, SymReal):
            return x
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, str) or x is None:
            return float(x)
        return float(x)
    if k in "iu":
        lo, hi = int(_np.iinfo(vd).min), int(_np.iinfo(vd).max)
        if isinstance(x, (SymBool, bool)):
            x = b2i(x)
        if isinstance(x, SymReal):
            x = x.trunc_int()
        if isinstance(x, float):
            if x != x or math.isinf(x):
                return int(_np.array([x]).astype(vd)[0]) if True else 0
            x = int(x)
        if isinstance(x, SymInt):
            z = x.z
            if core.CTX.branch(z3.And(z >= lo, z <= hi)):
                return x
            span = hi - lo + 1
            return SymInt(z3.simplify((z - lo) % span + lo))
        x = int(x)
        if lo <= x <= hi:
            return x
        return (x - lo) % (hi - lo + 1) + lo
    if k == "b":
        return truth(x)
    return x


def scalar_out(x, vd):
    if is_sym(x):
        return x
    if isinstance(x, float):
        return _np.float64(x)
    if isinstance(x, bool):
        return _np.bool_(x)
    if isinstance(x, int):
        try:
            return _np.int64(x)
        except OverflowError:
            return x
    if isinstance(x, str) and type(x) is str:
        return _np.str_(x)
    return x


class SArr(_np.ndarray):
    _vd = f64

    def __array_finalize__(self, obj):
        self._vd = getattr(obj, "_vd", f64)

    # ---- dtype & meta
    @property
    def dtype(self):
        return self._vd

    @property
    def itemsize(self):
        return self._vd.itemsize

    @property
    def nbytes(self):
        return self.size * self._vd.itemsize

    def raw(self):
        return _np.ndarray.view(self, _np.ndarray)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order="C"):
        r = _np.ndarray.copy(self)
        return r

    def astype(self, dt, copy=True, **kw):
        vd = todt(dt)
        if not copy and vd == self._vd:
            return self
        out = _np.empty(self.shape, dtype=object)
        src = self.raw()
        for i in _np.ndindex(self.shape):
            out[i] = cast_el(src[i], vd)
        return wrap(out, vd)

    # ---- indexing
    def __getitem__(self, idx):
        r = _np.ndarray.__getitem__(self, fixidx(idx))
        if isinstance(r, SArr):
            return r
        return scalar_out(r, self._vd)

    def __setitem__(self, idx, val):
        idx = fixidx(idx)
        if isinstance(val, _np.ndarray):
            v = val.raw() if isinstance(val, SArr) else val.astype(object)
            o = _np.empty(v.shape, dtype=object)
            for i in _np.ndindex(v.shape):
                o[i] = cast_el(pyel(v[i]), self._vd)
            if o.ndim == 0 and isinstance(idx, tuple) and len(idx) == self.ndim and builtins.all(isinstance(i, (int, _np.integer)) for i in idx):
                o = o[()]
            _np.ndarray.__setitem__(self, idx, o)
        elif isinstance(val, (list, tuple)):
            self.__setitem__(idx, array(val))
        else:
            v = cast_el(pyel(val), self._vd)
            if isinstance(idx, tuple) and len(idx) == self.ndim and builtins.all(isinstance(i, (int, _np.integer)) for i in idx):
                # a single element: numpy would store a 0-d object array as such
                _np.ndarray.__setitem__(self, idx, v)
                return
            o = _np.empty((), dtype=object)
            o[()] = v
            _np.ndarray.__setitem__(self, idx, o)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(any_(equal(self, x)))

    def __bool__(self):
        if self.size == 1:
            return bool(truth(self.raw().reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def item(self, *a):
        if a:
            return self.raw().item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.raw().reshape(-1)[0]

    def __float__(self):
        return self.item().__float__()

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def tolist(self):
        return self.raw().tolist()

    def tobytes(self, order="C"):
        return SymBytes((self._vd.str, self.shape, tuple(self.raw().reshape(-1).tolist())))

    def view(self, *a, **k):
        if not a and not k:
            return _np.ndarray.view(self)
        raise Unsupported("ndarray.view with a dtype")

    def setflags(self, *a, **k):
        return None

    # ---- ufuncs
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        name = uf.__name__
        if method == "reduce":
            red = {"add": sum_, "maximum": max_, "minimum": min_, "logical_and": all_, "logical_or": any_,
                   "multiply": prod}.get(name)
            if red is None:
                raise Unsupported("ufunc.reduce %s" % name)
            return red(inputs[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False))
        if method == "accumulate" and name == "add":
            return cumsum(inputs[0], axis=kw.get("axis", 0))
        if method == "outer":
            a, b = asarray(inputs[0]), asarray(inputs[1])
            return elementwise(name, a.reshape(a.shape + (1,) * b.ndim), b)
        if method != "__call__":
            raise Unsupported("ufunc method %s.%s" % (name, method))
        if name == "matmul":
            return matmul(*inputs)
        r = elementwise(name, *inputs)
        if out is not None:
            o = out[0]
            o[...] = r
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        f = TABLE.get(func.__name__)
        if f is None and getattr(func, "__module__", "") == "numpy.linalg":
            f = getattr(linalg, func.__name__, None)
        if f is not None:
            return f(*args, **kwargs)
        return fallback(func, args, kwargs)

    # ---- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return sum_(self, axis, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False): return mean(self, axis, keepdims=keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False): return std(self, axis, ddof=ddof, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False): return var(self, axis, ddof=ddof, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False): return min_(self, axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False): return max_(self, axis, keepdims=keepdims)
    def any(self, axis=None, out=None, keepdims=False): return any_(self, axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False): return all_(self, axis, keepdims=keepdims)
    def prod(self, axis=None, keepdims=False): return prod(self, axis, keepdims=keepdims)
    def argmin(self, axis=None, out=None): return argmin(self, axis)
    def argmax(self, axis=None, out=None): return argmax(self, axis)
    def argsort(self, axis=-1, kind=None, order=None, **k): return argsort(self, axis)
    def argpartition(self, kth, axis=-1, **k): return argsort(self, axis)
    def cumsum(self, axis=None, dtype=None): return cumsum(self, axis)
    def dot(self, o): return dot(self, o)
    def clip(self, lo=None, hi=None, **k): return clip(self, lo, hi)
    def round(self, decimals=0, out=None): return around(self, decimals)
    def nonzero(self): return nonzero(self)
    def sort(self, axis=-1, kind=None):
        r = sort(self, axis)
        self[...] = r
    def flatten(self, order="C"): return self.copy().reshape(-1)
    def ravel(self, order="C"): return self.reshape(-1)
    def fill(self, v): self[...] = v
    def conj(self): return self
    def take(self, idx, axis=None): return take(self, idx, axis)

    def __add__(self, o): return elementwise("add", self, o)
    def __radd__(self, o): return elementwise("add", o, self)
    def __sub__(self, o): return elementwise("subtract", self, o)
    def __rsub__(self, o): return elementwise("subtract", o, self)
    def __mul__(self, o): return elementwise("multiply", self, o)
    def __rmul__(self, o): return elementwise("multiply", o, self)
    def __truediv__(self, o): return elementwise("divide", self, o)
    def __rtruediv__(self, o): return elementwise("divide", o, self)
    def __floordiv__(self, o): return elementwise("floor_divide", self, o)
    def __rfloordiv__(self, o): return elementwise("floor_divide", o, self)
    def __mod__(self, o): return elementwise("mod", self, o)
    def __pow__(self, o): return elementwise("power", self, o)
    def __rpow__(self, o): return elementwise("power", o, self)
    def __neg__(self): return elementwise("negative", self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise("absolute", self)
    def __invert__(self): return elementwise("invert", self)
    def __and__(self, o): return elementwise("bitwise_and", self, o)
    def __rand__(self, o): return elementwise("bitwise_and", o, self)
    def __or__(self, o): return elementwise("bitwise_or", self, o)
    def __ror__(self, o): return elementwise("bitwise_or", o, self)
    def __xor__(self, o): return elementwise("bitwise_xor", self, o)
    def __lshift__(self, o): return elementwise("left_shift", self, o)
    def __rshift__(self, o): return elementwise("right_shift", self, o)
    def __lt__(self, o): return elementwise("less", self, o)
    def __le__(self, o): return elementwise("less_equal", self, o)
    def __gt__(self, o): return elementwise("greater", self, o)
    def __ge__(self, o): return elementwise("greater_equal", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return wrap(_np.full(self.shape, False, dtype=object), b1)
        return elementwise("equal", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return wrap(_np.full(self.shape, True, dtype=object), b1)
        return elementwise("not_equal", self, o)
    __hash__ = None

    def _inpl(self, name, o):
        r = elementwise(name, self, o)
        if r.shape != self.shape:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (self.shape, r.shape))
        self[...] = r
        return self

    def __iadd__(self, o): return self._inpl("add", o)
    def __isub__(self, o): return self._inpl("subtract", o)
    def __imul__(self, o): return self._inpl("multiply", o)
    def __itruediv__(self, o): return self._inpl("divide", o)
    def __ifloordiv__(self, o): return self._inpl("floor_divide", o)
    def __ipow__(self, o): return self._inpl("power", o)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __repr__(self): return "SArr%s%s" % (self.shape, self.tolist())
    __str__ = __repr__
    def __format__(self, s): return "<array>"


class SymBytes:
    """content of array.tobytes(): equal where the elements are (decided by the solver)"""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v[2]) * _np.dtype(self.v[0]).itemsize

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if not isinstance(o, SymBytes):
            return False
        if self.v[0] != o.v[0] or len(self.v[2]) != len(o.v[2]):
            return False
        return builtins.all(x is y or (x != x and y != y) or bool(x == y) for x, y in zip(self.v[2], o.v[2]))

    def __ne__(self, o):
        return not self == o


def todt(dt):
    if dt is None:
        return f64
    if dt is float or getattr(dt, "__name__", "") == "float":
        return f64
    if getattr(dt, "__name__", "") == "int" and not isinstance(dt, _np.dtype):
        return i64
    if getattr(dt, "__name__", "") == "bool":
        return b1
    return _np.dtype(dt)


def wrap(o, vd):
    r = o.view(SArr)
    r._vd = vd
    return r


def fixidx(idx):
    if isinstance(idx, tuple):
        return tuple(fixidx1(i) for i in idx)
    return fixidx1(idx)


def fixidx1(i):
    if isinstance(i, SymInt):
        return int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        return slice(*[int(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
    if isinstance(i, SArr):
        r = i.raw()
        if i._vd.kind == "b":
            return _np.array([bool(x) for x in r.reshape(-1)], dtype=bool).reshape(r.shape)
        if i._vd.kind in "iu":
            return _np.array([int(x) for x in r.reshape(-1)], dtype=_np.intp).reshape(r.shape)
        if i.size == 0:
            return _np.zeros(i.shape, dtype=_np.intp)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, list) and builtins.any(is_sym(x) for x in i):
        return [fixidx1(x) for x in i]
    return i


def has_sym(x):
    if is_sym(x) or isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(y) for y in x)
    return False


def shape_of(x):
    if isinstance(x, _np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [shape_of(y) for y in x]
        if builtins.any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s[0]
    return ()


def flatten_any(x, out):
    if isinstance(x, SArr):
        out.extend(x.raw().reshape(-1).tolist())
    elif isinstance(x, _np.ndarray):
        out.extend(x.reshape(-1).tolist())
    elif isinstance(x, (list, tuple)):
        for y in x:
            flatten_any(y, out)
    else:
        out.append(pyel(x))


def make(rows, shape, dtype):
    flat = []
    flatten_any(rows, flat)
    vd = todt(dtype)
    o = _np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        o[i] = cast_el(x, vd)
    return wrap(o.reshape(shape), vd)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, SArr):
        r = x.copy() if copy else x
        if dtype is not None and todt(dtype) != x._vd:
            r = r.astype(dtype)
    else:
        if hasattr(x, "__array__") and not isinstance(x, (_np.ndarray, _np.generic)):
            x = x.__array__()
        if isinstance(x, (range, )) or hasattr(x, "keys") is False and hasattr(x, "__next__"):
            x = list(x) if isinstance(x, range) else x
        vd = None
        if isinstance(x, _np.ndarray):
            if x.dtype.kind not in "fiub":
                return _np.array(x, dtype=dtype)
            vd = x.dtype
        flat = []
        flatten_any(x, flat)
        strs = [y for y in flat if isinstance(y, str) or type(y).__name__ == "SymStr"]
        if strs or (dtype is not None and _np.dtype(todt(dtype)).kind not in "fiub"):
            from . import symstr
            if builtins.any(isinstance(y, symstr.SymStr) for y in flat) or builtins.any(is_sym(y) for y in flat):
                return str_array(x, flat)
            return _np.array(x, dtype=dtype)
        try:
            sh = shape_of(x)
        except ValueError:
            raise
        if not isinstance(vd, _np.dtype):
            subs = [vdof(y) for y in leaves(x)]
            subs = [s for s in subs if isinstance(s, _np.dtype)]
            g = guess_dtype(flat)
            if g is None:
                if builtins.any(is_sym(y) for y in flat):
                    raise Unsupported("object array with symbolic members")
                return _np.array(x, dtype=dtype)
            vd = subs[0] if subs and builtins.all(s == subs[0] for s in subs) and subs[0].kind == g.kind else g
        if dtype is not None:
            vd = todt(dtype)
        r = make(flat, sh, vd)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def str_array(x, flat):
    """unicode array: numpy strips trailing NULs when elements are read back"""
    sh = shape_of(x)
    o = _np.empty(len(flat), dtype=object)
    for i, y in enumerate(flat):
        while len(y) and bool(y[-1] == "\0"):
            y = y[:-1]
        o[i] = y
    return wrap(o.reshape(sh), _np.dtype("<U64"))


def leaves(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from leaves(y)
    else:
        yield x


def asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and (dtype is None or todt(dtype) == x._vd):
        return x
    return array(x, dtype=dtype)


def obj(x):
    """-> (raw object ndarray)"""
    if isinstance(x, SArr):
        return x.raw()
    if isinstance(x, _np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        a = array(x)
        return a.raw() if isinstance(a, SArr) else a.astype(object)
    o = _np.empty((), dtype=object)
    o[()] = pyel(x)
    return o


def elementwise(name, *args):
    f = EL.get(name)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
    if name in ("subtract", "negative") and builtins.all(vdof(a) is True or getattr(vdof(a), "kind", "") == "b" for a in args):
        raise TypeError("numpy boolean %s, the `-` operator, is not supported" % name)
    vd = result_dtype(name, args)
    arrs = [obj(a) for a in args]
    bs = _np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = _np.empty(bs[0].shape, dtype=object)
    intlike = vd.kind in "iu" and name in ("add", "subtract", "multiply", "power", "negative", "absolute", "square")
    for i in _np.ndindex(out.shape):
        v = f(*[b[i] for b in bs])
        if isinstance(v, _np.generic):
            v = v.item()
        if intlike and vd.itemsize < 8:
            v = cast_el(v, vd)
        out[i] = v
    if out.ndim == 0:
        return scalar_out(out[()], vd)
    return wrap(out, vd)


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def _norm_axis(axis, nd):
    if isinstance(axis, SymInt):
        axis = int(axis)
    if axis < -nd or axis >= nd:
        raise _np.exceptions.AxisError(axis, nd)
    return axis % nd


def reduce(a, axis, keepdims, f, vd, empty=None):
    a = asarray(a)
    r = a.raw() if isinstance(a, SArr) else a.astype(object)
    if isinstance(axis, tuple):
        for ax in sorted((_norm_axis(x, r.ndim) for x in axis), reverse=True):
            a = reduce(a, ax, True, f, vd, empty)
        if not keepdims:
            a = a.reshape(tuple(s for i, s in enumerate(a.shape) if i not in {_norm_axis(x, r.ndim) for x in axis}))
        return a
    if axis is None:
        v = f(r.reshape(-1).tolist())
        if keepdims:
            o = _np.empty((1,) * r.ndim, dtype=object)
            o.reshape(-1)[0] = v
            return wrap(o, vd)
        return scalar_out(v, vd)
    axis = _norm_axis(axis, r.ndim)
    m = _np.moveaxis(r, axis, -1)
    out = _np.empty(m.shape[:-1], dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = f(list(m[i]))
    if out.ndim == 0 and not keepdims:
        return scalar_out(out[()], vd)
    if keepdims:
        out = _np.expand_dims(out, axis)
    return wrap(out, vd)


def _f_sum(l):
    t = 0
    for x in l:
        t = t + num(x)
    return t


def fl(x):
    return float(x) if isinstance(x, (int,)) and not isinstance(x, bool) else x


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    vd = a.dtype
    if vd.kind in "biu":
        vd = i64
    isf = vd.kind == "f"
    return reduce(a, axis, keepdims, (lambda l: fl(_f_sum(l))) if isf else _f_sum, vd)


def _fdt(a):
    return a.dtype if a.dtype.kind == "f" else f64


def _mean_l(l):
    return e_div(_f_sum(l), len(l))


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    return reduce(a, axis, keepdims, _mean_l, _fdt(a))


def _var_l(ddof):
    def f(l):
        m = _mean_l(l)
        d = [num(x) - m for x in l]
        return e_div(_f_sum([x * x for x in d]), len(l) - ddof)
    return f


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarray(a)
    return reduce(a, axis, keepdims, _var_l(ddof), _fdt(a))


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarray(a)
    return reduce(a, axis, keepdims, lambda l: e_sqrt(_var_l(ddof)(l)), _fdt(a))


def _mm(f, nm):
    def g(l):
        if not l:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % nm)
        r = core.extreme(l, f is e_min)
        if r is not None:
            return r
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r
    return g


def min_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a)
    return reduce(a, axis, keepdims, _mm(e_min, "minimum"), a.dtype)


def max_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a)
    return reduce(a, axis, keepdims, _mm(e_max, "maximum"), a.dtype)


def prod(a, axis=None, keepdims=False, **k):
    a = asarray(a)

    def f(l):
        t = 1
        for x in l:
            t = t * num(x)
        return t
    return reduce(a, axis, keepdims, f, a.dtype)


def _all_l(l):
    zs = []
    for x in l:
        t = truth(x)
        if isinstance(t, SymBool):
            zs.append(t.z)
        elif not t:
            return False
    return mkbool(z3.And(zs)) if zs else True


def _any_l(l):
    zs = []
    for x in l:
        t = truth(x)
        if isinstance(t, SymBool):
            zs.append(t.z)
        elif t:
            return True
    return mkbool(z3.Or(zs)) if zs else False


def all_(a, axis=None, out=None, keepdims=False, **k):
    if is_sym(a):
        return truth(a)
    return reduce(a, axis, keepdims, _all_l, b1)


def any_(a, axis=None, out=None, keepdims=False, **k):
    if is_sym(a):
        return truth(a)
    return reduce(a, axis, keepdims, _any_l, b1)


def less_nan_last(a, b):
    if isnan_e(a):
        return False
    if isnan_e(b):
        return True
    return bool(a < b)


def _argsort_l(l):
    idx = []
    for i in range(len(l)):
        j = len(idx)
        while j > 0 and less_nan_last(l[i], l[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _along(a, axis, f, vd):
    a = asarray(a)
    r = obj(a)
    if axis is None:
        r = r.reshape(-1)
        axis = 0
    axis = _norm_axis(axis, r.ndim)
    m = _np.moveaxis(r, axis, -1)
    out = _np.empty(m.shape, dtype=object)
    for i in _np.ndindex(m.shape[:-1]):
        v = f(list(m[i]))
        for j, x in enumerate(v):
            out[i + (j,)] = x
    return wrap(_np.ascontiguousarray(_np.moveaxis(out, -1, axis)), vd)


def argsort(a, axis=-1, kind=None, order=None, **k):
    return _along(a, axis, _argsort_l, i64)


def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


def sort(a, axis=-1, kind=None, **k):
    a = asarray(a)
    return _along(a, axis, lambda l: [l[i] for i in _argsort_l(l)], a.dtype)


def lexsort(keys, axis=-1):
    keys = [obj(k).reshape(-1).tolist() for k in keys]
    n = len(keys[0])
    idx = list(range(n))
    for k in keys:
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and less_nan_last(k[i], k[out[j - 1]]):
                j -= 1
            out.insert(j, i)
        idx = out
    return make(idx, (n,), i64)


def _arg_l(sgn):
    def f(l):
        if not l:
            raise ValueError("attempt to get argm%s of an empty sequence" % ("in" if sgn < 0 else "ax"))
        b = 0
        for i in range(len(l)):
            if isnan_e(l[i]):
                return i
        for i in range(1, len(l)):
            if bool(num(l[i]) < num(l[b]) if sgn < 0 else num(l[i]) > num(l[b])):
                b = i
        return b
    return f


def argmin(a, axis=None, out=None, **k):
    return reduce(a, axis, k.get("keepdims", False), _arg_l(-1), i64)


def argmax(a, axis=None, out=None, **k):
    return reduce(a, axis, k.get("keepdims", False), _arg_l(1), i64)


def cumsum(a, axis=None, dtype=None, out=None):
    def f(l):
        t, r = 0, []
        for x in l:
            t = t + num(x)
            r.append(t)
        return r
    a = asarray(a)
    return _along(a, axis, f, a.dtype if a.dtype.kind != "b" else i64)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = list(sl1)
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def dot(a, b):
    a, b = _sc(a), _sc(b)
    if getattr(a, "ndim", 0) == 0 or getattr(b, "ndim", 0) == 0:
        return elementwise("multiply", a, b)
    ra, rb = obj(a), obj(b)
    vd = result_dtype("multiply", [a, b])
    if ra.shape[-1] != rb.shape[-2 if rb.ndim >= 2 else 0]:
        raise ValueError("shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)" % (
            ra.shape, rb.shape, ra.shape[-1], ra.ndim - 1, rb.shape[-2 if rb.ndim >= 2 else 0], 0))
    isf = vd.kind == "f"
    narrow = vd.kind in "iub" and vd.itemsize < 8

    def ip(x, y):
        t = 0
        for p, q in zip(x, y):
            t = t + num(p) * num(q)
        return fl(t) if isf else cast_el(t, vd) if narrow else t
    if ra.ndim == 1 and rb.ndim == 1:
        return scalar_out(ip(ra, rb), vd)
    if rb.ndim == 1:
        out = _np.empty(ra.shape[:-1], dtype=object)
        for i in _np.ndindex(out.shape):
            out[i] = ip(ra[i], rb)
        return wrap(out, vd)
    if rb.ndim == 2:
        out = _np.empty(ra.shape[:-1] + (rb.shape[1],), dtype=object)
        for i in _np.ndindex(ra.shape[:-1]):
            for j in range(rb.shape[1]):
                out[i + (j,)] = ip(ra[i], rb[:, j])
        return wrap(out, vd)
    raise Unsupported("dot of >2-d arrays")


def _sc(x):
    return asarray(x) if isinstance(x, (list, tuple, _np.ndarray)) else x


def matmul(a, b):
    a, b = _sc(a), _sc(b)
    if getattr(a, "ndim", 0) == 0 or getattr(b, "ndim", 0) == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.shape[-1] != b.shape[-2 if b.ndim >= 2 else 0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (
            b.shape[-2 if b.ndim >= 2 else 0], a.shape[-1]))
    return dot(a, b)


def inner(a, b):
    a, b = _sc(a), _sc(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


def outer(a, b):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return a[:, None] * b[None, :]


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    arrs = [obj(o) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together")
    if out is None:
        out = "".join(sorted(c for c in dims if "".join(ins).count(c) == 1))
    rest = [c for c in dims if c not in out]
    res = _np.empty(tuple(dims[c] for c in out), dtype=object)
    for i in _np.ndindex(res.shape):
        env = dict(zip(out, i))
        t = 0
        for j in _np.ndindex(tuple(dims[c] for c in rest)):
            env.update(zip(rest, j))
            p = 1
            for s, a in zip(ins, arrs):
                p = p * num(a[tuple(env[c] for c in s)])
            t = t + p
        res[i] = t
    vd = result_dtype("multiply", [_sc(o) for o in ops][:2]) if len(ops) > 1 else asarray(ops[0]).dtype
    return wrap(res, vd) if res.ndim else scalar_out(res[()], vd)


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = elementwise("maximum", r, a_min)
    if a_max is not None:
        r = elementwise("minimum", r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    c = asarray(c) if not is_sym(c) else c
    co = obj(c)
    xo, yo = obj(x), obj(y)
    vd = result_dtype("add", [x if not isinstance(x, (list, tuple)) else array(x), y if not isinstance(y, (list, tuple)) else array(y)])
    cb, xb, yb = _np.broadcast_arrays(co, xo, yo)
    out = _np.empty(cb.shape, dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = cast_el(xb[i] if bool(truth(cb[i])) else yb[i], vd)
    return wrap(out, vd) if out.ndim else scalar_out(out[()], vd)


def nonzero(c):
    a = asarray(c)
    r = obj(a)
    hits = [i for i in _np.ndindex(r.shape) if bool(truth(r[i]))]
    return tuple(make([h[d] for h in hits], (len(hits),), i64) for d in range(r.ndim))


def flatnonzero(c):
    return nonzero(asarray(c).reshape(-1))[0]


def argwhere(c):
    nz = nonzero(c)
    return stack(nz, axis=1)


def count_nonzero(a, axis=None, keepdims=False):
    return sum_(elementwise("not_equal", asarray(a), 0) if asarray(a).dtype.kind != "b" else a, axis, keepdims=keepdims)


def around(a, decimals=0, out=None):
    if decimals == 0:
        return elementwise("rint", a)
    s = 10 ** decimals
    return elementwise("rint", asarray(a) * s) / s


def _join(fn):
    def g(seq, axis=None, **kw):
        seq = [asarray(s) if not is_sym(s) else make([s], (1,), f64 if isinstance(s, SymReal) else i64) for s in seq]
        vds = [s.dtype for s in seq]
        if not vds:
            raise ValueError("need at least one array to concatenate")
        vd = _np.result_type(*vds)
        kw = {} if axis is None else {"axis": axis}
        return wrap(getattr(_np, fn)([obj(s) for s in seq], **kw), vd)
    return g


concatenate, stack = _join("concatenate"), _join("stack")
vstack, hstack, column_stack = _join("vstack"), _join("hstack"), _join("column_stack")


def append(a, v, axis=None):
    if axis is None:
        return concatenate([asarray(a).reshape(-1), asarray(v).reshape(-1)])
    return concatenate([a, v], axis=axis)


def shapemap(fn):
    def g(a, *args, **kw):
        a = asarray(a)
        if not isinstance(a, SArr):
            return getattr(_np, fn)(a, *args, **kw)
        args = [int(x) if isinstance(x, SymInt) else tuple(int(t) if isinstance(t, SymInt) else t for t in x) if isinstance(x, tuple) else x for x in args]
        r = getattr(_np, fn)(a.raw(), *args, **kw)
        return wrap(r, a._vd)
    return g


def pad(a, width, mode="constant", constant_values=0, **kw):
    a = asarray(a)
    w = [tuple(int(t) for t in x) if isinstance(x, (tuple, list)) else int(x) for x in width] if isinstance(width, (tuple, list)) else int(width)
    if isinstance(w, list) and len(w) == 2 and builtins.all(isinstance(x, int) for x in w):
        w = tuple(w)
    if mode != "constant":
        r = _np.pad(a.raw(), w, mode=mode)
    else:
        r = _np.pad(a.raw(), w, mode="constant", constant_values=None)
        r = wrap(r, a._vd)
        o = r.raw()
        for i in _np.ndindex(o.shape):
            if o[i] is None:
                o[i] = cast_el(constant_values, a._vd)
        return r
    return wrap(r, a._vd)


def fill_diagonal(a, v, wrap=False):
    for i in range(builtins.min(a.shape)):
        a[(i,) * a.ndim] = v


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(_np.finfo(f64).max)

    def f(x):
        if isnan_e(x):
            return float(nan)
        if isinf_e(x):
            return (big if posinf is None else float(posinf)) if x > 0 else (-big if neginf is None else float(neginf))
        return x
    if is_sym(a) or not isinstance(a, (_np.ndarray, list, tuple)):
        return f(pyel(a))
    a = asarray(a)
    out = _np.empty(a.shape, dtype=object)
    r = obj(a)
    for i in _np.ndindex(a.shape):
        out[i] = f(r[i])
    res = wrap(out, a.dtype)
    if not copy:
        a[...] = res
        return a
    return res


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = asarray(a)
    l = obj(a).reshape(-1).tolist()
    idx = _argsort_l(l)
    vals, first, cnt = [], [], []
    inv = [0] * len(l)
    for i in idx:
        if not vals or bool(l[i] != vals[-1]):
            vals.append(l[i])
            first.append(i)
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(vals) - 1
    r = [make(vals, (len(vals),), a.dtype)]
    if return_index:
        r.append(make(first, (len(first),), i64))
    if return_inverse:
        r.append(make(inv, (len(inv),), i64))
    if return_counts:
        r.append(make(cnt, (len(cnt),), i64))
    return r[0] if len(r) == 1 else tuple(r)


def bincount(a, weights=None, minlength=0):
    l = [int(x) for x in obj(asarray(a)).reshape(-1)]
    n = builtins.max([minlength] + [x + 1 for x in l])
    r = [0] * n
    for x in l:
        r[x] += 1
    return make(r, (n,), i64)


def median(a, axis=None, **k):
    def f(l):
        s = [l[i] for i in _argsort_l(l)]
        n = len(s)
        return s[n // 2] if n % 2 else e_div(s[n // 2 - 1] + s[n // 2], 2)
    a = asarray(a)
    return reduce(a, axis, k.get("keepdims", False), f, _fdt(a))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = elementwise("absolute", elementwise("subtract", _sc(a), _sc(b)))
    t = elementwise("add", atol, elementwise("multiply", rtol, elementwise("absolute", _sc(b))))
    return elementwise("less_equal", d, t)


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(elementwise("equal", a, b))


def equal(a, b):
    return elementwise("equal", a, b)


def take(a, idx, axis=None, **k):
    a = asarray(a)
    if axis is None:
        return a.reshape(-1)[asarray(idx)] if not isinstance(idx, (int, SymInt)) else a.reshape(-1)[idx]
    return a[(slice(None),) * _norm_axis(axis, a.ndim) + (asarray(idx) if isinstance(idx, (list, tuple, _np.ndarray)) else idx,)]


def take_along_axis(a, idx, axis):
    a = asarray(a)
    return wrap(_np.take_along_axis(obj(a), fixidx1(asarray(idx)), axis), a.dtype)


def delete(a, idx, axis=None):
    a = asarray(a)
    return wrap(_np.delete(obj(a), fixidx1(idx), axis), a.dtype)


def isin(a, b, **k):
    a = asarray(a)
    bl = obj(asarray(list(b) if isinstance(b, (set, frozenset)) else b)).reshape(-1).tolist()
    out = _np.empty(a.shape, dtype=object)
    r = obj(a)
    for i in _np.ndindex(a.shape):
        out[i] = _any_l([r[i] == y for y in bl])
    return wrap(out, b1)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = asarray(a), asarray(weights)
    return sum_(a * w, axis) / sum_(w, axis)


def percentile(a, q, **k):
    raise Unsupported("np.percentile")


def _mk_fill(v):
    def g(shape, dtype=None, order="C", **k):
        sh = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
        vd = todt(dtype)
        o = _np.empty(sh, dtype=object)
        c = cast_el(v, vd) if vd.kind in "fiub" else v
        for i in _np.ndindex(sh):
            o[i] = c
        return wrap(o, vd)
    return g


zeros, ones = _mk_fill(0), _mk_fill(1)
empty = _mk_fill(0)


def full(shape, fill_value, dtype=None, **k):
    vd = todt(dtype) if dtype is not None else (vdof(fill_value) if isinstance(vdof(fill_value), _np.dtype) else guess_dtype([pyel(fill_value)]))
    r = zeros(shape, dtype=vd)
    r[...] = fill_value
    return r


def zeros_like(a, dtype=None, **k): return zeros(asarray(a).shape, dtype=dtype or asarray(a).dtype)
def ones_like(a, dtype=None, **k): return ones(asarray(a).shape, dtype=dtype or asarray(a).dtype)
def empty_like(a, dtype=None, **k): return zeros(asarray(a).shape, dtype=dtype or asarray(a).dtype)
def full_like(a, v, dtype=None, **k): return full(asarray(a).shape, v, dtype=dtype or asarray(a).dtype)


def arange(*a, dtype=None, **k):
    a = [int(x) if isinstance(x, SymInt) else x for x in a]
    r = _np.arange(*a, dtype=todt(dtype) if dtype is not None else None)
    return array(r)


def eye(n, m=None, k=0, dtype=None):
    return array(_np.eye(int(n), m, k, dtype=todt(dtype)))


def linspace(*a, **k):
    return array(_np.linspace(*[float(x) for x in a[:2]], *a[2:], **k))


def isscalar(x):
    return is_sym(x) or _np.isscalar(x)


def shape_(a): return asarray(a).shape
def size_(a, axis=None): return asarray(a).size if axis is None else asarray(a).shape[axis]
def ndim_(a): return asarray(a).ndim if isinstance(a, (list, tuple, _np.ndarray)) else 0


def atleast_2d(a):
    a = asarray(a)
    return a if a.ndim >= 2 else a.reshape(1, -1)


def atleast_1d(a):
    a = asarray(a) if not is_sym(a) else make([a], (1,), f64)
    return a if a.ndim >= 1 else a.reshape(1)


class linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarray(x)
        if x.dtype.kind in "iub":
            x = array(x).astype(f64)
        if axis is None and x.ndim > 2:
            x = x.reshape(-1)
        if ord is None or ord == 2 or ord == "fro":
            if axis is None and x.ndim == 2 and ord == 2:
                raise Unsupported("spectral norm")
            if axis is None:
                x = x.reshape(-1) if not keepdims else x
            return reduce(x, axis, keepdims, lambda l: e_sqrt(_f_sum([num(t) * num(t) for t in l])), _fdt(x))
        if ord == 1:
            return reduce(x, axis, keepdims, lambda l: _f_sum([e_abs(t) for t in l]), _fdt(x))
        if ord == math.inf:
            return reduce(x, axis, keepdims, lambda l: _mm(e_max, "max")([e_abs(t) for t in l]), _fdt(x))
        if ord == 0:
            return count_nonzero(x, axis)
        raise Unsupported("norm ord %r" % (ord,))

    @staticmethod
    def svd(*a, **k):
        raise Unsupported("svd")

    @staticmethod
    def eigh(*a, **k):
        raise Unsupported("eigh")


def fallback(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    def c(x):
        if isinstance(x, SArr):
            if builtins.any(is_sym(y) and not (isinstance(y, SymReal) and y.const() is not None) for y in x.raw().reshape(-1)):
                raise Unsupported("np.%s on a symbolic array" % name)
            return _np.array(x.tolist(), dtype=x._vd).reshape(x.shape)
        if isinstance(x, (list, tuple)):
            return type(x)(c(y) for y in x)
        if is_sym(x):
            raise Unsupported("np.%s on a symbolic value" % name)
        return x
    r = func(*[c(a) for a in args], **{k: c(v) for k, v in kwargs.items()})
    return conv(r)


def conv(r):
    if isinstance(r, tuple):
        return tuple(conv(x) for x in r)
    if type(r) is _np.ndarray and r.dtype.kind in "fiub":
        return array(r)
    return r


TABLE = {
    "array": array, "asarray": asarray, "ascontiguousarray": asarray, "asanyarray": asarray, "copy": lambda a, **k: array(a),
    "sum": sum_, "nansum": sum_, "mean": mean, "std": std, "var": var, "min": min_, "amin": min_, "max": max_, "amax": max_,
    "prod": prod, "all": all_, "any": any_, "argsort": argsort, "argpartition": argpartition, "partition": partition,
    "sort": sort, "lexsort": lexsort, "argmin": argmin, "argmax": argmax, "cumsum": cumsum, "diff": diff, "dot": dot,
    "matmul": matmul, "inner": inner, "outer": outer, "vdot": dot, "einsum": einsum, "clip": clip, "where": where,
    "nonzero": nonzero, "flatnonzero": flatnonzero, "argwhere": argwhere, "count_nonzero": count_nonzero,
    "around": around, "round": around, "concatenate": concatenate, "stack": stack, "vstack": vstack, "hstack": hstack,
    "column_stack": column_stack, "append": append, "pad": pad, "fill_diagonal": fill_diagonal, "nan_to_num": nan_to_num,
    "unique": unique, "bincount": bincount, "median": median, "allclose": allclose, "isclose": isclose,
    "array_equal": array_equal, "take": take, "take_along_axis": take_along_axis, "delete": delete, "isin": isin,
    "in1d": isin, "average": average, "percentile": percentile, "quantile": percentile, "zeros": zeros, "ones": ones,
    "empty": empty, "full": full, "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like,
    "full_like": full_like, "arange": arange, "eye": eye, "identity": eye, "linspace": linspace, "isscalar": isscalar,
    "shape": shape_, "size": size_, "ndim": ndim_, "atleast_2d": atleast_2d, "atleast_1d": atleast_1d,
    "reshape": shapemap("reshape"), "transpose": shapemap("transpose"), "squeeze": shapemap("squeeze"),
    "ravel": lambda a, **k: asarray(a).reshape(-1), "expand_dims": shapemap("expand_dims"), "tile": shapemap("tile"),
    "repeat": shapemap("repeat"), "flip": shapemap("flip"), "roll": shapemap("roll"), "triu": shapemap("triu"),
    "tril": shapemap("tril"), "diag": shapemap("diag"), "diagonal": shapemap("diagonal"),
    "broadcast_to": shapemap("broadcast_to"), "swapaxes": shapemap("swapaxes"), "moveaxis": shapemap("moveaxis"),
    "array_split": lambda a, n, axis=0: [wrap(x, asarray(a).dtype) for x in _np.array_split(obj(asarray(a)), n, axis)],
    "split": lambda a, n, axis=0: [wrap(x, asarray(a).dtype) for x in _np.split(obj(asarray(a)), n, axis)],
    "isfinite": None,
}
del TABLE["isfinite"]


def make_ufunc(name):
    def g(*a, out=None, where=True, **k):
        if a and len(a) == 1 and is_sym(a[0]):
            pass
        r = elementwise(name, *a)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if where is not True:
                w = fixidx1(asarray(where))
                w = _np.broadcast_to(w, o.shape)
                rr = obj(r)
                rr = _np.broadcast_to(rr, o.shape)
                for i in _np.ndindex(o.shape):
                    if w[i]:
                        o[i] = rr[i]
                return o
            o[...] = r
            return o
        return r
    g.__name__ = name
    g.reduce = lambda a, axis=0, **k: {"add": sum_, "maximum": max_, "minimum": min_, "logical_and": all_,
                                       "logical_or": any_, "multiply": prod}[name](a, axis, **k)
    return g


UF = {n: make_ufunc(n) for n in EL}


class NpShim:
    """what instrumented code sees as `numpy`"""

    def __init__(self, fs=None, random=None):
        self._fs = fs
        self.linalg = linalg
        self.random = random
        self.__name__ = "numpy"

    def __getattr__(self, name):
        if name in TABLE:
            return TABLE[name]
        if name in UF:
            return UF[name]
        if name in ("save", "load", "savez", "savez_compressed"):
            fs = object.__getattribute__(self, "_fs")
            if fs is None:
                raise Unsupported("np.%s without a file system" % name)
            return getattr(fs, "np_" + name)
        r = getattr(_np, name)
        if callable(r) and not isinstance(r, type) and name not in ("errstate", "dtype", "iinfo", "finfo", "ndindex", "result_type", "issubdtype"):
            def g(*a, **k):
                return fallback(r, a, k)
            return g
        return r
