"""Symbolic values and the path explorer.

Numbers are exact: SymInt is a z3 Int term, SymReal is a rational function over
"atoms" (input variables, square roots, absolute values, roundings ...), kept in
a canonical polynomial form so that differently written but equal formulas meet.
For z3 every non-linear monomial / quotient gets an abstraction variable with
cheap linear lemmas; its defining (non-linear) equation is only added when an
assertion is not already discharged by the linear abstraction.  Exploring paths
with the abstraction over-approximates feasibility (sound); a counterexample is
only accepted once the full non-linear query has a model.
"""
import math
import time
from fractions import Fraction

try:
    import z3
except ImportError:         # replay interpreter
    z3 = None


class EngineSignal(BaseException):
    """Path steering; BaseException so that `except Exception` in the code under
    test does not swallow it."""


class PathEnd(EngineSignal):
    pass


class Infeasible(PathEnd):
    pass


class Unsupported(EngineSignal):
    """The encoding cannot follow the code here (recorded, replayed concretely)."""


class StopHarness(PathEnd):
    pass


CTX = None          # current context (symbolic or concrete)


def cur():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------
# atoms / polynomials
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "z", "sq", "lin_defs", "lazy_defs", "deps", "name")

    def __init__(self, i, z, name, sq=None, lin_defs=(), lazy_defs=(), deps=()):
        self.id = i
        self.z = z
        self.name = name
        self.sq = sq                # Poly: self^2 rewrites to this
        self.lin_defs = list(lin_defs)
        self.lazy_defs = list(lazy_defs)
        self.deps = list(deps)


ONE = ()                            # the empty monomial


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE: c} if c else {})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, Fraction(0))

    def add(self, o, sgn=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + sgn * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if c == 0:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)


def mono_mul(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


class Num:
    """Per-context arithmetic store: atoms, abstraction variables, lemmas."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.atoms = {}
        self.next = 0
        self.mono_var = {}          # monomial -> z3 var
        self.rf_var = {}            # key -> z3 var
        self.sqrt_memo = {}
        self.abs_memo = {}
        self.int_atoms = {}
        self.zatom = {}
        self.lazy = []              # (z3 def) non-linear definitions, in order
        self.round_memo = {}

    # ---- atoms
    def atom(self, z, name, sq=None):
        a = Atom(self.next, z, name, sq)
        self.atoms[a.id] = a
        self.next += 1
        return a

    def atom_poly(self, a):
        return Poly({((a.id, 1),): Fraction(1)})

    def from_z3real(self, z, name="e"):
        k = z.get_id()
        if k in self.zatom:
            return self.atom_poly(self.zatom[k][0])
        a = self.atom(z, name)
        self.zatom[k] = (a, z)
        return self.atom_poly(a)

    def from_int(self, zi):
        if z3.is_int_value(zi):
            return Poly.const(zi.as_long())
        k = zi.get_id()
        if k in self.int_atoms:
            return self.atom_poly(self.int_atoms[k][0])
        a = self.atom(z3.ToReal(zi), "int")
        self.int_atoms[k] = (a, zi)
        return self.atom_poly(a)

    # ---- polynomial product with sq-rewriting
    def mul(self, p, q):
        t = {}
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                m = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return self.reduce(Poly(t))

    def reduce(self, p):
        for m in p.t:
            for i, e in m:
                if e >= 2 and self.atoms[i].sq is not None:
                    rest = tuple((j, f) for j, f in m if j != i)
                    base = dict(p.t)
                    c = base.pop(m)
                    half, odd = divmod(e, 2)
                    r = Poly({rest: c})
                    if odd:
                        r = Poly({mono_mul(rest, ((i, 1),)): c})
                    for _ in range(half):
                        r = self.mul(r, self.atoms[i].sq)
                    return self.reduce(Poly(base).add(r))
        return p

    # ---- z3 terms
    def mono_z(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atoms[m[0][0]].z
        v = self.mono_var.get(m)
        if v is None:
            v = z3.Real("m!%d" % len(self.mono_var))
            self.mono_var[m] = v
            prod = None
            for i, e in m:
                for _ in range(e):
                    prod = self.atoms[i].z if prod is None else prod * self.atoms[i].z
            self.lazy.append(v == prod)
            zs = [self.atoms[i].z for i, e in m]
            if all(e % 2 == 0 for _, e in m):
                self.ctx.lemma(v >= 0)
            # product sign / zero lemmas
            self.ctx.lemma((v == 0) == z3.Or([z == 0 for z in zs]))
            odd = [self.atoms[i].z for i, e in m if e % 2]
            if len(odd) == 1:
                self.ctx.lemma(z3.Implies(odd[0] >= 0, v >= 0))
                self.ctx.lemma(z3.Implies(odd[0] <= 0, v <= 0))
            elif len(odd) == 2:
                a, b = odd
                self.ctx.lemma((v > 0) == z3.And(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)),
                                                 *[z != 0 for z in zs]))
        return v

    def poly_z(self, p):
        if p.is_const():
            return z3.RealVal(p.cval())
        terms = []
        for m, c in sorted(p.t.items()):
            if m == ONE:
                terms.append(z3.RealVal(c))
            elif c == 1:
                terms.append(self.mono_z(m))
            else:
                terms.append(z3.RealVal(c) * self.mono_z(m))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def rf_z(self, n, d):
        if d.is_const():
            return self.poly_z(n if d.cval() == 1 else n.scale(1 / d.cval()))
        k = (n.key(), d.key())
        v = self.rf_var.get(k)
        if v is None:
            v = z3.Real("q!%d" % len(self.rf_var))
            self.rf_var[k] = v
            nz, dz = self.poly_z(n), self.poly_z(d)
            self.lazy.append(v * dz == nz)
            self.ctx.lemma(z3.Implies(dz > 0, z3.And((v > 0) == (nz > 0), (v == 0) == (nz == 0))))
            self.ctx.lemma(z3.Implies(dz < 0, z3.And((v > 0) == (nz < 0), (v == 0) == (nz == 0))))
        return v

    # ---- canonical quotient
    def quot(self, n, d):
        """n/d with common monomial factors removed and d's leading coeff 1."""
        if not n.t:
            return Poly({}), Poly.const(1)
        if d.is_const():
            return n.scale(1 / d.cval()), Poly.const(1)
        ms = list(n.t) + list(d.t)
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {i: min(e, dm.get(i, 0)) for i, e in common.items() if dm.get(i, 0)}
            if not common:
                break
        if common:
            def red(m):
                dm = dict(m)
                for i, e in common.items():
                    dm[i] -= e
                return tuple(sorted((i, e) for i, e in dm.items() if e))
            n = Poly({red(m): c for m, c in n.t.items()})
            d = Poly({red(m): c for m, c in d.t.items()})
            if d.is_const():
                return n.scale(1 / d.cval()), Poly.const(1)
        lead = d.t[max(d.t)]
        n, d = n.scale(1 / lead), d.scale(1 / lead)
        # d divides n exactly up to a constant?
        if len(n.t) == len(d.t) and set(n.t) == set(d.t):
            r = None
            for m in d.t:
                q = n.t[m] / d.t[m]
                if r is None:
                    r = q
                elif r != q:
                    r = None
                    break
            else:
                return Poly.const(r), Poly.const(1)
        return n, d

    # ---- sqrt / abs
    def linear_root(self, p):
        """p == L^2 for a linear form L? return L."""
        if p.degree() != 2:
            return None
        coef = {}
        for m, c in p.t.items():
            if m == ONE:
                coef[None] = c
            elif len(m) == 1 and m[0][1] == 2:
                coef[m[0][0]] = c
        roots = {}
        for i, c in coef.items():
            if c < 0:
                return None
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r != c:
                return None
            roots[i] = r
        if not roots:
            return None
        ids = sorted((k for k in roots), key=lambda x: -1 if x is None else x)
        first = ids[0]

        def cross(i, j):
            if i is None:
                return p.t.get(((j, 1),), Fraction(0))
            return p.t.get(tuple(sorted(((i, 1), (j, 1)))), Fraction(0))
        sign = {first: 1}
        for j in ids[1:]:
            c = cross(first, j)
            if c == 0:
                return None
            sign[j] = 1 if c > 0 else -1
        t = {}
        for i in ids:
            v = roots[i] * sign[i]
            t[ONE if i is None else ((i, 1),)] = v
        L = Poly({m: c for m, c in t.items() if c})
        if self.mul(L, L).key() == p.key():
            return L
        return None

    def sqrt(self, n, d):
        """sqrt of a rational function known to be >= 0 on this path."""
        if n.is_const() and d.is_const():
            c = n.cval() / d.cval()
            if c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return Poly.const(Fraction(a, b)), Poly.const(1)
        if d.is_const():
            if d.cval() != 1:
                n, d = n.scale(1 / d.cval()), Poly.const(1)
            L = self.linear_root(n)
            if L is not None:
                return self.absval(L, Poly.const(1))
        k = (n.key(), d.key())
        a = self.sqrt_memo.get(k)
        if a is None:
            z = z3.Real("s!%d" % len(self.sqrt_memo))
            a = self.atom(z, "sqrt", sq=n if d.is_const() else None)
            self.sqrt_memo[k] = a
            rz = self.rf_z(n, d)
            self.ctx.lemma(z >= 0)
            self.ctx.lemma(z3.Implies(rz >= 0, (z == 0) == (rz == 0)))
            self.ctx.lemma(z3.Implies(rz >= 0, (z > 1) == (rz > 1)))
            self.ctx.lemma(z3.Implies(rz >= 0, (z == 1) == (rz == 1)))
            self.lazy.append(z3.Implies(rz >= 0, z * z == rz))
        return self.atom_poly(a), Poly.const(1)

    def absval(self, n, d):
        if n.is_const() and d.is_const():
            return Poly.const(abs(n.cval() / d.cval())), Poly.const(1)
        # |-x| and |x| share an atom
        if n.t and n.t[max(n.t)] < 0:
            n = n.scale(-1)
        k = (n.key(), d.key())
        a = self.abs_memo.get(k)
        if a is None:
            z = z3.Real("a!%d" % len(self.abs_memo))
            sq = self.mul(n, n) if d.is_const() else None
            a = self.atom(z, "abs", sq=sq)
            self.abs_memo[k] = a
            x = self.rf_z(n, d)
            self.ctx.lemma(z == z3.If(x >= 0, x, -x))
        return self.atom_poly(a), Poly.const(1)

    def extreme(self, xs, least):
        """min or max of several values as one new value, without a fork"""
        k = (least, tuple(sorted((x.n.key(), x.d.key()) for x in xs)))
        memo = self.__dict__.setdefault("ext_memo", {})
        a = memo.get(k)
        if a is None:
            z = z3.Real("m!%d" % len(memo))
            a = memo[k] = self.atom(z, "ext")
            zs = [x.z for x in xs]
            e = zs[0]
            for y in zs[1:]:
                e = z3.If(y < e if least else y > e, y, e)
            self.ctx.lemma(z == e)
            self.ctx.lemma(z3.And([z <= y if least else z >= y for y in zs]))
        return SymReal(self.atom_poly(a), Poly.const(1))


def extreme(l, least):
    """-> non-forking min/max of a list of numbers if the scenario asks for it, else None"""
    c = CTX
    if not hasattr(c, "num") or c.opts.get("minmax") != "aux" or len(l) < 2 or not any(is_sym(x) for x in l):
        return None
    xs = [SymReal.lift(x) if not isinstance(x, float) or x == x and abs(x) != math.inf else None for x in l]
    if not all(isinstance(x, SymReal) for x in xs):
        return None
    return c.num.extreme(xs, least)


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------
class Sym:
    __slots__ = ()
    __array_ufunc__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def to_z3bool(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, to_z3bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, to_z3bool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, to_z3bool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z == to_z3bool(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z != to_z3bool(o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    # arithmetic on truth values decides them
    def __add__(self, o): return int(self) + o
    __radd__ = __add__
    def __sub__(self, o): return int(self) - o
    def __rsub__(self, o): return o - int(self)
    def __mul__(self, o): return int(self) * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return "<symbool>"


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def is_intlike(x):
    return isinstance(x, (int, SymInt)) or (hasattr(x, "dtype") and getattr(x.dtype, "kind", "") in "iub" and getattr(x, "ndim", 1) == 0)


class SymInt(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x.z
        return z3.IntVal(int(x))

    def _mk(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SymInt(z)

    def _bin(self, o, f, rev=False):
        if isinstance(o, SymReal) or isinstance(o, Fraction):
            return NotImplemented
        if isinstance(o, float) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0 and o.dtype.kind == "f"):
            r = self.to_real()
            o = float(o)
            return getattr(r, f)(o)
        if not is_intlike(o):
            return NotImplemented
        a, b = self.z, SymInt.of(o)
        if f == "__add__":
            return self._mk(a + b)
        if f == "__sub__":
            return self._mk(a - b)
        if f == "__rsub__":
            return self._mk(b - a)
        if f == "__mul__":
            return self._mk(a * b)
        return NotImplemented

    def to_real(self):
        n = CTX.num.from_int(self.z)
        return SymReal(n, Poly.const(1))

    def __add__(self, o): return self._bin(o, "__add__")
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, "__sub__")
    def __rsub__(self, o): return self._bin(o, "__rsub__")
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, "__mul__")
    __rmul__ = __mul__
    def __neg__(self): return self._mk(-self.z)
    def __pos__(self): return self
    def __abs__(self): return self._mk(z3.If(self.z >= 0, self.z, -self.z))

    def _divmod(self, a, b):
        # python floor semantics
        if z3.is_int_value(b):
            bv = b.as_long()
            if bv == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if bv > 0:
                return a / b, a % b
            q = (-a) / z3.IntVal(-bv)
            return q, a - q * b
        if CTX.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if CTX.branch(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._mk(self._divmod(self.z, SymInt.of(o))[0])

    def __rfloordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._mk(self._divmod(SymInt.of(o), self.z)[0])

    def __mod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._mk(self._divmod(self.z, SymInt.of(o))[1])

    def __rmod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._mk(self._divmod(SymInt.of(o), self.z)[1])

    def __divmod__(self, o):
        q, r = self._divmod(self.z, SymInt.of(o))
        return self._mk(q), self._mk(r)

    def __truediv__(self, o):
        if isinstance(o, (int, SymInt)) and not is_sym(o) and o == 0:
            raise ZeroDivisionError("division by zero")
        if isinstance(o, SymInt) and CTX.branch(o.z == 0):
            raise ZeroDivisionError("division by zero")
        return self.to_real() / (o.to_real() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        if CTX.branch(self.z == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal.lift(o) / self.to_real()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** (o.__index__() if isinstance(o, SymInt) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o): return self.__index__() << int(o)
    def __rlshift__(self, o): return o << self.__index__()
    def __rshift__(self, o): return self.__index__() >> int(o)
    def __and__(self, o): return self.__index__() & int(o)
    __rand__ = __and__

    def _cmp(self, o, op):
        if isinstance(o, SymReal):
            return NotImplemented
        if isinstance(o, float) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0 and o.dtype.kind == "f"):
            return getattr(self.to_real(), op)(o)
        if not is_intlike(o):
            return NotImplemented
        a, b = self.z, SymInt.of(o)
        z = {"__lt__": a < b, "__le__": a <= b, "__gt__": a > b, "__ge__": a >= b,
             "__eq__": a == b, "__ne__": a != b}[op]
        return mkbool(z)

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")
    def __eq__(self, o): return self._cmp(o, "__eq__")
    def __ne__(self, o): return self._cmp(o, "__ne__")

    def __hash__(self): return hash(self.__index__())
    def __bool__(self): return CTX.branch(self.z != 0)
    def __index__(self): return CTX.concretize_int(self.z)
    def __int__(self): return self.__index__()
    def __float__(self): return float(self.__index__())
    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __str__(self): return str(self.__index__())
    def __repr__(self): return str(self.__index__())
    def __format__(self, s): return format(self.__index__(), s)
    def is_integer(self): return True
    def rint(self): return self
    def sqrt(self): return self.to_real().sqrt()
    def item(self): return self
    def conjugate(self): return self


class SymReal(Sym):
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d

    @property
    def z(self):
        return CTX.num.rf_z(self.n, self.d)

    @staticmethod
    def lift(x):
        """-> SymReal, or a python float for nan/inf."""
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return x.to_real()
        if isinstance(x, SymBool):
            x = bool(x)
        if isinstance(x, Fraction):
            return SymReal(Poly.const(x), Poly.const(1))
        if isinstance(x, (int, bool)):
            return SymReal(Poly.const(int(x)), Poly.const(1))
        try:
            x = float(x)
        except TypeError:
            return None
        if math.isnan(x) or math.isinf(x):
            return x
        return SymReal(Poly.const(snap(x)), Poly.const(1))

    def _mk(self, n, d):
        if n.is_const() and d.is_const():
            return SymReal(Poly.const(n.cval() / d.cval()), Poly.const(1))
        return SymReal(n, d)

    def const(self):
        if self.n.is_const() and self.d.is_const():
            return self.n.cval() / self.d.cval()
        return None

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float, Fraction, Sym)) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0)

    def _add(self, o, sgn, rev=False):
        if not SymReal._ok(o):
            return NotImplemented
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if (sgn > 0 or rev) else -o
        N = CTX.num
        a, b = (o, self) if rev else (self, o)
        if a.d.key() == b.d.key():
            n, d = a.n.add(b.n, sgn), a.d
        else:
            n = N.mul(a.n, b.d).add(N.mul(b.n, a.d), sgn)
            d = N.mul(a.d, b.d)
        n, d = N.quot(n, d)
        return self._mk(n, d)

    def __add__(self, o): return self._add(o, 1)
    def __radd__(self, o): return self._add(o, 1)
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return self._add(o, -1, True)
    def __neg__(self): return SymReal(self.n.scale(-1), self.d)
    def __pos__(self): return self

    def __mul__(self, o):
        if not SymReal._ok(o):
            return NotImplemented
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return o
            s = self.sign()
            return float("nan") if s == 0 else o * s
        N = CTX.num
        n, d = N.quot(N.mul(self.n, o.n), N.mul(self.d, o.d))
        return self._mk(n, d)
    __rmul__ = __mul__

    def sign(self):
        """forks"""
        if bool(self > 0):
            return 1
        if bool(self == 0):
            return 0
        return -1

    @staticmethod
    def _div(a, b):
        if isinstance(b, float):            # nan / inf
            if math.isnan(b) or isinstance(a, float):
                return float("nan")
            return 0.0
        if isinstance(a, float):
            if math.isnan(a):
                return a
            s = b.sign()
            return a if s >= 0 else -a
        c = b.const()
        if c is not None:
            zero = c == 0
        else:
            zero = bool(b == 0)
        if zero:
            s = a.sign()
            return float("nan") if s == 0 else s * float("inf")
        N = CTX.num
        n, d = N.quot(N.mul(a.n, b.d), N.mul(a.d, b.n))
        return a._mk(n, d)

    def __truediv__(self, o):
        if not SymReal._ok(o):
            return NotImplemented
        return SymReal._div(self, SymReal.lift(o))

    def __rtruediv__(self, o):
        if not SymReal._ok(o):
            return NotImplemented
        return SymReal._div(SymReal.lift(o), self)

    def __floordiv__(self, o):
        r = self / o
        return r.floor() if isinstance(r, SymReal) else r

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __pow__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, SymReal):
            o = o.const()
            if o is None:
                raise Unsupported("symbolic exponent")
        o = Fraction(o) if not isinstance(o, Fraction) else o
        if o == Fraction(1, 2):
            return self.sqrt()
        if o.denominator == 1:
            k = int(o)
            if k >= 0:
                r = SymReal.lift(1)
                for _ in range(k):
                    r = r * self
                return r
            return SymReal.lift(1) / (self ** (-k))
        raise Unsupported("fractional power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        n, d = CTX.num.absval(self.n, self.d)
        return self._mk(n, d)

    def fabs(self): return abs(self)
    def absolute(self): return abs(self)
    def square(self): return self * self
    def conjugate(self): return self
    def item(self): return self
    @property
    def real(self): return self

    def sqrt(self):
        c = self.const()
        if c is not None and c < 0:
            return float("nan")
        if c is None and bool(self < 0):
            return float("nan")
        n, d = CTX.num.sqrt(self.n, self.d)
        return self._mk(n, d)

    def _round(self, kind):
        c = self.const()
        if c is not None:
            v = {"rint": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[kind](c)
            return SymReal.lift(int(v))
        key = (kind, self.n.key(), self.d.key())
        N = CTX.num
        r = N.round_memo.get(key)
        if r is None:
            x = self.z
            i = CTX.fresh_int_raw("r")
            f = z3.ToReal(i)
            if kind == "rint":
                h = z3.Q(1, 2)
                c = z3.Or(z3.And(x - f < h, f - x < h),
                          z3.And(z3.Or(x - f == h, f - x == h), i % 2 == 0))
            elif kind == "floor":
                c = z3.And(f <= x, x < f + 1)
            elif kind == "ceil":
                c = z3.And(f >= x, x > f - 1)
            else:
                c = z3.If(x >= 0, z3.And(f <= x, x < f + 1), z3.And(f >= x, x > f - 1))
            CTX.lemma(c)
            r = SymInt(i)
            N.round_memo[key] = r
        return r

    def rint(self):
        r = self._round("rint")
        return r if isinstance(r, SymReal) else r.to_real()

    def floor(self):
        r = self._round("floor")
        return r if isinstance(r, SymReal) else r.to_real()

    def ceil(self):
        r = self._round("ceil")
        return r if isinstance(r, SymReal) else r.to_real()

    def trunc_int(self):
        c = self.const()
        if c is not None:
            return int(c)
        return self._round("trunc")

    def __floor__(self):
        c = self.const()
        return math.floor(c) if c is not None else self._round("floor")

    def __ceil__(self):
        c = self.const()
        return math.ceil(c) if c is not None else self._round("ceil")

    def __round__(self, n=None):
        if n in (None,):
            c = self.const()
            return round(c) if c is not None else self._round("rint")
        raise Unsupported("round to digits")

    def __trunc__(self):
        raise Unsupported("int() of a symbolic real")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        r = self._round("trunc")
        return int(r)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic real at a C boundary")

    def __bool__(self):
        return bool(self != 0)

    def _cmp(self, o, op):
        if not SymReal._ok(o):
            return NotImplemented
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return op == "__ne__"
            pos = o > 0
            return {"__lt__": pos, "__le__": pos, "__gt__": not pos, "__ge__": not pos,
                    "__eq__": False, "__ne__": True}[op]
        if self.n.key() == o.n.key() and self.d.key() == o.d.key():
            return op in ("__le__", "__ge__", "__eq__")
        if self.d.is_const() and self.d.key() == o.d.key():
            df = self.n.add(o.n, -1)
            if df.is_const():
                df = df.cval() / self.d.cval()
                return {"__lt__": df < 0, "__le__": df <= 0, "__gt__": df > 0, "__ge__": df >= 0,
                        "__eq__": df == 0, "__ne__": df != 0}[op]
        a, b = self.const(), o.const()
        if a is not None and b is not None:
            return {"__lt__": a < b, "__le__": a <= b, "__gt__": a > b, "__ge__": a >= b,
                    "__eq__": a == b, "__ne__": a != b}[op]
        x, y = self.z, o.z
        return mkbool({"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y,
                       "__eq__": x == y, "__ne__": x != y}[op])

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")
    def __eq__(self, o): return self._cmp(o, "__eq__")
    def __ne__(self, o): return self._cmp(o, "__ne__")
    def __hash__(self): raise Unsupported("hash of a symbolic real")
    def __repr__(self): return "<symreal>"
    def __str__(self): return "<symreal>"
    def __format__(self, s): return "<symreal>"
    def is_integer(self): return mkbool(z3.IsInt(self.z))
    def astype(self, dt): return self


_SNAP = {}


def snap(x):
    """Float constant -> rational.  Decimal literals are read as the decimal they
    were written as (0.1 -> 1/10): floats are modelled as reals throughout."""
    r = _SNAP.get(x)
    if r is None:
        r = Fraction(repr(x)) if abs(x) < 1e300 else Fraction(x)
        _SNAP[x] = r
    return r


# --------------------------------------------------------------------------
# context: one path
# --------------------------------------------------------------------------
class Violation(PathEnd):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label = label
        self.detail = detail


class SymCtx:
    symbolic = True

    def __init__(self, prefix, params, stats, opts):
        self.prefix = list(prefix)
        self.decisions = []
        self.params = params
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.model = None
        self.num = Num(self)
        self.inputs = []            # (name, kind, z3 term or concrete)
        self.names = {}
        self.pc = []
        self.alternatives = []      # pending sibling prefixes
        self.obs = []
        self.labels = {}
        self.fresh_n = 0
        self.inconclusive = []
        self.notes = []
        self.steps = 0
        self.deadline = None
        self.cleanups = []

    # ---- solver
    def lemma(self, z):
        self.solver.add(z)
        self.model = None if not self._model_ok(z) else self.model

    def _model_ok(self, z):
        if self.model is None:
            return False
        return z3.is_true(self.model.eval(z, model_completion=True))

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)
        if not self._model_ok(z):
            self.model = None

    def check(self, *extra):
        t = time.time()
        self.stats["queries"] += 1
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self.model = self.solver.model()
        return self.model

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.z)
            if self.model is None:
                r = self.check()
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.sat:
                    self.model = self.solver.model()
        elif not cond:
            raise Infeasible()

    # ---- branching
    def _decide(self, d):
        self.decisions.append(d)

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        self.steps += 1
        if self.steps > self.opts.get("max_steps", 4000):
            raise Unsupported("too many symbolic branches on one path")
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            if kind != "b":
                raise RuntimeError("nondeterministic replay of decisions: %r" % (self.prefix[i],))
            self._decide(("b", val))
            self.add(z if val else z3.Not(z))
            return val
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit inside a path")
        m = self.ensure_model()
        if m is not None:
            side = z3.is_true(m.eval(z, model_completion=True))
            other = z3.Not(z) if side else z
            r = self.check(other)
            feas_other = r != z3.unsat
        else:
            r1 = self.check(z)
            r2 = self.check(z3.Not(z))
            if r1 == z3.unsat and r2 == z3.unsat:
                raise Infeasible()
            side = r1 != z3.unsat
            feas_other = (r2 if side else r1) != z3.unsat
        self.stats["branches"] += 1
        if feas_other:
            self.alternatives.append(self.decisions + [("b", not side)])
            self._decide(("b", side))
            self.add(z if side else z3.Not(z))
        else:
            self._decide(("b", side))
            # implied: no need to strengthen the solver, but keep for the record
            self.add(z if side else z3.Not(z))
        return side

    def concretize_int(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            if kind == "v":
                self._decide(("v", val))
                self.add(z == val)
                return val
            if kind != "x":
                raise RuntimeError("nondeterministic replay of decisions")
            # val: excluded values so far
            self.prefix[i] = ("?", val)
            excl = list(val)
        else:
            excl = []
        for v in excl:
            self.add(z != v)
        m = self.ensure_model()
        if m is None:
            raise Unsupported("solver unknown while concretizing")
        v = m.eval(z, model_completion=True).as_long()
        self.stats["branches"] += 1
        if len(excl) > self.opts.get("max_concretize", 64):
            raise Unsupported("unbounded concretization")
        if self.check(z != v) != z3.unsat:
            self.alternatives.append(self.decisions + [("x", excl + [v])])
        # record the concrete value (exclusions are implied by ==)
        self._decide(("v", v))
        self.add(z == v)
        if i < len(self.prefix):
            self.prefix[i] = ("v", v)
        return v

    # ---- inputs
    def _name(self, n):
        if n in self.names:
            self.names[n] += 1
            return "%s#%d" % (n, self.names[n])
        self.names[n] = 0
        return n

    def fresh_int_raw(self, n):
        self.fresh_n += 1
        return z3.Int("%s!%d" % (n, self.fresh_n))

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        z = z3.Real(name)
        self.inputs.append((name, "real", z))
        if lo is not None:
            self.solver.add(z >= lo)
        if hi is not None:
            self.solver.add(z <= hi)
        if lo is not None or hi is not None:
            self.model = None
        a = self.num.atom(z, name)
        return SymReal(self.num.atom_poly(a), Poly.const(1))

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.inputs.append((name, "int", z3.IntVal(lo)))
            return lo
        z = z3.Int(name)
        self.inputs.append((name, "int", z))
        self.solver.add(z >= lo, z <= hi)
        self.model = None
        return SymInt(z)

    def bool(self, name):
        name = self._name(name)
        z = z3.Bool(name)
        self.inputs.append((name, "bool", z))
        return SymBool(z)

    def choice(self, name, options):
        """symbolic selector, forked immediately"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def flip(self, name):
        return bool(self.bool(name))

    def float(self, name, lo=None, hi=None, special=("nan", "inf", "-inf")):
        kinds = ["num"] + list(special)
        k = self.choice(name + ".kind", kinds)
        if k == "num":
            return self.real(name, lo, hi)
        return float(k)

    def str(self, name, length, alphabet=None):
        from .symstr import mk, add_universe
        name = self._name(name)
        n = int(length)
        cs = []
        for i in range(n):
            z = z3.Int("%s[%d]" % (name, i))
            cs.append(z)
            if isinstance(alphabet, str):
                cps = sorted(set(map(ord, alphabet)))
                self.solver.add(z3.Or([z == c for c in cps]))
                add_universe(cps)
            else:
                self.solver.add(z3.Or([z3.And(z >= a, z <= b) for a, b in alphabet]))
                for a, b in alphabet:
                    add_universe(range(a, b + 1))
        self.inputs.append((name, "str", cs))
        self.model = None
        return mk(cs)

    def vec(self, name, d, lo=None, hi=None, dtype="float64"):
        return self.np.array([self.real("%s.%d" % (name, i), lo, hi) for i in range(d)], dtype=dtype)

    def mat(self, name, n, d, lo=None, hi=None, dtype="float64"):
        from . import nparr
        rows = [[self.real("%s.%d.%d" % (name, i, j), lo, hi) for j in range(d)] for i in range(n)]
        return nparr.make(rows, (n, d), dtype)

    def perm(self, name, items):
        """arbitrary permutation"""
        items = list(items)
        out = []
        while items:
            i = int(self.int(name, 0, len(items) - 1))
            out.append(items.pop(i))
        return out

    # ---- assertions
    def check_that(self, cond, label, detail=""):
        """Assert cond (bool / SymBool) for every value reaching here."""
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats["asserts"] += 1
        if not isinstance(cond, SymBool):
            if cond:
                self.stats["trivial"] += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(cond.z)
        # validity under the linear abstraction
        r = self.check(neg)
        if r == z3.unsat:
            self.stats["discharged"] += 1
            if isinstance(cond, SymBool):
                self.add(cond.z)
            return
        m = self.full_model(neg)
        if m == "unsat":
            self.stats["discharged"] += 1
            self.stats["nra"] += 1
            if isinstance(cond, SymBool):
                self.add(cond.z)
            return
        if m is None:
            self.stats["undecided"] += 1
            self.inconclusive.append(label)
            if isinstance(cond, SymBool):
                self.assume(cond)
                return
            raise PathEnd()
        raise Violation(label, (detail, m))

    def full_model(self, *extra, timeout=None):
        """'unsat' | dict of inputs | None (unknown); includes non-linear definitions."""
        # abstraction may create new lemmas while building terms; solver has them all
        timeout = timeout or self.opts.get("nra_timeout", 8000)
        if not self.num.lazy:
            r = self.check(*extra)
            if r == z3.unsat:
                return "unsat"
            if r == z3.unknown:
                return None
            return self.extract(self.solver.model(), self.solver, extra)
        t0 = time.time()
        res = None
        for attempt in ("grid", "full"):
            s = z3.Solver()
            s.set("timeout", timeout // (4 if attempt == "grid" else 1))
            s.add(*self.solver.assertions())
            s.add(*self.num.lazy)
            s.add(*extra)
            if attempt == "grid":
                # small-integer instantiation first: quick, replayable models
                for name, kind, z in self.inputs:
                    if kind == "real":
                        s.add(z3.Or([z == v for v in (0, 1, -1, 2, -2, 3)]))
            self.stats["queries"] += 1
            r = s.check()
            if r == z3.sat:
                res = self.extract(s.model(), s, ())
                break
            if r == z3.unsat and attempt == "full":
                res = "unsat"
        self.stats["solver_s"] += time.time() - t0
        return res

    def extract(self, m, solver, extra):
        """inputs of a model; real inputs are nudged to short decimals if possible."""
        s = solver
        s.push()
        if extra:
            s.add(*extra)
        try:
            nudge = [x for x in self.inputs if x[1] == "real"]
            if nudge and not self.num.lazy:
                # try all-integers at once, then all-quarters
                for q in (1, 4):
                    s.push()
                    for name, kind, z in nudge:
                        s.add(z3.IsInt(z * q))
                    s.set("timeout", 2000)
                    ok = s.check() == z3.sat
                    if ok:
                        m = s.model()
                    s.pop()
                    s.set("timeout", 4000)
                    if ok:
                        break
            out = {}
            for name, kind, z in self.inputs:
                if kind == "real":
                    v = m.eval(z, model_completion=True)
                    out[name] = z3num(v)
                elif kind == "int":
                    out[name] = m.eval(z, model_completion=True).as_long()
                elif kind == "bool":
                    out[name] = z3.is_true(m.eval(z, model_completion=True))
                elif kind == "str":
                    out[name] = "".join(chr(m.eval(c, model_completion=True).as_long()) for c in z)
            self.last_model = m
            return out
        finally:
            s.pop()

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def stop(self):
        raise StopHarness()

    def note(self, s):
        self.notes.append(s)


def z3num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_int_value(v):
        return v.as_long()
    raise ValueError(str(v))
