"""Strings with symbolic characters and a concrete length.

A SymStr is a tuple of code points, each a Python int or a z3 Int term.  Operations
whose outcome depends on the characters fork through the path explorer."""
import builtins

import z3

from . import core
from .core import Sym, SymBool, SymInt, Unsupported, mkbool


def universe():
    u = getattr(core.CTX, "_universe", None)
    if u is None:
        u = core.CTX._universe = set()
    return u


def add_universe(cps):
    universe().update(cps)


_pred_cache = {}


def char_pred(z, fn, name):
    """z3 formula: fn(chr(z)) for z in the current universe"""
    if isinstance(z, int):
        return bool(fn(chr(z)))
    u = universe()
    key = (name, len(u), hash(frozenset(u)))
    rs = _pred_cache.get(key)
    if rs is None:
        rs = []
        run = None
        su = sorted(u)
        for i, c in enumerate(su):
            if fn(chr(c)):
                if run is not None and all(x not in u for x in range(run[1] + 1, c)):
                    run[1] = c
                else:
                    run = [c, c]
                    rs.append(run)
            else:
                run = None
        _pred_cache[key] = rs
    return mkbool(z3.Or([z == a if a == b else z3.And(z >= a, z <= b) for a, b in rs]))


def cz(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def ceq(a, b):
    """-> bool or z3 BoolRef"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return cz(a) == cz(b)


def mk(chars):
    chars = tuple(chars)
    out = []
    conc = True
    for c in chars:
        if not isinstance(c, int):
            if z3.is_int_value(c):
                c = c.as_long()
            else:
                conc = False
        out.append(c)
    if conc:
        return "".join(map(chr, out))
    return SymStr(out)


def cps(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("expected str, got %s" % type(s).__name__)


def isstr(x):
    return isinstance(x, (str, SymStr))


def eq_formula(a, b):
    """equality of two char tuples -> bool / SymBool (no forking)"""
    if len(a) != len(b):
        return False
    zs = []
    for x, y in zip(a, b):
        e = ceq(x, y)
        if e is True:
            continue
        if e is False:
            return False
        zs.append(e)
    return mkbool(z3.And(zs)) if zs else True


class SymStr(Sym):
    __slots__ = ("c", "__weakref__")

    def __init__(self, chars):
        self.c = tuple(chars)

    def __len__(self):
        return len(self.c)

    def __hash__(self):
        return 77

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented if not isinstance(o, Opaque) else False
        r = eq_formula(self.c, cps(o))
        return bool(r) if not isinstance(r, SymBool) else core.CTX.branch(r.z)

    def eqf(self, o):
        return eq_formula(self.c, cps(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        a, b = self.c, cps(o)
        for x, y in zip(a, b):
            e = ceq(x, y)
            if e is True or (e is not False and core.CTX.branch(e)):
                continue
            l = cz(x) < cz(y)
            return core.CTX.branch(z3.simplify(l))
        return len(a) < len(b)

    def __gt__(self, o): return SymStr(cps(o)).__lt__(self) if not isinstance(o, SymStr) else o.__lt__(self)
    def __le__(self, o): return not self.__gt__(o)
    def __ge__(self, o): return not self.__lt__(o)

    def __add__(self, o):
        if not isstr(o):
            if isinstance(o, Opaque):
                return Opaque.cat(self, o)
            return NotImplemented
        return mk(self.c + cps(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(cps(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * int(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[int(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
            return mk(self.c[i])
        return mk((self.c[int(i)],))

    def __iter__(self):
        for c in self.c:
            yield mk((c,))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __bool__(self):
        return len(self.c) > 0

    def __str__(self): return self.concretize()
    def __repr__(self): return "<symstr %d>" % len(self.c)
    def __format__(self, spec): return "<symstr>"

    def concretize(self):
        return "".join(chr(x if isinstance(x, int) else core.CTX.concretize_int(x)) for x in self.c)

    # ---- search
    def _match_at(self, sub, i):
        r = eq_formula(self.c[i:i + len(sub)], sub)
        return core.CTX.branch(r.z) if isinstance(r, SymBool) else r

    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(int(start) if start is not None else None, int(end) if end is not None else None).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if start is not None and int(start) > len(self.c):
            return -1
        sub = cps(sub)
        for i in range(s, e - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if start is not None and int(start) > len(self.c):
            return -1
        sub = cps(sub)
        for i in range(e - len(sub), s - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        sub = cps(sub)
        if not sub:
            return e - s + 1
        n, i = 0, s
        while i <= e - len(sub):
            if self._match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        p = cps(p)
        return len(p) <= e - s and self._match_at(p, s)

    def endswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        p = cps(p)
        return len(p) <= e - s and self._match_at(p, e - len(p))

    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:-len(p)] if p and self.endswith(p) else self

    # ---- char classes
    def _is(self, i, fn, name):
        r = char_pred(self.c[i], fn, name)
        return bool(r) if not isinstance(r, SymBool) else core.CTX.branch(r.z)

    def _all(self, fn, name):
        if not self.c:
            return False
        zs = []
        for c in self.c:
            r = char_pred(c, fn, name)
            if isinstance(r, SymBool):
                zs.append(r.z)
            elif not r:
                return False
        return core.CTX.branch(z3.And(zs)) if zs else True

    def isalnum(self): return self._all(str.isalnum, "isalnum")
    def isalpha(self): return self._all(str.isalpha, "isalpha")
    def isdigit(self): return self._all(str.isdigit, "isdigit")
    def isdecimal(self): return self._all(str.isdecimal, "isdecimal")
    def isnumeric(self): return self._all(str.isnumeric, "isnumeric")
    def isspace(self): return self._all(str.isspace, "isspace")
    def isascii(self):
        return all(self._is(i, str.isascii, "isascii") for i in range(len(self.c)))
    def isprintable(self):
        return all(self._is(i, str.isprintable, "isprintable") for i in range(len(self.c)))
    def isupper(self):
        return self._all(lambda c: c.isupper(), "isupper1") if len(self.c) == 1 else self._un("isupper")
    def islower(self):
        return self._all(lambda c: c.islower(), "islower1") if len(self.c) == 1 else self._un("islower")
    def isidentifier(self): return self._un("isidentifier")

    def _un(self, n):
        raise Unsupported("str.%s on a symbolic string" % n)

    def _stripset(self, chars):
        if chars is None:
            return lambda c: c.isspace(), "isspace"
        s = cps(chars)
        if any(not isinstance(x, int) for x in s):
            raise Unsupported("strip with symbolic characters")
        ss = frozenset(map(chr, s))
        return (lambda c: c in ss), "strip:" + "".join(sorted(ss))

    def lstrip(self, chars=None):
        fn, nm = self._stripset(chars)
        i = 0
        while i < len(self.c) and self._is(i, fn, nm):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, chars=None):
        fn, nm = self._stripset(chars)
        j = len(self.c)
        while j > 0 and self._is(j - 1, fn, nm):
            j -= 1
        return mk(self.c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    # ---- splitting / joining
    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            sp = lambda k: self._is(k, str.isspace, "isspace")
            while i < n:
                while i < n and sp(i):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self.c[i:]).rstrip())
                    break
                j = i
                while j < n and not sp(j):
                    j += 1
                out.append(mk(self.c[i:j]))
                i = j
            return out
        s = cps(sep)
        if not s:
            raise ValueError("empty separator")
        i = last = 0
        while i <= len(self.c) - len(s):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(s, i):
                out.append(mk(self.c[last:i]))
                i += len(s)
                last = i
            else:
                i += 1
        out.append(mk(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit on whitespace")
        out = []
        r = self
        while len(out) < maxsplit:
            i = r.rfind(sep) if isinstance(r, SymStr) else r.rfind(sep)
            if i < 0:
                break
            out.append(r[i + len(sep):])
            r = r[:i]
        out.append(r)
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        out, last, i = [], 0, 0
        brk = lambda c: c in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        while i < len(self.c):
            if self._is(i, brk, "linebreak"):
                j = i + 1
                if j < len(self.c):
                    both = eq_formula(self.c[i:i + 2], (13, 10))
                    if (core.CTX.branch(both.z) if isinstance(both, SymBool) else both):
                        j += 1
                out.append(mk(self.c[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < len(self.c):
            out.append(mk(self.c[last:]))
        return out

    def replace(self, old, new, count=-1):
        o, nw = cps(old), cps(new)
        if not o:
            raise Unsupported("replace of the empty string")
        out, i, k = [], 0, 0
        while i < len(self.c):
            if i <= len(self.c) - len(o) and (count < 0 or k < count) and self._match_at(o, i):
                out.extend(nw)
                i += len(o)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    def join(self, parts):
        return join(self, parts)

    def translate(self, table):
        out = []
        for i, c in enumerate(self.c):
            if isinstance(c, int):
                out.extend(cps(chr(c).translate(table)))
                continue
            hit = None
            for k, v in table.items():
                k = k if isinstance(k, int) else ord(k)
                if core.CTX.branch(z3.simplify(c == k)):
                    hit = "" if v is None else chr(v) if isinstance(v, int) else v
                    break
            if hit is None:
                out.append(c)
            else:
                out.extend(cps(hit))
        return mk(out)

    # ---- case
    def _map(self, fn, name):
        out = []
        for i, c in enumerate(self.c):
            if isinstance(c, int):
                out.extend(cps(fn(chr(c))))
                continue
            # fork on whether the mapping changes the character
            if not self._is(i, lambda ch: fn(ch) != ch, name + "!"):
                out.append(c)
                continue
            deltas = {}
            for u in universe():
                r = fn(chr(u))
                if r != chr(u):
                    deltas.setdefault(tuple(map(ord, r)) if len(r) != 1 else ord(r) - u, []).append(u)
            done = False
            for d, us in sorted(deltas.items(), key=repr):
                uset = frozenset(us)
                if self._is(i, lambda ch: ord(ch) in uset, name + repr(d) + repr(sorted(us)[:3])):
                    if isinstance(d, tuple):
                        out.extend(d)
                    else:
                        out.append(z3.simplify(c + d))
                        universe().update(u + d for u in us)
                    done = True
                    break
            if not done:
                raise core.Infeasible()
        return mk(out)

    def lower(self): return self._map(str.lower, "lower")
    def upper(self): return self._map(str.upper, "upper")
    def casefold(self): return self._map(str.casefold, "casefold")
    def title(self): return self._un("title")
    def capitalize(self): return self._un("capitalize")

    def encode(self, enc="utf-8", errors="strict"):
        return SymEnc(self, enc)

    def zfill(self, n):
        return self.rjust(n, "0")
    def rjust(self, n, f=" "): return mk(cps(f) * max(0, n - len(self.c)) + self.c)
    def ljust(self, n, f=" "): return mk(self.c + cps(f) * max(0, n - len(self.c)))
    def format(self, *a, **k): return self._un("format")


class SymEnc(Sym):
    """bytes obtained by encoding a (symbolic) string"""
    __slots__ = ("s", "enc")

    def __init__(self, s, enc="utf-8"):
        self.s, self.enc = s, enc

    def decode(self, enc="utf-8", errors="strict"):
        e = (enc or "utf-8").lower().replace("_", "-")
        if e in ("utf-8", "utf8", "ascii", self.enc.lower()):
            return self.s
        raise Unsupported("decoding symbolic bytes as %s" % enc)

    def __len__(self):
        n = 0
        for c in cps(self.s):
            if isinstance(c, int):
                n += len(chr(c).encode())
            elif core.CTX.branch(z3.simplify(c < 128)):
                n += 1
            elif core.CTX.branch(z3.simplify(c < 0x800)):
                n += 2
            elif core.CTX.branch(z3.simplify(c < 0x10000)):
                n += 3
            else:
                n += 4
        return n

    def __hash__(self): return 78

    def __eq__(self, o):
        if isinstance(o, SymEnc):
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode("utf-8", "replace")
        return False

    def __bool__(self): return len(cps(self.s)) > 0

    def units(self):
        """the bytes, as (symbolic) integers"""
        out = []
        for c in cps(self.s):
            if isinstance(c, int):
                out += list(chr(c).encode())
                continue
            n = len(SymEnc(SymStr([c])))
            lead = {1: 0, 2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
            for i in range(n):
                v = c / (64 ** (n - 1 - i))
                out.append(core.SymInt(z3.simplify(c if n == 1 else lead + v if i == 0 else 0x80 + v % 64)))
        return out

    def __iter__(self): return iter(self.units())

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slicing symbolic bytes")
        return self.units()[i]


class Opaque(Sym):
    """a string whose text is a function of symbolic values (formatted numbers,
    digests): equal iff built from equal parts"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    @staticmethod
    def cat(*xs):
        ps = []
        for x in xs:
            if isinstance(x, Opaque):
                ps.extend(x.parts)
            else:
                ps.append(x)
        return Opaque(ps)

    def __hash__(self): return 79

    def __eq__(self, o):
        if isinstance(o, Opaque):
            if len(self.parts) != len(o.parts):
                return False
            for a, b in zip(self.parts, o.parts):
                if not part_eq(a, b):
                    return False
            return True
        return False

    def __ne__(self, o): return not self == o

    def __add__(self, o):
        if isstr(o) or isinstance(o, Opaque):
            return Opaque.cat(self, o)
        return NotImplemented

    def __radd__(self, o):
        if isstr(o):
            return Opaque.cat(o, self)
        return NotImplemented

    def __str__(self): return self.text()
    def __repr__(self): return "<opaque>"
    def __format__(self, spec): return self.text()
    def __bool__(self): return True
    def __iter__(self): raise Unsupported("iterating an opaque string")
    def __len__(self): raise Unsupported("length of an opaque string")
    def encode(self, *a): return self
    def lower(self): return self
    def hexdigest(self): return self

    def __getitem__(self, i):
        return Opaque(("slice", repr(i), self))

    def text(self):
        out = []
        for p in self.parts:
            if isinstance(p, SymInt):
                out.append(str(int(p)))
            elif isinstance(p, SymStr):
                out.append(p.concretize())
            elif isinstance(p, str):
                out.append(p)
            else:
                raise Unsupported("text of an opaque string")
        return "".join(out)


def part_eq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(part_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    r = a == b
    return bool(r)


def join(sep, parts):
    parts = list(parts)
    if not any(isinstance(p, Sym) for p in parts) and not isinstance(sep, Sym):
        return str.join(sep, parts)
    if any(isinstance(p, Opaque) for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i and sep:
                out.append(sep)
            out.append(p)
        return Opaque.cat(*out)
    s = cps(sep)
    out = []
    for i, p in enumerate(parts):
        if not isstr(p):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(p).__name__))
        if i:
            out.extend(s)
        out.extend(cps(p))
    return mk(out)


def contains(item, cont):
    """`item in cont` for the instrumented code"""
    if isinstance(cont, str) and isinstance(item, SymStr):
        if len(item) == 1:
            zs = sorted(set(cont))
            r = char_pred(item.c[0], lambda ch: ch in cont, "in:" + "".join(zs))
            return bool(r) if not isinstance(r, SymBool) else core.CTX.branch(r.z)
        return SymStr(cps(cont)).find(item) >= 0
    if isinstance(cont, (set, frozenset, dict)) and isinstance(item, SymStr):
        for x in cont:
            if isstr(x) and bool(item == x):
                return True
        return False
    if isinstance(cont, (set, frozenset, dict)) and type(item) is str and item in cont:
        return True
    if isinstance(cont, (set, frozenset, dict)) and isinstance(item, str) and any(isinstance(x, SymStr) for x in cont):
        return any(isstr(x) and bool(x == item) for x in cont)
    return item in cont


class SymStrList(list):
    pass
