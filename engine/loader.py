"""Instrumented execution of /repo/src/valori.

Every path runs a fresh copy of the modules it needs, compiled from the current
source.  Instrumentation is limited to operations Python resolves in C for real
strings (f-strings, str.join, `in`, %-format) plus bare excepts; numpy, the file
system and other environment modules are replaced at import."""
import ast
import builtins as _b
import contextlib
import copy as _copy
import functools
import importlib
import io as _io
import os
import re as _re
import sys
import types

import numpy as _np
import z3

from . import core, envs, nparr, sched, symfs
from .core import Sym, SymBool, SymInt, SymReal, Unsupported, is_sym
from .yields import Yields
from .symstr import Opaque, SymEnc, SymStr, contains, cps, isstr, join, mk

SRC = os.environ.get("VALORI_SRC", "/repo/src")
PKG = "valori"


# --------------------------------------------------------------------------
# AST instrumentation
# --------------------------------------------------------------------------
class Instr(ast.NodeTransformer):
    def __init__(self, yields=()):
        self.yields = yields
        self.depth = 0
        self.cls = []

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("__rt_fstr__", ast.Load()),
                                          [ast.List(parts, ast.Load())], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr == "join" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
                return ast.copy_location(ast.Call(ast.Name("__rt_join__", ast.Load()), [f.value, node.args[0]], []), node)
            if f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
                return ast.copy_location(ast.Call(ast.Name("__rt_format__", ast.Load()), [f.value] + node.args, node.keywords), node)
            if f.attr == "split" and False:
                pass
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            pass
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__rt_in__", ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__rt_mod__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name("Exception", ast.Load()), node)
        return node


_code_cache = {}


def module_file(name):
    base = os.path.join(SRC, *name.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    return None, False


def get_code(name, instr=True, yields=False):
    key = (name, instr, yields)
    if key not in _code_cache:
        fn, pkg = module_file(name)
        if fn is None:
            _code_cache[key] = None
        else:
            with open(fn) as f:
                tree = ast.parse(f.read(), fn)
            if instr:
                tree = Instr().visit(tree)
            if yields:
                tree = Yields().visit(tree)
            ast.fix_missing_locations(tree)
            _code_cache[key] = (compile(tree, fn, "exec"), fn, pkg)
    return _code_cache[key]


# --------------------------------------------------------------------------
# runtime helpers
# --------------------------------------------------------------------------
def rt_fstr(parts):
    if not any(isinstance(p, tuple) and isinstance(p[0], (Sym, symfs.SymPath, nparr.SArr)) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                try:
                    v = repr(v) if conv == 114 else str(v) if conv == 115 else ascii(v) if conv == 97 else v
                    out.append(format(v, spec) if not isinstance(spec, Sym) else format(v))
                except Unsupported:
                    raise
        return "".join(out)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, symfs.SymPath):
            v = v.text
        if isinstance(v, (SymStr, Opaque)):
            out.append(v)
        elif isinstance(v, (SymInt, SymReal, SymBool)):
            if isinstance(v, SymReal) and v.const() is not None:
                out.append(format(float(v.const()), spec))
            else:
                out.append(hex_digits(v, spec) or Opaque((("num", spec), v)))
        elif isinstance(v, nparr.SArr):
            out.append(Opaque((("arr",), repr(v.shape))))
        elif is_sym(v):
            out.append(Opaque((("o",), "x")))
        else:
            v = repr(v) if conv == 114 else str(v) if conv == 115 else v
            out.append(format(v, spec))
    return join("", [x for x in out if not (isinstance(x, str) and x == "")])


def hex_digits(v, spec):
    """format(v, "02X") of a small symbolic integer: its digits"""
    m = _re.fullmatch(r"0([12])([xX])", spec or "")
    if not m or not isinstance(v, SymInt):
        return None
    n, ten = int(m[1]), 55 if m[2] == "X" else 87
    if not core.CTX.branch(z3.And(v.z >= 0, v.z < 16 ** n)):
        return None
    ds = [(v.z / 16 ** i) % 16 for i in reversed(range(n))]
    return SymStr([z3.simplify(z3.If(d < 10, 48 + d, ten + d)) for d in ds])


def rt_join(sep, arg):
    if isinstance(sep, (str, SymStr)):
        return join(sep, arg)
    return sep.join(arg)


def rt_in(a, b):
    return contains(a, b)


def rt_format(fmt, *a, **k):
    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(lit)
            if field is not None:
                if field == "":
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                elif field in k:
                    v = k[field]
                else:
                    raise Unsupported("format field %s" % field)
                out.append((v, -1, spec or ""))
        return rt_fstr(out)
    return fmt.format(*a, **k)


def rt_mod(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    if any(is_sym(x) for x in args):
        bits = _re.split(r"(%[-+0# ]*\d*(?:\.\d+)?[sdrfgeixX%])", fmt)
        out, i = [], 0
        for b in bits:
            if b == "%%":
                out.append("%")
            elif b.startswith("%") and len(b) > 1:
                out.append((args[i], -1, b[1:] if b[-1] in "xX" else ""))
                i += 1
            elif b:
                out.append(b)
        return rt_fstr(out)
    return fmt % arg


class MetaNum(type):
    _base = None
    _also = ()

    def __instancecheck__(cls, x):
        return isinstance(x, cls._base) or isinstance(x, cls._also)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base) or c in cls._also

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)

    def __or__(cls, o):
        return object

    def __ror__(cls, o):
        return object


def conv_float(x=0.0):
    if isinstance(x, (SymReal,)):
        return x
    if isinstance(x, SymInt):
        return x.to_real()
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, nparr.SArr) and x.size == 1:
        return conv_float(x.item())
    if isinstance(x, SymStr):
        return float(x.concretize())
    return float(x)


def conv_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.trunc_int()
    if isinstance(x, SymBool):
        return nparr.b2i(x)
    if isinstance(x, nparr.SArr) and x.size == 1:
        return conv_int(x.item())
    if isinstance(x, SymStr):
        return parse_int(x)
    if isinstance(x, Opaque):
        raise Unsupported("int() of opaque string")
    return int(x, *a) if a else int(x)


def parse_int(s):
    t = s.strip()
    neg = False
    if len(t) and bool(t[0] == "-"):
        neg, t = True, t[1:]
    elif len(t) and bool(t[0] == "+"):
        t = t[1:]
    if not len(t):
        raise ValueError("invalid literal for int()")
    for i, c in enumerate(t):
        if not c.isdigit():
            if bool(c == "_") and 0 < i < len(t) - 1:
                raise Unsupported("underscore in int()")
            raise ValueError("invalid literal for int() with base 10")
    v = int("".join(mk((x,)) if isinstance(mk((x,)), str) else mk((x,)).concretize() for x in cps(t)))
    return -v if neg else v


def conv_str(*a, **k):
    if not a:
        return str(**k)
    x = a[0]
    if isinstance(x, (SymStr, Opaque)):
        return x
    if isinstance(x, symfs.SymPath):
        return x.text
    if len(a) > 1 and isinstance(x, SymEnc):
        return x.decode(a[1])
    if isinstance(x, SymReal):
        return Opaque((("num", "s"), x))
    if isinstance(x, BaseException) and len(x.args) == 1 and is_sym(x.args[0]) and isinstance(x.args[0], (SymStr, Opaque)):
        return x.args[0]
    return str(*a, **k)


def mkmeta(base, also, conv):
    class M(MetaNum):
        _base = base
        _also = also
    cls = M.__new__(M, base.__name__, (base,), {"_conv": staticmethod(conv)})
    return cls


FLOAT = mkmeta(float, (SymReal,), conv_float)
INT = mkmeta(int, (SymInt,), conv_int)
STR = mkmeta(str, (SymStr, Opaque), conv_str)
for _n in ("join", "lower", "upper", "strip", "split", "replace", "isalnum", "startswith", "endswith", "isspace", "isdigit", "isalpha"):
    def _mkm(n):
        def g(s, *a, **k):
            if n == "join":
                return join(s, *a)
            return getattr(s, n)(*a, **k)
        return staticmethod(g)
    type.__setattr__(STR, _n, _mkm(_n))


def rt_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        x = c.c[0]
        return x if isinstance(x, int) else SymInt(x)
    return ord(c)


def rt_chr(i):
    if isinstance(i, SymInt):
        return mk((i.z,))
    return chr(i)


def rt_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        c = x.const()
        if c is not None:
            return round(float(c), n) if n is not None else round(c)
        if n is None:
            return x._round("rint")
        s = 10 ** int(n)
        return (x * s).rint() / s
    return round(x, n) if n is not None else round(x)


def rt_range(*a):
    return range(*[int(x) if isinstance(x, (SymInt, SymBool)) else x for x in a])


def rt_len(x):
    return len(x)


def rt_isinstance(x, t):
    if isinstance(x, SymBool):
        ts = t if isinstance(t, tuple) else (t,)
        if any(y is bool or y is INT or y is int for y in ts):
            return True
    if isinstance(x, SymEnc):
        ts = t if isinstance(t, tuple) else (t,)
        if any(y is bytes for y in ts):
            return True
    if isinstance(x, nparr.SArr):
        pass
    return isinstance(x, t)


def rt_extreme(f):
    def g(*a, **k):
        if len(a) == 1 and not k:
            l = list(a[0])
            r = core.extreme(l, f is min)
            return f(l) if r is None else r
        return f(*a, **k)
    return g


def rt_divmod(a, b):
    return divmod(a, b)


def rt_pow(a, b, m=None):
    return a ** b if m is None else pow(a, b, m)


def rt_type(*a):
    return type(*a)


# --------------------------------------------------------------------------
class World:
    """one instrumented copy of the package for one path"""

    def __init__(self, ctx, yields=(), overrides=None):
        self.ctx = ctx
        self.yields = set(yields)
        self.fs = symfs.FS(ctx)
        ctx.fs = self.fs
        self.nprandom = envs.NpRandomModule()
        self.np = nparr.NpShim(self.fs, self.nprandom)
        ctx.np = self.np
        self.mods = {}
        self.env = self.make_env()
        if overrides:
            self.env.update(overrides)
        self.bi = self.make_builtins()
        self.printed = []

    def make_env(self):
        e = {"numpy": self.np, "pickle": symfs.mk_pickle(self.fs), "json": symfs.mk_json(self.fs)}
        osm = symfs.mk_os(self.fs)
        e["os"], e["os.path"] = osm, osm.path
        e["tempfile"] = symfs.mk_tempfile(self.fs)
        p = types.ModuleType("pathlib")
        p.Path = p.PurePath = p.PosixPath = self.fs.Path
        e["pathlib"] = p
        r = types.ModuleType("random")
        rs = envs.RandomStub()
        for n in dir(rs):
            if not n.startswith("_"):
                setattr(r, n, getattr(rs, n))
        r.Random = r.SystemRandom = envs.RandomStub
        e["random"] = r
        e["uuid"] = envs.mk_uuid()
        e["time"] = envs.mk_time()
        e["hashlib"] = envs.mk_hashlib()
        e["math"] = envs.mk_math()
        cf = types.ModuleType("concurrent.futures")
        cf.ThreadPoolExecutor = cf.ProcessPoolExecutor = envs.ThreadPoolExecutor
        cf.as_completed, cf.wait, cf.Future = envs.as_completed, envs.wait, envs.Future
        e["concurrent.futures"] = cf
        c = types.ModuleType("concurrent")
        c.futures = cf
        e["concurrent"] = c
        th = types.ModuleType("threading")
        import threading as _th
        for n in ("Thread", "Event", "Condition", "Semaphore", "local", "current_thread", "get_ident"):
            setattr(th, n, getattr(_th, n))
        th.Lock, th.RLock = envs.DummyLock, envs.DummyRLock
        e["threading"] = th
        an = types.ModuleType("annoy")
        an.AnnoyIndex = envs.AnnoyIndex
        e["annoy"] = an
        ps = types.ModuleType("psutil")

        class Proc:
            def __init__(self, *a): pass
            def memory_info(self): return types.SimpleNamespace(rss=10 ** 8, vms=2 * 10 ** 8)
            def memory_percent(self): return 1.0
            def cpu_percent(self, *a, **k): return 0.0
        ps.Process = Proc
        ps.virtual_memory = lambda: types.SimpleNamespace(total=8 * 2 ** 30, available=4 * 2 ** 30, percent=50.0, used=4 * 2 ** 30)
        ps.cpu_percent = lambda *a, **k: 1.0
        ps.cpu_count = lambda *a, **k: 4
        ps.disk_usage = lambda p: types.SimpleNamespace(percent=10.0, total=10 ** 12, free=10 ** 11, used=10 ** 11)
        e["psutil"] = ps
        e.update(envs.mk_sklearn())
        io = types.ModuleType("io")
        io.BytesIO, io.StringIO, io.open = symfs.MemBytes, _io.StringIO, self.fs.open
        io.UnsupportedOperation = _io.UnsupportedOperation
        io.SEEK_SET, io.SEEK_END = 0, 2
        e["io"] = io
        cp = types.ModuleType("copy")
        cp.deepcopy = lambda x, memo=None: rt_deepcopy(x)
        cp.copy = lambda x: x.copy() if isinstance(x, nparr.SArr) else _copy.copy(x)
        e["copy"] = cp
        e["urllib.parse"] = mk_urlparse()
        ul = types.ModuleType("urllib")
        ul.parse = e["urllib.parse"]
        e["urllib"] = ul
        sh = types.ModuleType("shutil")
        sh.move = self.fs.rename

        def rmtree(p, ignore_errors=False, **k):
            pc = self.fs.comps(p)
            self.fs.nodes = [(k_, n) for k_, n in self.fs.nodes if not (len(k_) >= len(pc) and self.fs.same(k_[:len(pc)], pc))]
        sh.rmtree = rmtree
        sh.copy = sh.copyfile = sh.copy2 = lambda a, b: self._copyfile(a, b)
        e["shutil"] = sh
        from . import symre
        e["re"] = symre.module()
        e["unicodedata"] = symre.unicodedata_module()
        e["html"] = symre.html_module()
        ch = types.ModuleType("chardet")
        ch.detect = lambda b: {"encoding": "utf-8", "confidence": 1.0, "language": ""}
        e["chardet"] = ch
        for absent in ("openai", "sentence_transformers", "torch", "transformers", "docling", "clip", "PIL",
                       "docling.document_converter", "docling.datamodel.base_models", "nltk", "nltk.corpus", "faiss"):
            e[absent] = None
        return e

    def _copyfile(self, a, b):
        n = self.fs.get(a)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        with self.fs.open(b, "wb") as f:
            f.buf = list(n.data)

    def make_builtins(self):
        d = dict(vars(_b))
        d.update(min=rt_extreme(min), max=rt_extreme(max), float=FLOAT, int=INT, str=STR, open=self.fs.open, ord=rt_ord, chr=rt_chr, round=rt_round,
                 range=rt_range, isinstance=rt_isinstance, print=lambda *a, **k: None, pow=rt_pow,
                 __import__=self.importer, __rt_fstr__=rt_fstr, __rt_join__=rt_join, __rt_in__=rt_in,
                 __rt_format__=rt_format, __rt_mod__=rt_mod, __rt_yield__=sched.point)
        return d

    def load(self, name):
        """import (instrumented) module `name`; parents get lazy packages"""
        if name in self.mods:
            return self.mods[name]
        c = get_code(name, True, name in self.yields)
        if c is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        code, fn, pkg = c
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.package(parent)
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__builtins__ = self.bi
        m.__dict__["__builtins__"] = self.bi
        self.mods[name] = m
        lazy = self.mods.get("~" + name)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.package(parent), leaf, m)
        return m

    def package(self, name):
        """package object without running its __init__ unless asked for a name"""
        if name in self.mods:
            return self.mods[name]
        key = "~" + name
        if key in self.mods:
            return self.mods[key]
        w = self

        class Lazy(types.ModuleType):
            def __getattr__(s, attr):
                if attr.startswith("__"):
                    raise AttributeError(attr)
                sub = name + "." + attr
                if get_code(sub) is not None:
                    return w.load(sub)
                m = w.load(name)
                return getattr(m, attr)
        m = Lazy(name)
        m.__path__ = [os.path.join(SRC, *name.split("."))]
        m.__package__ = name
        self.mods[key] = m
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get("__package__", "")
            parts = pk.split(".")
            base = ".".join(parts[:len(parts) - level + 1]) if level > 1 else pk
            name = base + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            if not fromlist:
                self.load_or_pkg(name)
                return self.package(PKG)
            m = self.load_or_pkg(name)
            for n in fromlist:
                if n == "*":
                    m = self.load(name)
                elif get_code(name + "." + n) is not None:
                    setattr(m, n, self.load_or_pkg(name + "." + n)) if not isinstance(m, types.ModuleType) or n not in m.__dict__ else None
            return m
        if name in self.env:
            m = self.env[name]
            if m is None:
                raise ImportError("No module named %r" % name, name=name)
            if not fromlist and "." in name:
                top = self.env.get(name.split(".")[0])
                if top is not None:
                    return top
            return m
        top = name.split(".")[0]
        if top in self.env and self.env[top] is None:
            raise ImportError("No module named %r" % name, name=name)
        return _b.__import__(name, globals, locals, fromlist, 0)

    def load_or_pkg(self, name):
        c = get_code(name)
        if c is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if c[2] and name not in self.mods:
            return self.package(name)
        return self.load(name)


def mk_urlparse():
    import urllib.parse as up
    m = types.ModuleType("urllib.parse")
    m.__dict__.update({k: v for k, v in vars(up).items() if not k.startswith("__")})
    always = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")

    def quoter(orig, dsafe):
        def quote(s, safe=dsafe, encoding=None, errors=None):
            if not isinstance(s, SymStr):
                return orig(s, safe, encoding, errors) if isinstance(s, str) else orig(s, safe)
            out = []
            for c in s:
                if isinstance(c, SymStr):
                    if c._all(lambda x: x in always or x in safe, ("urlsafe", safe)):
                        out.append(c)
                        continue
                    c = c.concretize()
                out.append(orig(c, safe, encoding, errors))
            return join("", out)
        return quote
    m.quote, m.quote_plus = quoter(up.quote, "/"), quoter(up.quote_plus, "")

    def unquote(s, encoding="utf-8", errors="replace"):
        if not isinstance(s, SymStr):
            return up.unquote(s, encoding, errors)
        out, i, n = [], 0, len(s)
        while i < n:
            c = s[i]
            if not bool(c == "%"):
                out.append(c)
                i += 1
                continue
            run = ""
            while i < n and bool(s[i] == "%"):
                g = s[i:i + 3]
                run += g if isinstance(g, str) else g.concretize()
                i += 3
            out.append(up.unquote(run, encoding, errors))
        return join("", out)
    m.unquote = unquote
    return m


def rt_deepcopy(x):
    return _copy.deepcopy(x)
