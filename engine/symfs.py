"""In-memory file system seen by the instrumented code.

File contents are lists of items: text pieces (str / SymStr / Opaque) and opaque
blobs (pickled object, npy, npz, json).  Mutating operations are numbered steps at
which a crash may be injected; a crash during a write may leave it torn."""
import copy
import io
import itertools
import json as _json
import os as _os
import pickle as _pickle
import types

import numpy as _np

from . import core, nparr
from .core import EngineSignal, Sym, Unsupported, is_sym
from .symstr import Opaque, SymEnc, SymStr, cps, eq_formula, isstr, join, mk


class Crash(EngineSignal):
    """process died here"""


class Blob:
    def __init__(self, kind, obj):
        self.kind, self.obj = kind, obj


class Torn:
    def __init__(self, items):
        self.items = items


_TICK = itertools.count(1)


class Node:
    def __init__(self, kind):
        self.kind = kind
        self.data = []

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        self._data = v
        self.tick = next(_TICK)     # later writes have later times


def weight(o, seen=()):
    """the size of a saved object: grows with what it holds, not with the values"""
    if id(o) in seen:
        return 3
    if isinstance(o, dict):
        return 4 + sum(weight(k, seen + (id(o),)) + weight(v, seen + (id(o),)) for k, v in o.items())
    if isinstance(o, (list, tuple, set, frozenset)):
        return 4 + sum(weight(v, seen + (id(o),)) for v in o)
    if isinstance(o, (nparr.SArr, _np.ndarray)):
        return 128 + 8 * int(o.size)
    if isinstance(o, (str, bytes, SymStr)):
        return 3 + len(o)
    if isinstance(o, Blob):
        return 32 + weight(o.obj, seen)
    return 9


def plain_copy(o, memo=None):
    """what pickling + unpickling gives"""
    if is_sym(o) or o is None or isinstance(o, (bool, int, float, complex, str, bytes, type(Ellipsis))):
        return o
    if isinstance(o, nparr.SArr):
        return o.copy()
    if isinstance(o, _np.ndarray):
        return o.copy()
    if isinstance(o, _np.generic):
        return o
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)]
    if type(o) is list:
        r = memo[id(o)] = []
        r.extend(plain_copy(x, memo) for x in o)
        return r
    if type(o) is dict:
        r = memo[id(o)] = {}
        for k, v in o.items():
            r[plain_copy(k, memo)] = plain_copy(v, memo)
        return r
    if type(o) is tuple:
        return tuple(plain_copy(x, memo) for x in o)
    if type(o) in (set, frozenset):
        return type(o)(plain_copy(x, memo) for x in o)
    if isinstance(o, (types.FunctionType, types.LambdaType, types.ModuleType)) or type(o).__name__ in ("RLock", "lock"):
        raise _pickle.PicklingError("Can't pickle %r" % (o,))
    if isinstance(o, types.GeneratorType):
        raise TypeError("cannot pickle 'generator' object")
    return copy.deepcopy(o, memo)


def has_symstr(p):
    return isinstance(p, SymStr)


def split_path(p):
    """text -> (absolute?, components)"""
    if isinstance(p, str):
        comps = [c for c in p.split("/") if c not in ("", ".")]
        return p.startswith("/"), comps
    comps = p.split("/")
    out = []
    for i, c in enumerate(comps):
        if len(c) == 0:
            continue
        if bool(c == "."):
            continue
        out.append(c)
    return bool(p.startswith("/")), out


class FS:
    ROOT = "/fs"

    def __init__(self, ctx):
        self.ctx = ctx
        self.nodes = []             # (comps tuple, Node)
        self.dead = False
        self.armed = None
        self.count = 0
        self.trace = []
        self.tmp = 0
        self.fail_open = None
        self.mkdirs(("fs",), steps=False)
        fs = self

        class Path(SymPath):
            _fs = fs
        Path.__name__ = "Path"
        self.Path = Path

    # ---- crash control
    def arm(self, maxstep, name="crash"):
        """let the process die at any of the first maxstep mutation steps (or not)"""
        self.armed = self.ctx.int(name + ".step", 0, maxstep)
        self.count = 0

    def disarm(self):
        self.armed = None

    def step(self, what, torn=None):
        """returns False if the mutation must not be carried out"""
        if self.dead:
            return False
        if self.armed is None:
            return True
        self.count += 1
        self.trace.append(what)
        if bool(self.armed == self.count):
            if torn is not None and self.ctx.flip("crash.torn"):
                torn()
            self.dead = True
            raise Crash()
        return True

    def run(self, fn):
        """run fn with crashes allowed; True if it finished"""
        try:
            fn()
            return True
        except Crash:
            return False
        finally:
            self.dead = False
            self.armed = None

    # ---- node access
    def comps(self, p):
        if isinstance(p, tuple):
            return p
        if isinstance(p, SymPath):
            p = p.text
        elif isinstance(p, _os.PathLike):
            p = _os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        if not isstr(p):
            if isinstance(p, Opaque):
                p = p.text()
            else:
                raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)
        for c in cps(p):
            if isinstance(c, int):
                if c == 0:
                    raise ValueError("embedded null byte")
            elif core.CTX.branch(c == 0):
                raise ValueError("embedded null byte")
        a, cs = split_path(p)
        if not a:
            cs = ["fs", "cwd"] + cs
        out = []
        for c in cs:
            if len(c) == 2 and bool(c == ".."):
                if out:
                    out.pop()
            else:
                if len(c) > 255:
                    raise OSError(36, "File name too long")
                out.append(c)
        return tuple(out)

    @staticmethod
    def same(a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not bool(x == y):
                return False
        return True

    def get(self, p):
        c = self.comps(p)
        for k, n in self.nodes:
            if self.same(k, c):
                return n
        return None

    def put(self, p, node):
        c = self.comps(p)
        parent = self.get(c[:-1]) if len(c) > 1 else True
        if parent is None:
            raise FileNotFoundError(2, "No such file or directory")
        if parent is not True and parent.kind != "d":
            raise NotADirectoryError(20, "Not a directory")
        self.nodes.append((c, node))
        return node

    def drop(self, p):
        c = self.comps(p)
        for i, (k, n) in enumerate(self.nodes):
            if self.same(k, c):
                del self.nodes[i]
                return n
        return None

    def children(self, p, deep=False):
        c = self.comps(p)
        out = []
        for k, n in list(self.nodes):
            if (len(k) > len(c) if deep else len(k) == len(c) + 1) and self.same(k[:len(c)], c):
                out.append((k, n))
        return out

    def mkdirs(self, p, steps=True, exist_ok=True, parents=True):
        c = self.comps(p)
        for i in range(1, len(c) + 1):
            n = self.get(c[:i])
            if n is None:
                if i < len(c) and not parents:
                    raise FileNotFoundError(2, "No such file or directory")
                if not steps or self.step("mkdir"):
                    self.nodes.append((c[:i], Node("d")))
            elif n.kind != "d":
                raise (FileExistsError if i == len(c) else NotADirectoryError)(17, "File exists")
            elif i == len(c) and not exist_ok:
                raise FileExistsError(17, "File exists")

    def unlink(self, p, missing_ok=False):
        n = self.get(p)
        if n is None:
            if missing_ok:
                return
            raise FileNotFoundError(2, "No such file or directory")
        if n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        if self.step("unlink"):
            self.drop(p)

    def rename(self, a, b):
        n = self.get(a)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if self.get(self.comps(b)[:-1]) is None:
            raise FileNotFoundError(2, "No such file or directory")
        t = self.get(b)
        if t is not None and t.kind == "d" and n.kind != "d":
            raise IsADirectoryError(21, "Is a directory")
        if self.step("rename"):
            if n.kind == "d":
                ca, cb = self.comps(a), self.comps(b)
                moved = [(k, x) for k, x in self.nodes if len(k) >= len(ca) and self.same(k[:len(ca)], ca)]
                self.nodes = [(k, x) for k, x in self.nodes if not any(k is m[0] for m in moved)]
                for k, x in moved:
                    self.nodes.append((cb + k[len(ca):], x))
                return
            self.drop(a)
            if t is not None:
                self.drop(b)
            self.put(b, n)

    # ---- files
    def open(self, p, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if isinstance(p, (int,)) and not is_sym(p):
            return self.handles[p] if p in getattr(self, "handles", {}) else self.fdopen(p, mode)
        text = "b" not in mode
        if self.fail_open is not None:
            self.fail_open(p, mode)
        n = self.get(p)
        if n is not None and n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        if "r" in mode:
            if n is None:
                raise FileNotFoundError(2, "No such file or directory")
            return SymFile(self, n, mode, text)
        if "x" in mode and n is not None:
            raise FileExistsError(17, "File exists")
        if n is None:
            n = Node("f")
            self.comps(p)
            if self.get(self.comps(p)[:-1]) is None:
                raise FileNotFoundError(2, "No such file or directory")
            if self.step("create"):
                self.put(p, n)
        elif "w" in mode:
            if self.step("truncate"):
                n.data = []
        return SymFile(self, n, mode, text, name=p)

    def fdopen(self, fd, mode="r", *a, **k):
        raise Unsupported("os.fdopen")

    # ---- numpy persistence
    def np_save(self, f, arr, allow_pickle=True, **k):
        self._np_write(f, ".npy", Blob("npy", nparr.array(arr)))

    def np_savez(self, f, *args, **kw):
        d = {"arr_%d" % i: nparr.array(a) for i, a in enumerate(args)}
        d.update({k: nparr.array(v) for k, v in kw.items()})
        self._np_write(f, ".npz", Blob("npz", d))

    def np_savez_compressed(self, f, *args, **kw):
        kw.pop("allow_pickle", None)
        self.np_savez(f, *args, **kw)

    def _np_write(self, f, ext, blob):
        if isinstance(f, (SymFile, MemBytes)):
            f.write(blob)
            return
        t = f.text if isinstance(f, SymPath) else f
        if not isstr(t):
            raise TypeError("bad file")
        if not t.endswith(ext):
            t = t + ext
        with self.open(t, "wb") as h:
            h.write(blob)

    def np_load(self, f, mmap_mode=None, allow_pickle=False, **k):
        if isinstance(f, (SymFile, MemBytes)):
            it = f.next_item()
        else:
            n = self.get(f)
            if n is None:
                raise FileNotFoundError(2, "No such file or directory")
            if n.kind == "d":
                raise IsADirectoryError(21, "Is a directory")
            it = n.data[0] if n.data else None
        if it is None:
            raise EOFError("No data left in file")
        if isinstance(it, Torn):
            raise ValueError("cannot reshape array / truncated file")
        if isinstance(it, Blob) and it.kind == "npy":
            if it.obj.dtype.kind == "O" and not allow_pickle:
                raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
            if mmap_mode == "r+":
                return it.obj                   # a memmap: writes go to the file
            r = it.obj.copy()
            if mmap_mode == "r":
                r.setflags(write=False)
            return r
        if isinstance(it, Blob) and it.kind == "npz":
            return Npz(it.obj, allow_pickle)
        if isinstance(it, Blob) and it.kind == "pickle":
            if not allow_pickle:
                raise ValueError("Cannot load file containing pickled data when allow_pickle=False")
            return plain_copy(it.obj)
        raise ValueError("Cannot load file containing pickled data when allow_pickle=False")

    def parents(self):
        """directory components (below ROOT) of every file"""
        return [k[1:-1] if k[0] == "fs" else ("..",) + k[:-1] for k, n in self.nodes if n.kind == "f"]

    # ---- text helper for harnesses
    def write_text(self, p, text):
        n = self.get(p)
        if n is None:
            n = self.put(p, Node("f"))
        n.data = [text]

    def write_bytes(self, p, data):
        n = self.get(p)
        if n is None:
            n = self.put(p, Node("f"))
        n.data = [data]


class Npz:
    def __init__(self, d, allow_pickle=False):
        self.d, self.ap = d, allow_pickle
        self.files = list(d)

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError("%s is not a file in the archive" % k)
        v = self.d[k]
        if v.dtype.kind == "O" and not self.ap:
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        return v.copy()

    def __contains__(self, k): return k in self.d
    def __iter__(self): return iter(self.d)
    def keys(self): return self.d.keys()
    def items(self): return [(k, self[k]) for k in self.d]
    def get(self, k, default=None): return self[k] if k in self.d else default
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return None


class MemBytes:
    """io.BytesIO stand-in"""

    def __init__(self, data=None):
        self.items = []
        self.pos = 0
        if isinstance(data, BlobBytes):
            self.items = list(data.items)
        elif data:
            self.items = [data]

    def write(self, x): self.items.append(x)
    def seek(self, p, w=0): self.pos = 0 if (p == 0 and w == 0) else len(self.items)
    def getvalue(self): return BlobBytes(self.items)
    def getbuffer(self): return BlobBytes(self.items)
    def read(self, n=-1):
        r = BlobBytes(self.items[self.pos:])
        self.pos = len(self.items)
        return r

    def next_item(self):
        if self.pos >= len(self.items):
            return None
        self.pos += 1
        return self.items[self.pos - 1]
    def __enter__(self): return self
    def __exit__(self, *a): return None
    def close(self): pass


class BlobBytes(Sym):
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return sum(len(i) if isinstance(i, (bytes, str)) else 64 for i in self.items)

    def __bool__(self):
        return bool(self.items)

    def decode(self, *a):
        return SymFile.text_of(self.items)

    def __eq__(self, o):
        raise Unsupported("comparing serialized bytes")

    def __hash__(self): return 80

    def __getitem__(self, i):
        raise Unsupported("slicing serialized bytes")


class SymFile:
    def __init__(self, fs, node, mode, text, name=None):
        self.fs, self.node, self.mode, self.text = fs, node, mode, text
        self.buf = []
        self.pos = 0
        self.closed = False
        self.name = name

    def write(self, x):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "r" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if isinstance(x, BlobBytes):
            self.buf.extend(x.items)
            return len(x)
        if self.text and not (isstr(x) or isinstance(x, (Opaque, Blob))):
            raise TypeError("write() argument must be str, not %s" % type(x).__name__)
        if not self.text and isstr(x):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.buf.append(x)
        return len(x) if isinstance(x, (str, bytes, SymStr)) else 1

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        if self.buf:
            buf, self.buf = self.buf, []
            node = self.node

            def torn():
                node.data = node.data + [Torn(buf)]
            if self.fs.step("write", torn):
                node.data = node.data + buf

    def fileno(self): return 1000
    def close(self):
        if not self.closed:
            self.closed = True
            if not self.fs.dead:
                self.flush()

    def __enter__(self): return self
    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass

    def seek(self, p, w=0):
        self.flush()
        self.pos = 0 if (p == 0 and w == 0) else len(self.node.data)
        return 0

    def tell(self): return len(self.node.data)
    def truncate(self, n=None):
        if self.fs.step("truncate"):
            self.node.data = []

    def next_item(self):
        if self.pos >= len(self.node.data):
            return None
        self.pos += 1
        return self.node.data[self.pos - 1]

    @staticmethod
    def text_of(items):
        parts = []
        for it in items:
            if isinstance(it, Blob) and it.kind in ("json", "text"):
                if it.kind == "text":
                    parts.append(it.obj)
                else:
                    parts.append(JsonText(it.obj))
            elif isinstance(it, SymEnc):
                parts.append(it.decode())
            elif isinstance(it, bytes):
                parts.append(it.decode("utf-8", "replace"))
            elif isinstance(it, Torn):
                t = SymFile.text_of(it.items)
                if isstr(t):
                    parts.append(t[:len(t) // 2])
                else:
                    parts.append(TORN_TEXT)
            elif isstr(it) or isinstance(it, Opaque):
                parts.append(it)
            else:
                parts.append("\udcff<binary>")
        if len(parts) == 1:
            return parts[0]
        if all(isstr(p) for p in parts):
            return join("", parts)
        return Opaque.cat(*parts)

    def read(self, n=-1):
        items = self.node.data[self.pos:]
        self.pos = len(self.node.data)
        if self.text:
            return self.text_of(items) if items else ""
        if len(items) == 1 and isinstance(items[0], (bytes, SymEnc)):
            if n is not None and n >= 0:
                raise Unsupported("partial read")
            return items[0]
        if len(items) == 1 and isstr(items[0]):
            return items[0].encode()
        if not items:
            return b""
        return BlobBytes(items)

    def lines(self):
        out, cur_l = [], []
        for it in self.node.data:
            parts = [it.obj if isinstance(it, Blob) and it.kind == "text" else JsonText(it.obj) if isinstance(it, Blob) and it.kind == "json" else it]
            if isinstance(it, Torn):
                parts = [TORN_TEXT]
            if isinstance(it, Opaque):
                parts = list(it.parts)
            for p in parts:
                if isstr(p):
                    while len(p):
                        i = p.find("\n")
                        if i < 0:
                            cur_l.append(p)
                            break
                        cur_l.append(p[:i + 1])
                        out.append(cur_l)
                        cur_l = []
                        p = p[i + 1:]
                else:
                    cur_l.append(p)
        if cur_l:
            out.append(cur_l)
        res = []
        for l in out:
            l = [p for p in l if not (isstr(p) and len(p) == 0)]
            res.append(join("", l) if all(isstr(p) for p in l) else TextLine(l))
        return res

    def __iter__(self): return iter(self.lines())
    def readlines(self): return self.lines()
    def readline(self):
        ls = self.lines()
        if self.pos < len(ls):
            self.pos += 1
            return ls[self.pos - 1]
        return ""


class TextLine(Opaque):
    def strip(self, *a):
        ps = [p for p in self.parts if not (isinstance(p, str) and not p.strip())]
        return ps[0] if len(ps) == 1 else TextLine(ps)
    rstrip = lstrip = strip


class JsonText(Opaque):
    """json text of a value (opaque)"""
    def __init__(self, obj):
        self.parts = (("json", id(obj)),)
        self._o = obj
    __slots__ = ("_o",)

    def strip(self, *a): return self
    rstrip = lstrip = strip


TORN_TEXT = Opaque(("torn",))


class SymPath:
    _fs = None

    def __init__(self, *parts):
        t = ""
        for p in parts or (".",):
            if isinstance(p, SymPath):
                p = p.text
            elif isinstance(p, _os.PathLike):
                p = _os.fspath(p)
            if isinstance(p, Opaque):
                p = p.text()
            if not isstr(p):
                raise TypeError("argument should be a str or an os.PathLike object where __fspath__ returns a str, not %r" % type(p).__name__)
            if len(p) and bool(p[0] == "/"):
                t = p
            elif len(t) == 0:
                t = p
            elif len(p):
                t = t + "/" + p
        a, cs = split_path(t)
        self._abs, self._cs = a, tuple(cs)

    @property
    def text(self):
        b = join("/", list(self._cs))
        if self._abs:
            return "/" + b
        return b if len(b) else "."

    def _new(self, cs, ab=None):
        r = object.__new__(type(self))
        r._abs = self._abs if ab is None else ab
        r._cs = tuple(cs)
        return r

    def __truediv__(self, o):
        if not (isstr(o) or isinstance(o, (SymPath, Opaque)) or isinstance(o, _os.PathLike)):
            return NotImplemented
        return type(self)(self, o)

    def __rtruediv__(self, o): return type(self)(o, self)
    def joinpath(self, *o): return type(self)(self, *o)
    @property
    def parent(self): return self._new(self._cs[:-1])
    @property
    def parents(self): return [self._new(self._cs[:i]) for i in range(len(self._cs) - 1, -1, -1)]
    @property
    def parts(self): return (("/",) if self._abs else ()) + self._cs
    @property
    def name(self): return self._cs[-1] if self._cs else ""

    def _dot(self):
        n = self.name
        i = n.rfind(".")
        return i if 0 < i < len(n) - 1 else None

    @property
    def suffix(self):
        i = self._dot()
        return "" if i is None else self.name[i:]

    @property
    def suffixes(self): return [self.suffix] if len(self.suffix) else []

    @property
    def stem(self):
        i = self._dot()
        return self.name if i is None else self.name[:i]

    def with_suffix(self, s):
        return self._new(self._cs[:-1] + (self.stem + s,))

    def with_name(self, n): return self._new(self._cs[:-1] + (n,))
    def with_stem(self, s): return self.with_name(s + self.suffix)
    def exists(self): return self._fs.get(self) is not None
    def is_file(self):
        n = self._fs.get(self)
        return n is not None and n.kind == "f"
    def is_dir(self):
        n = self._fs.get(self)
        return n is not None and n.kind == "d"
    def is_absolute(self): return self._abs

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        self._fs.mkdirs(self, exist_ok=exist_ok, parents=parents)

    def rmdir(self):
        n = self._fs.get(self)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if self._fs.children(self):
            raise OSError(39, "Directory not empty")
        if self._fs.step("rmdir"):
            self._fs.drop(self)

    def unlink(self, missing_ok=False): self._fs.unlink(self, missing_ok)
    def rename(self, t):
        self._fs.rename(self, t)
        return type(self)(t)
    replace = rename

    def touch(self, mode=0o666, exist_ok=True):
        if self._fs.get(self) is None:
            if self._fs.get(self.parent) is None:
                raise FileNotFoundError(2, "No such file or directory")
            if self._fs.step("create"):
                self._fs.put(self, Node("f"))

    def open(self, mode="r", *a, **k): return self._fs.open(self, mode, *a, **k)
    def read_text(self, encoding=None, errors=None):
        with self.open("r") as f:
            return f.read()
    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()
    def write_text(self, t, *a, **k):
        with self.open("w") as f:
            return f.write(t)
    def write_bytes(self, t):
        with self.open("wb") as f:
            return f.write(t)

    def stat(self):
        n = self._fs.get(self)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        size = sum(len(i.encode("utf-8") if isinstance(i, str) else i) if isinstance(i, (str, bytes, SymStr, SymEnc)) else 48 + weight(i) for i in n.data)
        t = 1.7e9 + n.tick
        return types.SimpleNamespace(st_size=size, st_mtime=t, st_ctime=t, st_atime=t, st_mtime_ns=int(t) * 10 ** 9, st_ctime_ns=int(t) * 10 ** 9, st_ino=id(n), st_mode=0o100644)

    def iterdir(self):
        for k, n in self._fs.children(self):
            yield self._new(self._cs + (k[-1],))

    def _glob(self, pat, deep):
        base = self._fs.comps(self)
        out = []
        if not len(pat):
            raise ValueError("Unacceptable pattern: ''")
        if "/" in pat:
            raise Unsupported("glob with directories")
        if isinstance(pat, str) and "**" in pat:
            if pat != "**":
                raise Unsupported("recursive glob pattern " + pat)
            raise Unsupported("recursive glob")
        for k, n in self._fs.children(self, deep):
            if match_glob(k[-1], pat):
                out.append(self._new(self._cs + tuple(k[len(base):])))
        return out

    def glob(self, pat): return iter(self._glob(pat, False))
    def rglob(self, pat): return iter(self._glob(pat, True))
    def resolve(self, strict=False): return self if self._abs else type(self)("/fs/cwd", self)
    def absolute(self): return self.resolve()
    def expanduser(self): return self
    def as_posix(self): return self.text

    def relative_to(self, o):
        o = o if isinstance(o, SymPath) else type(self)(o)
        if not FS.same(self._cs[:len(o._cs)], o._cs):
            raise ValueError("not in the subpath")
        return self._new(self._cs[len(o._cs):], False)

    def is_relative_to(self, o):
        o = o if isinstance(o, SymPath) else type(self)(o)
        return FS.same(self._cs[:len(o._cs)], o._cs)

    def __eq__(self, o):
        return isinstance(o, SymPath) and self._abs == o._abs and FS.same(self._cs, o._cs)

    def __hash__(self): return 81
    def __lt__(self, o): return list(self._cs) < list(o._cs)
    def __str__(self):
        t = self.text
        return t if isinstance(t, str) else t.concretize()

    def __fspath__(self): return str(self)
    def __repr__(self): return "Path(%s)" % (self.text if isinstance(self.text, str) else "<sym>")

    @classmethod
    def cwd(cls): return cls("/fs/cwd")
    @classmethod
    def home(cls): return cls("/fs/home")


def glob_tokens(pat):
    """a pattern component -> ('lit', c) | ('any',) | ('star',) | ('set', negated, [(lo, hi)])"""
    from .symstr import cps, ceq
    from . import core
    c = cps(pat)

    def is_(x, ch):
        e = ceq(x, ord(ch))
        return e if isinstance(e, bool) else core.CTX.branch(e)
    out, i = [], 0
    while i < len(c):
        if is_(c[i], "*"):
            if not out or out[-1] != ("star",):
                out.append(("star",))
        elif is_(c[i], "?"):
            out.append(("any",))
        elif is_(c[i], "["):
            j = i + 1
            if j < len(c) and is_(c[j], "!"):
                j += 1
            if j < len(c) and is_(c[j], "]"):
                j += 1
            while j < len(c) and not is_(c[j], "]"):
                j += 1
            if j >= len(c):
                out.append(("lit", c[i]))
            else:
                body = list(c[i + 1:j])
                neg = bool(body) and is_(body[0], "!")
                if neg:
                    body = body[1:]
                rs, k = [], 0
                while k < len(body):
                    if k + 2 < len(body) and is_(body[k + 1], "-"):
                        rs.append((body[k], body[k + 2]))
                        k += 3
                    else:
                        rs.append((body[k], body[k]))
                        k += 1
                out.append(("set", neg, rs))
                i = j
        else:
            out.append(("lit", c[i]))
        i += 1
    return out


def match_glob(name, pat):
    import z3
    from .symstr import cps, ceq, cz
    from . import core
    toks, s = glob_tokens(pat), cps(name)

    def zb(x):
        return z3.BoolVal(x) if isinstance(x, bool) else x
    memo = {}

    def m(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == len(toks):
            r = j == len(s)
        elif toks[i][0] == "star":
            alts = [x for x in (m(i + 1, k) for k in range(j, len(s) + 1)) if x is not False]
            r = True if any(x is True for x in alts) else (z3.Or([zb(x) for x in alts]) if alts else False)
        elif j == len(s):
            r = False
        else:
            rest = m(i + 1, j + 1)
            t = toks[i]
            if rest is False:
                r = False
            elif t[0] == "any":
                r = rest
            else:
                if t[0] == "lit":
                    e = ceq(t[1], s[j])
                else:
                    e = z3.simplify(z3.Or([z3.And(cz(lo) <= cz(s[j]), cz(s[j]) <= cz(hi)) for lo, hi in t[2]] + [z3.BoolVal(False)]))
                    e = z3.Not(e) if t[1] else e
                if e is False:
                    r = False
                else:
                    r = rest if e is True else (e if rest is True else z3.And(e, zb(rest)))
        memo[i, j] = r
        return r
    r = m(0, 0)
    return r if isinstance(r, bool) else core.CTX.branch(r)


# --------------------------------------------------------------------------
# pickle / json / os / tempfile / io stand-ins
# --------------------------------------------------------------------------
def mk_pickle(fs):
    m = types.ModuleType("pickle")
    m.HIGHEST_PROTOCOL = _pickle.HIGHEST_PROTOCOL
    m.DEFAULT_PROTOCOL = _pickle.DEFAULT_PROTOCOL
    m.PicklingError, m.UnpicklingError, m.PickleError = _pickle.PicklingError, _pickle.UnpicklingError, _pickle.PickleError

    def dump(obj, f, protocol=None, **k):
        f.write(Blob("pickle", plain_copy(obj)))

    def dumps(obj, protocol=None, **k):
        return BlobBytes([Blob("pickle", plain_copy(obj))])

    def _load(it):
        if it is None:
            raise EOFError("Ran out of input")
        if isinstance(it, Torn):
            raise _pickle.UnpicklingError("pickle data was truncated")
        if isinstance(it, Blob) and it.kind == "pickle":
            return plain_copy(it.obj)
        raise _pickle.UnpicklingError("invalid load key")

    def load(f, **k):
        return _load(f.next_item())

    def loads(b, **k):
        if isinstance(b, BlobBytes):
            return _load(b.items[0] if b.items else None)
        if b == b"":
            raise EOFError("Ran out of input")
        raise _pickle.UnpicklingError("invalid load key")
    m.dump, m.dumps, m.load, m.loads = dump, dumps, load, loads
    return m


def json_value(o, default=None):
    """what json.loads(json.dumps(o)) gives (raises TypeError as json does)"""
    if o is None or isinstance(o, (bool, str)) or is_sym(o):
        if isinstance(o, (SymEnc, BlobBytes)):
            raise TypeError("Object of type bytes is not JSON serializable")
        return o
    if isinstance(o, (int, float)):
        if isinstance(o, _np.generic):
            if isinstance(o, float):
                return float(o)
            if default is not None:
                return json_value(default(o), default)
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
        return o
    if isinstance(o, (list, tuple)):
        return [json_value(x, default) for x in o]
    if isinstance(o, dict):
        r = {}
        for k, v in o.items():
            if isinstance(k, bool) or k is None:
                k = {True: "true", False: "false", None: "null"}[k]
            elif isinstance(k, (int, float)) and not is_sym(k):
                k = str(k)
            elif not isstr(k):
                if is_sym(k):
                    k = str(k)
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            r[k] = json_value(v, default)
        return r
    if default is not None:
        return json_value(default(o), default)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def has_sym_deep(o, up=()):
    if is_sym(o):
        return True
    if id(o) in up:                     # a container that contains itself
        return False
    if isinstance(o, (list, tuple, set)):
        up = up + (id(o),)
        return any(has_sym_deep(x, up) for x in o)
    if isinstance(o, dict):
        up = up + (id(o),)
        return any(has_sym_deep(x, up) for x in o.values()) or any(is_sym(k) for k in o)
    return False


def mk_json(fs):
    m = types.ModuleType("json")
    m.JSONDecodeError = _json.JSONDecodeError
    m.JSONEncoder, m.JSONDecoder = _json.JSONEncoder, _json.JSONDecoder

    def dumps(o, **k):
        d = k.get("default")
        if not has_sym_deep(o):
            return _json.dumps(o, **k)
        return JsonText(json_value(o, d))

    def dump(o, f, **k):
        if not has_sym_deep(o):
            f.write(_json.dumps(o, **k))
        else:
            f.write(Blob("json", json_value(o, k.get("default"))))

    def loads(s, **k):
        if isinstance(s, JsonText):
            return plain_copy(s._o)
        if isinstance(s, Opaque):
            ps = [p for p in s.parts]
            raise _json.JSONDecodeError("Expecting value", "torn", 0)
        if isinstance(s, SymStr):
            raise Unsupported("json.loads of symbolic text")
        if isinstance(s, (SymEnc, BlobBytes)):
            return loads(s.decode())
        return _json.loads(s, **k)

    def load(f, **k):
        return loads(f.read())
    m.dump, m.dumps, m.load, m.loads = dump, dumps, load, loads
    return m


def mk_os(fs):
    m = types.ModuleType("os")
    p = types.ModuleType("os.path")
    P = fs.Path
    p.exists = lambda x: fs.get(x) is not None
    p.lexists = p.exists
    p.isfile = lambda x: P(x).is_file()
    p.isdir = lambda x: P(x).is_dir()
    p.join = lambda *a: P(*a).text
    p.basename = lambda x: P(x).name
    p.dirname = lambda x: P(x).parent.text
    p.getsize = lambda x: P(x).stat().st_size
    p.abspath = lambda x: P(x).resolve().text
    p.realpath = p.abspath
    p.normpath = lambda x: P(x).text
    p.isabs = lambda x: P(x)._abs
    p.sep = "/"

    def splitext(x):
        q = P(x)
        s = q.suffix
        t = x.text if isinstance(x, SymPath) else x
        return (t[:len(t) - len(s)], s)
    p.splitext = splitext
    p.split = lambda x: (P(x).parent.text, P(x).name)
    m.path = p
    m.sep, m.linesep, m.altsep, m.curdir, m.pardir, m.name = "/", "\n", None, ".", "..", "posix"
    m.environ = dict(_os.environ)
    m.getenv = lambda k, d=None: m.environ.get(k, d)
    m.getpid = lambda: 4242
    m.urandom = lambda n: bytes(n)
    m.cpu_count = lambda: 4
    m.getcwd = lambda: "/fs/cwd"
    m.fspath = lambda x: x.text if isinstance(x, SymPath) else x
    m.PathLike = _os.PathLike
    m.replace = fs.rename
    m.rename = fs.rename
    m.remove = lambda x: fs.unlink(x)
    m.unlink = m.remove
    m.makedirs = lambda x, mode=0o777, exist_ok=False: fs.mkdirs(x, exist_ok=exist_ok)
    m.mkdir = lambda x, mode=0o777: fs.mkdirs(x, exist_ok=False, parents=False)
    m.rmdir = lambda x: P(x).rmdir()
    m.listdir = lambda x=".": [k[-1] for k, n in fs.children(P(x))]
    m.stat = lambda x: P(x).stat()
    m.fsync = lambda fd: None
    m.fdatasync = lambda fd: None
    m.error = OSError
    m.O_RDONLY = 0
    m.O_DIRECTORY = 0
    for k in ("O_WRONLY", "O_RDWR", "O_CREAT", "O_EXCL", "O_TRUNC", "O_APPEND", "O_CLOEXEC"):
        setattr(m, k, getattr(_os, k))
    fs.handles = {}

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        if P(path).is_dir():
            return 1001
        if not flags & (_os.O_WRONLY | _os.O_RDWR):
            mode = "rb"
        elif flags & _os.O_EXCL:
            mode = "xb"
        elif flags & _os.O_TRUNC or flags & _os.O_CREAT and fs.get(path) is None:
            mode = "wb"
        else:
            mode = "ab"
        fd = 3000 + len(fs.handles)
        fs.handles[fd] = fs.open(path, mode)
        return fd

    def os_close(fd):
        f = fs.handles.get(fd)
        if f is not None:
            f.close()

    def os_write(fd, data):
        f = fs.handles.get(fd)
        if f is None:
            f = fs.handles[fd] = SymFile(fs, fs.fds[fd], "wb", False)
        f.write(data)
        f.flush()
        return len(data)

    def old_fdopen(fd, mode="r", *a, **k):
        if fd not in fs.handles:
            return fs.fdopen(fd, mode, *a, **k)
        f = fs.handles[fd]
        return f if "b" in mode else SymFile(fs, f.node, mode, True, f.name)
    m.open, m.close, m.write, m.fdopen = os_open, os_close, os_write, old_fdopen

    class Entry:
        def __init__(self, path): self.path, self.name, self._p = path.text, path.name, path
        def is_file(self, **k): return self._p.is_file()
        def is_dir(self, **k): return self._p.is_dir()
        def is_symlink(self): return False
        def stat(self, **k): return self._p.stat()
        def __fspath__(self): return str(self._p)

    class Scan(list):
        def __enter__(self): return iter(self)
        def __exit__(self, *a): return None
        def close(self): pass
    m.scandir = lambda x=".": Scan(Entry(q) for q in P(x).iterdir())
    m.DirEntry = Entry
    m.access = lambda x, mode, **k: fs.get(x) is not None
    m.F_OK, m.R_OK, m.W_OK, m.X_OK = 0, 4, 2, 1
    m.removedirs = lambda x: P(x).rmdir()

    def walk(top):
        ch = fs.children(P(top))
        ds = [k[-1] for k, n in ch if n.kind == "d"]
        fl = [k[-1] for k, n in ch if n.kind == "f"]
        yield P(top).text, ds, fl
        for d in ds:
            yield from walk(P(top) / d)
    m.walk = walk
    return m


def mk_tempfile(fs):
    m = types.ModuleType("tempfile")
    fs.mkdirs(("tmp",), steps=False)

    class NTF(SymFile):
        def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix="", prefix="tmp", dir=None, delete=True, **k):
            fs.tmp += 1
            d = fs.Path(dir) if dir is not None else fs.Path("/tmp")
            p = d / ("%s%04d%s" % (prefix or "tmp", fs.tmp, suffix or ""))
            n = Node("f")
            if fs.step("create"):
                fs.put(p, n)
            SymFile.__init__(self, fs, n, mode, "b" not in mode)
            self.name = p.text
            self._del = delete
            self._p = p

        def close(self):
            was = self.closed
            SymFile.close(self)
            if not was and self._del and fs.get(self._p) is not None:
                fs.unlink(self._p)
    m.NamedTemporaryFile = NTF

    def mkstemp(suffix="", prefix="tmp", dir=None, text=False):
        fs.tmp += 1
        d = fs.Path(dir) if dir is not None else fs.Path("/tmp")
        p = d / ("%s%04d%s" % (prefix or "tmp", fs.tmp, suffix or ""))
        n = Node("f")
        if fs.step("create"):
            fs.put(p, n)
        fd = 2000 + fs.tmp
        fs.fds = getattr(fs, "fds", {})
        fs.fds[fd] = n
        return fd, p.text
    m.mkstemp = mkstemp

    def fdopen(fd, mode="r", *a, **k):
        return SymFile(fs, fs.fds[fd], mode, "b" not in mode)
    fs.fdopen = fdopen

    def mkdtemp(suffix="", prefix="tmp", dir=None):
        fs.tmp += 1
        p = fs.Path(dir or "/tmp") / ("%s%04d%s" % (prefix or "tmp", fs.tmp, suffix or ""))
        fs.mkdirs(p, steps=False)
        return p.text
    m.mkdtemp = mkdtemp
    m.gettempdir = lambda: "/tmp"
    return m
