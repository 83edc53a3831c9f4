"""Concrete context: runs the same harness against the real code, real numpy, real
scikit-learn and the real file system, with inputs taken from a solver model."""
import builtins
import io
import math
import os
import pathlib
import shutil
import sys
import tempfile

import numpy as np

from . import core, envs

SRC = os.environ.get("VALORI_SRC", "/repo/src")


class ConcViolation(core.PathEnd):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Crash(core.EngineSignal):
    pass


class ConcCtx:
    symbolic = False

    def __init__(self, params, inputs, opts=None):
        self.params, self.inputs = params, dict(inputs)
        self.names = {}
        self.obs = []
        self.labels = {}
        self.notes = []
        self.np = np
        self.missing = []
        self.violations = []
        self.used = set()
        self.opts = opts or {}
        self.fs = None
        self.undo = []

    def _name(self, n):
        if n in self.names:
            self.names[n] += 1
            return "%s#%d" % (n, self.names[n])
        self.names[n] = 0
        return n

    def _get(self, name, default):
        name = self._name(name)
        self.used.add(name)
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0.0))

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return builtins.int(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def flip(self, name):
        return bool(self.bool(name))

    def float(self, name, lo=None, hi=None, special=("nan", "inf", "-inf")):
        k = self.choice(name + ".kind", ["num"] + list(special))
        return self.real(name, lo, hi) if k == "num" else builtins.float(k)

    def str(self, name, length, alphabet=None):
        return self._get(name, "a" * builtins.int(length))

    def vec(self, name, d, lo=None, hi=None, dtype="float64"):
        return np.array([self.real("%s.%d" % (name, i), lo, hi) for i in range(d)], dtype=dtype)

    def mat(self, name, n, d, lo=None, hi=None, dtype="float64"):
        return np.array([[self.real("%s.%d.%d" % (name, i, j), lo, hi) for j in range(d)] for i in range(n)],
                        dtype=dtype).reshape(n, d)

    def perm(self, name, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.int(name, 0, len(items) - 1)))
        return out

    def assume(self, cond):
        if not cond:
            raise core.Infeasible()

    def check_that(self, cond, label, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(cond):
            raise ConcViolation(label, detail)

    def observe(self, label, value):
        self.obs.append((label, plain(value)))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def stop(self):
        raise core.StopHarness()

    def note(self, s):
        self.notes.append(s)


def plain(v):
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, np.generic):
        return plain(v.item())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, float):
        return v
    if isinstance(v, (int, bool, str)) or v is None:
        return v
    if isinstance(v, pathlib.PurePath):
        return str(v)
    return "<%s>" % type(v).__name__


# --------------------------------------------------------------------------
# real file system with numbered crash points
# --------------------------------------------------------------------------
class RealFS:
    """mirrors symfs step numbering on a scratch directory"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="valori-replay-")
        self.ROOT = self.root
        self.Path = pathlib.Path
        self.armed = None
        self.count = 0
        self.dead = False
        self.saved = []
        self.trace = []
        self.fail_open = None

    def inside(self, p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(self.root)
        except TypeError:
            return False

    def arm(self, maxstep, name="crash"):
        self.armed = self.ctx.int(name + ".step", 0, maxstep)
        self.count = 0

    def disarm(self):
        self.armed = None

    def step(self, what, torn=None):
        if self.dead:
            return False
        if self.armed is None:
            return True
        self.count += 1
        self.trace.append(what)
        if self.armed == self.count:
            if torn is not None and self.ctx.flip("crash.torn"):
                torn()
            self.dead = True
            raise Crash()
        return True

    def run(self, fn):
        try:
            fn()
            return True
        except Crash:
            return False
        finally:
            self.dead = False
            self.armed = None

    def parents(self):
        out = []
        for d, _, fl in os.walk(self.root):
            r = os.path.relpath(d, self.root)
            out += [tuple(r.split(os.sep)) if r != "." else ()] * len(fl)
        return out

    def write_text(self, p, text):
        with self.o_open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def write_bytes(self, p, data):
        with self.o_open(p, "wb") as f:
            f.write(data)

    def patch(self, obj, name, new):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def install(self):
        fs = self
        self.o_open = o_open = builtins.open
        self.cwd = os.getcwd()
        os.chdir(self.root)

        class F:
            """buffers everything until flush/close: one write step"""

            def __init__(self, path, mode, kw):
                self.__dict__["_real"] = o_open(path, mode, **kw)
                self.__dict__["_text"] = "b" not in mode
                self.__dict__["_buf"] = []
                self.__dict__["_closed"] = False
                # seekable binary output is assembled aside
                self.__dict__["_mem"] = io.BytesIO() if "b" in mode and "w" in mode else None

            def write(self, x):
                if self._mem is not None:
                    self._buf[:] = [1]
                    return self._mem.write(x)
                self._buf.append(x if isinstance(x, str) else bytes(x))
                return len(x)

            def writelines(self, ls):
                for l in ls:
                    self.write(l)

            def flush(self):
                if self._buf:
                    if self._mem is not None:
                        data = self._mem.getvalue()
                        if self._real.writable() and self._real.seekable():
                            self._real.seek(0)
                    else:
                        data = ("" if self._text else b"").join(self._buf)
                    self._buf.clear()

                    def torn():
                        self._real.write(data[:max(0, len(data) // 2)])
                        self._real.flush()
                    if fs.step("write", torn):
                        self._real.write(data)
                        self._real.flush()

            def close(self):
                if not self._closed:
                    self.__dict__["_closed"] = True
                    try:
                        if not fs.dead:
                            self.flush()
                    finally:
                        self._real.close()

            def __enter__(self): return self
            def __exit__(self, *a): self.close()
            def __iter__(self): return iter(self._real)
            def __getattr__(self, n):
                if self._mem is not None and n in ("seek", "tell", "truncate", "seekable", "writable", "readable"):
                    return getattr(self._mem, n)
                if n in ("read", "readline", "readlines", "seek", "tell", "truncate"):
                    self.flush()
                return getattr(self._real, n)

        def open_(file, mode="r", *a, **kw):
            if isinstance(file, int) or not fs.inside(file):
                return o_open(file, mode, *a, **kw)
            if fs.fail_open is not None:
                fs.fail_open(file, mode)
            if "r" in mode and "+" not in mode:
                return o_open(file, mode, *a, **kw)
            names = ("buffering", "encoding", "errors", "newline", "closefd", "opener")
            kw.update(zip(names, a))
            ex = os.path.exists(file)
            if "r" in mode:
                return F(file, mode, kw)
            if not ex:
                if not os.path.isdir(os.path.dirname(os.path.abspath(file))):
                    return o_open(file, mode, **kw)
                if fs.step("create"):
                    o_open(file, mode, **kw).close()
                    return F(file, mode if "x" not in mode else mode.replace("x", "w"), kw)
                return F(os.devnull, mode, kw)
            if "w" in mode and not os.path.isdir(file):
                if fs.step("truncate"):
                    return F(file, mode, kw)
                return F(os.devnull, mode, kw)
            return F(file, mode, kw)
        fds = {}

        def opened(fd, mode="r", *a, **kw):
            names = ("buffering", "encoding", "errors", "newline", "closefd", "opener")
            kw.update(zip(names, a))
            f = F(fds[fd], mode, {k: v for k, v in kw.items() if k not in ("closefd", "opener")})
            o_close(fd)
            return f

        def fdopen(fd, *a, **kw):
            return opened(fd, *a, **kw) if fd in fds else o_fdopen(fd, *a, **kw)
        o_fdopen, o_close, o_write, o_osopen = os.fdopen, os.close, os.write, os.open
        builtin = open_

        def open_(file, mode="r", *a, **kw):
            return opened(file, mode, *a, **kw) if isinstance(file, int) and file in fds else builtin(file, mode, *a, **kw)
        self.patch(builtins, "open", open_)
        self.patch(io, "open", open_)
        self.patch(os, "fdopen", fdopen)

        def os_open(path, flags, *a, **kw):
            if not fs.inside(path) or os.path.isdir(path) or not flags & (os.O_WRONLY | os.O_RDWR):
                return o_osopen(path, flags, *a, **kw)
            ex = os.path.exists(path)
            if fs.fail_open is not None:
                fs.fail_open(path, "wb")
            if not ex and flags & os.O_CREAT and os.path.isdir(os.path.dirname(os.path.abspath(path))):
                if not fs.step("create"):
                    path = os.devnull
            elif ex and flags & os.O_TRUNC and not flags & os.O_EXCL:
                if not fs.step("truncate"):
                    path = os.devnull
            fd = o_osopen(path, flags, *a, **kw)
            fds[fd] = path
            return fd

        def os_write(fd, data):
            if fd in fds:
                if not fs.step("write", lambda: o_write(fd, bytes(data)[:len(data) // 2])):
                    return len(data)
            return o_write(fd, data)

        def os_close(fd):
            fds.pop(fd, None)
            return o_close(fd)
        self.patch(os, "open", os_open)
        self.patch(os, "write", os_write)
        self.patch(os, "close", os_close)
        tmp = [0]

        def fresh(suffix, prefix, dir):
            tmp[0] += 1
            return os.path.join(os.fspath(dir), "%s%04d%s" % (prefix or "tmp", tmp[0], suffix or ""))
        o_named, o_mkstemp = tempfile.NamedTemporaryFile, tempfile.mkstemp

        class Named(F):
            def __init__(self, path, mode, kw, delete):
                F.__init__(self, path, mode, kw)
                self.__dict__["_del"] = path if delete else None

            def close(self):
                was = self._closed
                F.close(self)
                if not was and self._del and os.path.exists(self._del):
                    os.unlink(self._del)

        def named(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
            if dir is None or not fs.inside(dir):
                return o_named(mode, buffering, encoding, newline, suffix, prefix, dir, delete, **k)
            path = fresh(suffix, prefix, dir)
            if not fs.step("create"):
                path = os.devnull
            else:
                o_open(path, "wb").close()
            return Named(path, mode, {} if "b" in mode else {"encoding": encoding, "newline": newline}, delete and path != os.devnull)

        def mkstemp(suffix=None, prefix=None, dir=None, text=False):
            if dir is None or not fs.inside(dir):
                return o_mkstemp(suffix, prefix, dir, text)
            path = fresh(suffix, prefix, dir)
            flags = os.O_RDWR | os.O_CREAT
            target = path if fs.step("create") else os.devnull
            fd = o_osopen(target, flags, 0o600)
            fds[fd] = target
            return fd, path
        self.patch(tempfile, "NamedTemporaryFile", named)
        self.patch(tempfile, "mkstemp", mkstemp)

        def wrap(mod, name, label, pre):
            o = getattr(mod, name)

            def g(*a, **k):
                if a and fs.inside(a[0]) and pre(*a, **k):
                    if not fs.step(label):
                        return None
                return o(*a, **k)
            fs.patch(mod, name, g)
        isf = lambda p, *a, **k: os.path.lexists(p) and not os.path.isdir(p)
        wrap(os, "unlink", "unlink", isf)
        wrap(os, "remove", "unlink", isf)
        wrap(os, "replace", "rename", lambda a, b, *r, **k: os.path.lexists(a))
        wrap(os, "rename", "rename", lambda a, b, *r, **k: os.path.lexists(a))
        wrap(os, "mkdir", "mkdir", lambda p, *a, **k: not os.path.lexists(p) and os.path.isdir(os.path.dirname(os.path.abspath(p))))
        o_touch = pathlib.Path.touch

        def touch(self_, *a, **k):
            if fs.inside(self_) and not self_.exists():
                if not fs.step("create"):
                    return None
            return o_touch(self_, *a, **k)
        self.patch(pathlib.Path, "touch", touch)

        def npw(name, ext):
            o = getattr(np, name)

            def g(f, *a, **k):
                if hasattr(f, "write"):
                    return o(f, *a, **k)
                b = io.BytesIO()
                p = os.fspath(f)
                if not p.endswith(ext):
                    p += ext
                o(b, *a, **k)
                with builtins.open(p, "wb") as h:
                    h.write(b.getvalue())
            fs.patch(np, name, g)
        npw("save", ".npy")
        npw("savez", ".npz")
        npw("savez_compressed", ".npz")

    def remove(self):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        self.saved = []
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


def install_env(ctx, env):
    """ctx-driven stubs for nondeterminism, patched into the real libraries"""
    saved = []

    def patch(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    import random
    rs = envs.RandomStub()
    for n in ("sample", "choice", "choices", "randint", "randrange", "shuffle", "random", "uniform", "gauss"):
        patch(random, n, getattr(rs, n))
    patch(random, "Random", envs.RandomStub)
    npr = envs.NpRandomModule()
    if env.get("nprandom", True):
        patch(np.random, "RandomState", envs.NpRandom)
        patch(np.random, "default_rng", lambda *a: envs.NpRandom())
        for n in ("choice", "randn", "rand", "normal", "randint", "permutation", "uniform", "random"):
            patch(np.random, n, getattr(npr, n))
    if env.get("kmeans", True):
        import sklearn.cluster
        patch(sklearn.cluster, "KMeans", envs.KMeans)
        patch(sklearn.cluster, "MiniBatchKMeans", envs.KMeans)
    import concurrent.futures as cf
    patch(cf, "ThreadPoolExecutor", envs.ThreadPoolExecutor)
    patch(cf, "as_completed", envs.as_completed)
    patch(cf, "wait", envs.wait)
    return saved
