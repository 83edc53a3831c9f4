"""Environment stubs.  The same stub classes serve the symbolic run and the concrete
replay: every nondeterministic result is drawn from the context (solver variable or
model value)."""
import math
import types

from . import core


def C():
    return core.CTX


# --------------------------------------------------------------------------
# random
# --------------------------------------------------------------------------
class RandomStub:
    """random.Random contract: any value allowed by the documented range"""

    def __init__(self, seed=None):
        pass

    def seed(self, *a, **k): pass
    def getstate(self): return None
    def setstate(self, s): pass

    def sample(self, population, k, **kw):
        if isinstance(population, (set, frozenset, dict)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        items = list(population)
        k = int(k)
        if k < 0 or k > len(items):
            raise ValueError("Sample larger than population or is negative")
        if getattr(C(), "rnd_seeded", None):
            return [items[i] for i in sorted(C().rnd_seeded.sample(range(len(items)), k))]
        out = []
        lo = 0
        for j in range(k):          # which elements: symbolic; order: population order
            i = int(C().int("rnd.sample", lo, len(items) - k + j))
            out.append(items[i])
            lo = i + 1
        return out

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        if getattr(C(), "rnd_seeded", None):
            return C().rnd_seeded.choice(seq)
        return seq[int(C().int("rnd.choice", 0, len(seq) - 1))]

    def choices(self, seq, weights=None, k=1, **kw):
        return [self.choice(seq) for _ in range(k)]

    def randint(self, a, b): return int(C().int("rnd.randint", int(a), int(b)))
    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        return int(C().int("rnd.randrange", int(a), int(b) - 1))

    def shuffle(self, x):
        x[:] = C().perm("rnd.shuffle", list(x))

    def random(self):
        """below / above one half, at most params['rnd_small'] draws below"""
        c = C()
        if getattr(c, "rnd_seeded", None):      # large scenarios: a fixed generator
            return c.rnd_seeded.random()
        n = getattr(c, "rnd_small", 0)
        if n >= c.params.get("rnd_small", 3) or c.flip("rnd.random"):
            return 0.75
        c.rnd_small = n + 1
        return 0.25

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self, mu=0, s=1): return mu + s * C().choice("rnd.gauss", [0.5, -1.0])
    normalvariate = gauss


class NpRandom:
    """numpy RandomState / Generator contract: arbitrary reals for normals, arbitrary
    members of the range for the rest"""

    def __init__(self, *a, **k):
        pass

    def _arr(self, shape, name, lo, hi, dtype="float64"):
        c = C()
        n = 1
        for s in shape:
            n *= int(s)
        r = getattr(c, "rnd_seeded", None)
        vals = [round(r.uniform(lo, hi), 3) if r else c.real(name, lo, hi) for _ in range(n)]
        return c.np.array(vals, dtype=dtype).reshape(tuple(int(s) for s in shape)) if shape else vals[0]

    @staticmethod
    def _sh(size):
        if size is None:
            return ()
        return (int(size),) if isinstance(size, int) else tuple(size)

    def randn(self, *shape): return self._arr(shape, "rnd.n", -3, 3)
    def standard_normal(self, size=None): return self._arr(self._sh(size), "rnd.n", -3, 3)
    def normal(self, loc=0.0, scale=1.0, size=None):
        a = self._arr(self._sh(size), "rnd.n", -3, 3)
        return a if (loc == 0 and scale == 1) else a * scale + loc

    def rand(self, *shape): return self._arr(shape, "rnd.u", 0, 0.999)
    def random(self, size=None): return self._arr(self._sh(size), "rnd.u", 0, 0.999)
    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        a = self._arr(self._sh(size), "rnd.u", 0, 0.999)
        return a if (low == 0 and high == 1) else a * (high - low) + low

    def choice(self, a, size=None, replace=True, p=None):
        c = C()
        n = int(a) if isinstance(a, int) else len(a)
        items = list(range(n)) if isinstance(a, int) else list(a)
        if size is None:
            return items[int(c.int("rnd.choice", 0, n - 1))]
        k = int(size)
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        out = []
        for _ in range(k):
            i = int(c.int("rnd.choice", 0, len(items) - 1))
            out.append(items[i])
            if not replace:
                items.pop(i)
        return c.np.array(out)

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        c = C()
        if size is None:
            return int(c.int("rnd.randint", int(low), int(high) - 1))
        sh = self._sh(size)
        n = 1
        for s in sh:
            n *= s
        return c.np.array([int(c.int("rnd.randint", int(low), int(high) - 1)) for _ in range(n)]).reshape(sh)
    integers = randint

    def permutation(self, x):
        c = C()
        items = list(range(x)) if isinstance(x, int) else list(x)
        return c.np.array(c.perm("rnd.perm", items))

    def shuffle(self, x):
        x[:] = C().perm("rnd.shuffle", list(x))

    def seed(self, *a): pass


class NpRandomModule(NpRandom):
    RandomState = NpRandom
    Generator = NpRandom

    @staticmethod
    def default_rng(*a): return NpRandom()


# --------------------------------------------------------------------------
# sklearn
# --------------------------------------------------------------------------
def _finite(X, what="Input X"):
    np = C().np
    if bool(np.any(np.isnan(X))) or bool(np.any(np.isinf(X))):
        raise ValueError("%s contains NaN or infinity." % what)


def _check2d(X, name="X"):
    np = C().np
    X = np.asarray(X)
    if X.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
    if X.shape[0] == 0 or X.shape[1] == 0:
        raise ValueError("Found array with 0 sample(s) or feature(s) while a minimum of 1 is required.")
    _finite(X)
    if X.dtype.kind in "iub":
        X = X.astype("float64")
    return X


class KMeans:
    """Contract: a partition of the samples into k clusters, no cluster empty, each
    centre the mean of its members; ValueError on NaN or fewer samples than clusters."""

    def __init__(self, n_clusters=8, *, init="k-means++", n_init="auto", max_iter=300, tol=1e-4, verbose=0,
                 random_state=None, copy_x=True, algorithm="lloyd", batch_size=1024, **k):
        self.n_clusters = n_clusters

    def fit(self, X, y=None, sample_weight=None):
        c = C()
        np = c.np
        X = _check2d(X)
        k, n = int(self.n_clusters), X.shape[0]
        if k < 1:
            raise ValueError("n_clusters must be positive")
        if n < k:
            raise ValueError("n_samples=%d should be >= n_clusters=%d." % (n, k))
        labels = []
        r = getattr(c, "rnd_seeded", None)
        few = c.params.get("kmeans_empty")      # the samples are known to have fewer distinct points than k
        for i in range(n):
            used = (max(labels) + 1) if labels else 0
            hi = min(used, k - 1)
            lo = 0
            if k - used >= n - i and not few:           # must open a new cluster now
                lo = used
            labels.append(r.randint(lo, hi) if r else int(c.int("kmeans.label", lo, hi)))
        cen = []
        for j in range(k):
            m = [i for i in range(n) if labels[i] == j]
            if not m:                       # fewer distinct samples than clusters
                cen.append(X[0] + 0.0)
                continue
            s = X[m[0]]
            for i in m[1:]:
                s = s + X[i]
            cen.append(s / len(m) if len(m) > 1 else s)
        self.cluster_centers_ = np.array([[v for v in row] for row in cen], dtype=X.dtype)
        self.labels_ = np.array(labels)
        self.inertia_ = 0.0
        self.n_iter_ = 1
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_

    def predict(self, X):
        np = C().np
        X = _check2d(X)
        d = [[np.sum((X[i] - self.cluster_centers_[j]) ** 2) for j in range(len(self.cluster_centers_))] for i in range(len(X))]
        return np.argmin(np.array(d), axis=1)


class StandardScaler:
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean, self.with_std = with_mean, with_std

    def fit(self, X, y=None):
        np = C().np
        X = _check2d(X)
        self.mean_ = np.mean(X, axis=0)
        self.var_ = np.var(X, axis=0)
        s = np.sqrt(self.var_)
        sc = []
        for i in range(len(s)):
            sc.append(1.0 if bool(s[i] == 0) else s[i])
        self.scale_ = np.array(sc)
        self.n_features_in_ = X.shape[1]
        return self

    def _chk(self, X):
        X = _check2d(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but StandardScaler is expecting %d features as input." % (X.shape[1], self.n_features_in_))
        return X

    def transform(self, X):
        if not hasattr(self, "scale_"):
            raise ValueError("This StandardScaler instance is not fitted yet.")
        return (self._chk(X) - self.mean_) / self.scale_

    def fit_transform(self, X, y=None): return self.fit(X).transform(X)
    def inverse_transform(self, X): return C().np.asarray(X) * self.scale_ + self.mean_


def cosine_similarity(X, Y=None, dense_output=True):
    np = C().np
    X = _check2d(X)
    Y = X if Y is None else _check2d(Y)
    if X.shape[1] != Y.shape[1]:
        raise ValueError("Incompatible dimension for X and Y matrices: X.shape[1] == %d while Y.shape[1] == %d" % (X.shape[1], Y.shape[1]))

    def norm(M):
        out = []
        for i in range(M.shape[0]):
            nr = np.linalg.norm(M[i])
            out.append(M[i] if bool(nr == 0) else M[i] / nr)
        return out
    a, b = norm(X), norm(Y)
    return np.array([[np.dot(x, y) for y in b] for x in a])


def euclidean_distances(X, Y=None, **k):
    np = C().np
    X = _check2d(X)
    Y = X if Y is None else _check2d(Y)
    if X.shape[1] != Y.shape[1]:
        raise ValueError("Incompatible dimension for X and Y matrices: X.shape[1] == %d while Y.shape[1] == %d" % (X.shape[1], Y.shape[1]))
    return np.array([[np.linalg.norm(X[i] - Y[j]) for j in range(Y.shape[0])] for i in range(X.shape[0])])


def manhattan_distances(X, Y=None, **k):
    np = C().np
    X = _check2d(X)
    Y = X if Y is None else _check2d(Y)
    if X.shape[1] != Y.shape[1]:
        raise ValueError("Incompatible dimension for X and Y matrices")
    return np.array([[np.sum(np.abs(X[i] - Y[j])) for j in range(Y.shape[0])] for i in range(X.shape[0])])


# --------------------------------------------------------------------------
# annoy (symbolic mode only; replays use the real library)
# --------------------------------------------------------------------------
class AnnoyIndex:
    def __init__(self, f, metric="angular"):
        self.f, self.metric = int(f), metric
        if metric not in ("angular", "euclidean", "manhattan", "hamming", "dot"):
            raise ValueError("No such metric")
        self.items = {}
        self.built = False
        self.loaded = False

    def set_seed(self, s): pass
    def verbose(self, v): return True
    def on_disk_build(self, path):
        fs = C().fs
        with fs.open(path, "wb") as f:
            f.write(b"")
        return True

    def _vec(self, v):
        v = list(v)
        if len(v) != self.f:
            raise IndexError("Vector has wrong length (expected %d, got %d)" % (self.f, len(v)))
        return v

    def add_item(self, i, v):
        if self.loaded or self.built:
            raise Exception("You can't add an item to a loaded index")
        if int(i) < 0:
            raise IndexError("Item index can not be negative")
        self.items[int(i)] = self._vec(v)

    def build(self, n_trees, n_jobs=-1):
        if self.loaded:
            raise Exception("You can't build a loaded index")
        if self.built:
            raise Exception("You can't build a built index")
        self.built = True
        return True

    def unbuild(self):
        if self.loaded:
            raise Exception("You can't unbuild a loaded index")
        self.built = False
        return True

    def unload(self):
        self.items, self.built, self.loaded = {}, False, False
        return True

    def get_n_items(self): return (max(self.items) + 1) if self.items else 0
    def get_n_trees(self): return 1 if self.built else 0

    def get_item_vector(self, i):
        if not 0 <= i < self.get_n_items():
            raise IndexError("Item index larger than the largest item index")
        return list(self.items.get(i, [0.0] * self.f))

    def _dist(self, a, b):
        np = C().np
        a, b = np.array(a), np.array(b)
        if self.metric == "euclidean":
            return np.linalg.norm(a - b)
        if self.metric == "manhattan":
            return np.sum(np.abs(a - b))
        if self.metric == "dot":
            return np.dot(a, b)
        if self.metric == "hamming":
            return np.sum(np.abs(a - b))
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if bool(na == 0) or bool(nb == 0):
            return 2 ** 0.5
        cs = np.dot(a, b) / (na * nb)
        x = 2.0 - 2.0 * cs
        if bool(x < 0):
            x = 0.0
        return np.sqrt(x)

    def _nns(self, v, n, include):
        if not self.built:
            return ([], []) if include else []
        ds = []
        for i in range(self.get_n_items()):
            ds.append((self._dist(v, self.get_item_vector(i)), i))
        out = []
        for d, i in ds:
            j = len(out)
            while j > 0 and (bool(d > out[j - 1][0]) if self.metric == "dot" else bool(d < out[j - 1][0])):
                j -= 1
            out.insert(j, (d, i))
        out = out[:int(n)]
        ids = [i for d, i in out]
        return (ids, [d for d, i in out]) if include else ids

    def get_nns_by_vector(self, v, n, search_k=-1, include_distances=False):
        return self._nns(self._vec(v), n, include_distances)

    def get_nns_by_item(self, i, n, search_k=-1, include_distances=False):
        return self._nns(self.get_item_vector(i), n, include_distances)

    def get_distance(self, i, j):
        return self._dist(self.get_item_vector(i), self.get_item_vector(j))

    def save(self, path, prefault=False):
        from .symfs import Blob
        if not self.built:
            raise Exception("You can't save an index that hasn't been built")
        with C().fs.open(path, "wb") as f:
            f.write(Blob("annoy", (self.f, dict(self.items))))
        self.loaded = True
        return True

    def load(self, path, prefault=False):
        from .symfs import Blob
        n = C().fs.get(path)
        if n is None:
            raise OSError(2, "Unable to open: No such file or directory")
        it = n.data[0] if n.data else None
        if not isinstance(it, Blob) or it.kind != "annoy":
            raise OSError("Index size is not a multiple of vector size")
        f, items = it.obj
        self.items = dict(items)
        self.built = self.loaded = True
        return True


# --------------------------------------------------------------------------
# concurrent.futures: tasks are atomic; execution order and completion order are
# independent arbitrary permutations
# --------------------------------------------------------------------------
class Future:
    def __init__(self, pool, fn, a, k):
        self.pool, self.fn, self.a, self.k = pool, fn, a, k
        self._done = False
        self._exc = self._res = None

    def _run(self):
        if self._done:
            return
        self._done = True
        try:
            self._res = self.fn(*self.a, **self.k)
        except Exception as e:
            self._exc = e

    def done(self): return self._done
    def cancel(self): return False
    def cancelled(self): return False
    def running(self): return False

    def result(self, timeout=None):
        self.pool._run_all()
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self, timeout=None):
        self.pool._run_all()
        return self._exc

    def add_done_callback(self, cb):
        self.pool._run_all()
        cb(self)


def any_order(name, xs):
    """every order of a few tasks, four orders of many"""
    xs = list(xs)
    if len(xs) <= 5:
        return C().perm(name, xs)
    h = len(xs) // 2
    return {"same": xs, "reversed": xs[::-1], "halves": xs[h:] + xs[:h], "even first": xs[::2] + xs[1::2]}[C().choice(name + ".order", ["same", "reversed", "halves", "even first"])]


class ThreadPoolExecutor:
    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.pending = []
        self.open = True

    def submit(self, fn, *a, **k):
        if not self.open:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future(self, fn, a, k)
        self.pending.append(f)
        return f

    def _run_all(self):
        p, self.pending = self.pending, []
        bound = getattr(C(), "pool_preemptions", None)
        if bound is not None and len(p) > 1:
            for t in C().threads([f._run for f in p], bound):
                if t.error is not None:
                    raise t.error
            return
        for f in any_order("pool.exec", p):
            f._run()

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, **k):
        self._run_all()
        self.open = False

    def __enter__(self): return self

    def __exit__(self, *a):
        if a[0] is None or issubclass(a[0], Exception):
            self.shutdown()


def as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.pool._run_all()
    for f in any_order("pool.done", fs):
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    for f in fs:
        f.pool._run_all()
    return types.SimpleNamespace(done=set(fs), not_done=set())


# --------------------------------------------------------------------------
class UUID:
    def __init__(self, n):
        self.n = n

    def __str__(self): return "00000000-0000-4000-8000-%012d" % self.n
    __repr__ = __str__
    @property
    def hex(self): return str(self).replace("-", "")
    @property
    def int(self): return self.n
    def __eq__(self, o): return isinstance(o, UUID) and o.n == self.n
    def __hash__(self): return hash(self.n)


def mk_uuid():
    m = types.ModuleType("uuid")
    st = {"n": 0}

    def uuid4():
        st["n"] += 1
        return UUID(st["n"])
    m.uuid4 = m.uuid1 = uuid4
    m.UUID = UUID
    return m


class Clock:
    def __init__(self):
        self.t = 1000.0

    def now(self):
        self.t += 1.0
        return self.t


def mk_time():
    m = types.ModuleType("time")
    c = Clock()
    m.time = m.perf_counter = m.monotonic = m.process_time = c.now
    m.time_ns = m.perf_counter_ns = m.monotonic_ns = lambda: int(c.now() * 10 ** 9)
    m.sleep = lambda s: None
    import time as _t
    m.strftime, m.localtime, m.gmtime = _t.strftime, _t.localtime, _t.gmtime
    return m


class DummyLock:
    """single-threaded runs: re-acquiring a plain lock is a deadlock"""
    reentrant = False

    def __init__(self):
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.n and not self.reentrant:
            if not blocking:
                return False
            raise core.Unsupported("deadlock: lock acquired twice by one thread")
        self.n += 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self): return self.n > 0
    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        if self.n:
            self.n -= 1

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")


class DummyRLock(DummyLock):
    reentrant = True


class Digest:
    def __init__(self, name, parts=()):
        self.name_, self.parts = name, list(parts)

    def update(self, b):
        self.parts.append(b)

    def copy(self): return Digest(self.name_, self.parts)

    def hexdigest(self):
        from .symstr import Opaque, SymEnc
        from .nparr import SymBytes
        import hashlib
        if all(isinstance(p, (bytes, bytearray)) for p in self.parts):
            return getattr(hashlib, self.name_)(b"".join(self.parts)).hexdigest()
        ps = []
        for p in self.parts:
            if isinstance(p, SymEnc):
                ps.append(("s", p.s))
            elif isinstance(p, SymBytes):
                ps.append(("a",) + p.v)
            else:
                ps.append(("o", p))
        return Opaque(("hash", self.name_, tuple(ps)),)

    def digest(self):
        return self.hexdigest()


def mk_hashlib():
    m = types.ModuleType("hashlib")
    for n in ("md5", "sha1", "sha256", "sha512", "sha384", "sha224", "blake2b", "blake2s"):
        def f(data=b"", n=n, **k):
            d = Digest(n)
            if not (isinstance(data, bytes) and not data):
                d.update(data)
            return d
        setattr(m, n, f)
    m.new = lambda n, data=b"", **k: getattr(m, n)(data)
    return m


def mk_math():
    from .core import SymInt, SymReal, is_sym
    m = types.ModuleType("math")
    for n in dir(math):
        setattr(m, n, getattr(math, n))

    def w(name, f):
        real = getattr(math, name)

        def g(*a):
            if any(is_sym(x) for x in a):
                return f(*a)
            return real(*a)
        setattr(m, name, g)
    w("isnan", lambda x: False)
    w("isinf", lambda x: False)
    w("isfinite", lambda x: True)
    w("floor", lambda x: x.__floor__())
    w("ceil", lambda x: x.__ceil__())
    w("trunc", lambda x: x.trunc_int() if isinstance(x, SymReal) else x)
    w("fabs", lambda x: abs(SymReal.lift(x)))

    def sq(x):
        x = SymReal.lift(x)
        if bool(x < 0):
            raise ValueError("math domain error")
        return x.sqrt()
    w("sqrt", sq)
    w("hypot", lambda *a: sq(sum(x * x for x in a)))

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)
    m.isclose = lambda a, b, **k: isclose(a, b, **k) if is_sym(a) or is_sym(b) else math.isclose(a, b, **k)

    def fsum(xs):
        t = 0.0
        for x in xs:
            t = t + x
        return t
    m.fsum = fsum
    return m


def mk_sklearn():
    mods = {}

    def mod(name, **kw):
        m = types.ModuleType(name)
        for k, v in kw.items():
            setattr(m, k, v)
        mods[name] = m
        return m

    class PCA:
        """constructed by SAQ but never used for a projection"""
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, k):
            raise core.Unsupported("PCA." + k)
    cl = mod("sklearn.cluster", KMeans=KMeans, MiniBatchKMeans=KMeans)
    pp = mod("sklearn.preprocessing", StandardScaler=StandardScaler)
    pw = mod("sklearn.metrics.pairwise", cosine_similarity=cosine_similarity,
             euclidean_distances=euclidean_distances, manhattan_distances=manhattan_distances)
    me = mod("sklearn.metrics", pairwise=pw)
    de = mod("sklearn.decomposition", PCA=PCA)
    mod("sklearn", cluster=cl, preprocessing=pp, metrics=me, decomposition=de)
    return mods
