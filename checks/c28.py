"""C28  vector files round-trip, duplicates are found exactly"""
from .common import *  # noqa
from . import ints

PROPERTY = "C28"
SUFFIX = {"npz": ".npz", "pickle": ".pkl", "json": ".json"}
METAS = [{}, {"a": 1}, {"text": "gr\u00fc\u00df \u4f60", "list": [1, "x", None], "nested": {"k": {"z": 2.5}}}, {"": "", "flag": True, "none": None},
         {"vectors": [1], "metadata": {}, "shape": 3}, {"neg": -7, "big": 2 ** 40, "f": 0.1}]


def H(ctx):
    return ctx.mod("valori.utils.helpers")


def files(ctx):
    """save, load; overwriting and a second file do not interfere"""
    p = ctx.params
    h = H(ctx)
    n, d = ctx.choice("shape", p["shapes"])
    fmt = p["format"]
    dt = ctx.choice("dtype", p["dtypes"])
    if dt == "int64":
        X = ctx.np.array([[ctx.int("i", -5, 5) for _ in range(d)] for _ in range(n)], dtype=dt).reshape(n, d)
    elif n and d:
        X = ctx.mat("x", n, d, -9, 9, dt)
    else:
        X = ctx.np.zeros((n, d), dtype=dt)
    R = rows(X)
    meta = [ctx.choice("m", p["metas"]) for _ in range(n)]
    old = ctx.choice("old", p["old"])
    path = ctx.fs.ROOT + "/" + ctx.choice("name", p["names"]) + SUFFIX[fmt]
    path = ctx.fs.Path(path) if ctx.flip("pathobj") else path
    if old:
        h.save_vectors_to_file(ctx.np.ones((3, 2)), [{"old": i} for i in range(3)], path, fmt)
    args = () if fmt == "npz" and ctx.flip("default") else (fmt,)
    import copy
    before = copy.deepcopy(meta)
    h.save_vectors_to_file(X, meta, path, *args)
    ctx.check_that(meta == before and meq(R, X), "saving does not change its arguments")
    if ctx.flip("other"):
        h.save_vectors_to_file(ctx.np.zeros((1, 1)), [{"other": 1}], ctx.fs.ROOT + "/other" + SUFFIX[fmt], fmt)
    Y, m2 = h.load_vectors_from_file(path)
    ctx.check_that(tuple(Y.shape) == (n, d), "same shape", Y.shape)
    ctx.check_that(meq(R, Y), "same values")
    ctx.check_that(isinstance(m2, list) and m2 == meta and [type(x) for x in m2] == [dict] * n, "same metadata", m2)
    if fmt != "json":
        ctx.check_that(str(Y.dtype) == dt, "same type", Y.dtype)
    Z, m3 = h.load_vectors_from_file(path)
    ctx.check_that(meq(R, Z) and m3 == meta, "loading again gives the same")
    ctx.reach("end")


def precise(ctx):
    """not a bit is lost"""
    p = ctx.params
    h = H(ctx)
    dt = ctx.choice("dtype", ["float64", "float32"])
    vals = [1 / 3, -1e-9, 123456.7890123456, 2.0 ** -149 if dt == "float32" else 5e-324, 3.4e38 if dt == "float32" else -1.7e308, 0.1 + 0.2, -0.0, 16777217.0]
    X = ctx.np.array([[v, 1.0] for v in vals], dtype=dt)
    meta = [{"f": v, "i": 2 ** 60 + 1} for v in vals]
    path = ctx.fs.ROOT + "/v" + SUFFIX[p["format"]]
    want = [[float(x) for x in r] for r in X]
    h.save_vectors_to_file(X, meta, path, p["format"])
    Y, m2 = h.load_vectors_from_file(path)
    ctx.check_that([[float(x) for x in r] for r in Y] == want, "exactly the same values", want)
    ctx.check_that(list(m2) == meta, "exactly the same metadata", m2)
    ctx.reach("end")


def refused(ctx):
    h = H(ctx)
    V = ctx.mod("valori.exceptions").ValidationError
    path = ctx.fs.ROOT + "/v" + ctx.choice("suffix", [".npz", ".pkl", ".json", "", ".txt"])
    X = ctx.mat("x", 1, 2, -1, 1)
    fmt = ctx.choice("format", ["", "NPZ", "csv", None, "pkl"])
    stored = path.endswith(".npz")
    if stored:
        h.save_vectors_to_file(X, [{"a": 1}], path)
    r, e = attempt(lambda: h.save_vectors_to_file(ctx.np.zeros((2, 2)), [{}, {}], path, fmt), V)
    ctx.check_that(e is not None, "an unknown format is refused", fmt)
    if stored:
        Y, m = h.load_vectors_from_file(path)
        ctx.check_that(meq(rows(X), Y) and m == [{"a": 1}], "and leaves the file alone")
    else:
        ctx.check_that(not ctx.fs.Path(path).exists(), "and writes nothing")
    if path.endswith("v") or path.endswith(".txt"):
        ctx.fs.write_text(path, "x")
        r, e = attempt(lambda: h.load_vectors_from_file(path), V)
        ctx.check_that(e is not None, "an unknown suffix is refused", path)
    ctx.reach("end")


def duplicates(ctx):
    """groups: disjoint, led by their smallest index, exactly the vectors that reach the
    threshold with the leader and belong to no earlier group"""
    p = ctx.params
    h = H(ctx)
    n, metric = p["n"], p["metric"]
    R = [[ctx.real("x", -4, 4) for _ in range(p["d"])] for _ in range(p["free"])]
    R += [list(ctx.choice("row", p["pool"])) for _ in range(n - p["free"])]
    M = ctx.np.array(R).reshape(n, p["d"])
    t = ctx.choice("t", p["ts"]) if p.get("ts") else ctx.real("t", -2, 2)
    G = h.find_duplicates(M, t, metric) if p.get("ts") != [None] else h.find_duplicates(M)
    if t is None:
        t = 0.99
    S = [[sim(metric, a, b) for b in R] for a in R]
    if not p.get("exact"):
        ctx.assume(AND([OR(S[i][j] >= t + 1e-4, S[i][j] <= t - 1e-4) for i in range(n) for j in range(i)]))
    want, used = [], set()
    for i in range(n):
        if i in used:
            continue
        g = [i] + [j for j in range(i + 1, n) if j not in used and bool(S[i][j] >= t)]
        used.update(g)
        if len(g) > 1:
            want.append(g)
    got = [[int(i) for i in g] for g in G]
    ctx.check_that(got == want, "exactly the groups that reach the threshold", (got, want))
    ctx.check_that(meq(R, M), "argument unchanged")
    ctx.reach("group" if got else "none")


def crowd(ctx):
    """duplicates among many vectors, wherever they are"""
    p = ctx.params
    n, metric = p["n"], p["metric"]
    # pairwise far apart in every metric used: directions around the circle, growing length
    import math
    R = [[math.cos(i * 3.1 / n) * (1 + i), math.sin(i * 3.1 / n) * (1 + i)] for i in range(n)]
    a, b, c = ctx.choice("where", p["where"])
    x = ctx.choice("x", [-0.24, 0.24, 0.26, -0.26]) if p["metric"] == "euclidean" else 0.0
    R[b] = list(R[a])
    R[c] = [R[a][0] + x, R[a][1]] if metric == "euclidean" else list(R[a])
    t = 0.8 if metric == "euclidean" else 0.99999
    near = metric != "euclidean" or bool(abs(x) <= 0.25)
    got = [[int(i) for i in g] for g in H(ctx).find_duplicates(ctx.np.array(R), t, metric)]
    want = [sorted([a, b, c])] if near else [sorted([a, b])]
    ctx.check_that(got == want, "exactly the groups that reach the threshold", (got, want))
    ctx.reach("end")


def large(ctx):
    """files of many vectors"""
    p = ctx.params
    h = H(ctx)
    n, fmt = p["n"], p["format"]
    R = [[float(i), i / 8] for i in range(n)]
    at = ctx.choice("row", p["at"])
    R[at] = list(ctx.vec("x", 2, -9, 9))
    meta = [{"i": i, "t": "text %d" % i} if i % 3 else {} for i in range(n)]
    path = ctx.fs.ROOT + "/v" + SUFFIX[fmt]
    h.save_vectors_to_file(ctx.np.array(R), meta, path, fmt)
    Y, m = h.load_vectors_from_file(path)
    ctx.check_that(tuple(Y.shape) == (n, 2) and meq(R, Y), "same values")
    ctx.check_that(list(m) == meta, "same metadata")
    ctx.reach("end")


def sim(metric, a, b):
    dp = sum((x * y for x, y in zip(a, b)), start=0.0)
    if metric == "dot":
        return dp
    if metric == "euclidean":
        return 1 / (1 + sqrt(sum(((x - y) * (x - y) for x, y in zip(a, b)), start=0.0)))
    na, nb = sum((x * x for x in a), start=0.0), sum((x * x for x in b), start=0.0)
    if bool(na == 0) or bool(nb == 0):
        return 0.0
    return dp / (sqrt(na) * sqrt(nb))


def integers(ctx):
    """duplicates among integer and boolean vectors are those among the same numbers"""
    p = ctx.params
    dt, R, F = ints.pick(ctx, p["n"], p["d"], free=False)
    t = ctx.choice("t", [0.95, 0.5, 0.009])
    got = [H(ctx).find_duplicates(ctx.np.array(M, dtype=d), t, p["metric"]) for M, d in ((R, dt), (F, "float64"))]
    ctx.check_that(got[0] == got[1], "the same groups", got)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for f in ("npz", "pickle", "json"):
        add("file-" + f, "files", format=f, shapes=[(1, 2), (2, 1), (0, 2), (0, 0)], dtypes=["float32", "float64", "int64"], metas=METAS[:3], old=[False, True], names=["v"])
        add("meta-" + f, "files", format=f, shapes=[(2, 1)], dtypes=["float64"], metas=METAS, old=[False], names=["v.x", "d \u00e9"])
        add("precise-" + f, "precise", format=f)
    for f in ("npz", "pickle", "json"):
        add("large-" + f, "large", format=f, n=1100, at=[0, 999, 1024, 1099])
    for m in ("cosine", "euclidean"):
        add("dup-crowd-" + m, "crowd", metric=m, n=70, where=[(0, 1, 69), (3, 63, 64), (66, 67, 68), (31, 32, 50)])
    add("refused", "refused")
    P = [[0.0, 0.0], [3.0, 4.0], [-2.0, 0.0], [6.0, 8.0]]
    e = ["group", "none"]
    add("dup-dot", "duplicates", e, metric="dot", n=3, d=2, free=1, pool=P)
    add("dup-dot-4", "duplicates", e, metric="dot", n=4, d=1, free=1, pool=[[1.0], [-2.0]], ts=[0.5, 2.0])
    add("dup-cosine", "duplicates", e, metric="cosine", n=3, d=2, free=0, pool=P)
    add("dup-cosine-free", "duplicates", e, metric="cosine", n=2, d=2, free=1, pool=P, ts=[0.8, 0.0])
    add("dup-cosine-default", "duplicates", e, metric="cosine", n=2, d=2, free=1, pool=P[1:3], ts=[None])
    add("dup-euclidean", "duplicates", e, metric="euclidean", n=3, d=2, free=0, pool=P)
    add("dup-euclidean-free", "duplicates", e, metric="euclidean", n=3, d=1, free=2, pool=[[0.0], [1.0]], ts=[0.25])
    add("dup-euclidean-4", "duplicates", e, metric="euclidean", n=4, d=1, free=1, pool=[[0.0], [1.0], [2.0]], ts=[0.6])
    add("dup-dot-exact", "duplicates", e, metric="dot", n=3, d=2, free=0, pool=[[0.0, 1.0], [2.0, 1.0], [1.0, -1.0]], ts=[1.0, 5.0, 0.0, -1.0], exact=True)
    add("dup-euclidean-exact", "duplicates", e, metric="euclidean", n=3, d=1, free=0, pool=[[0.0], [1.0], [3.0]], ts=[1.0, 0.5, 0.25], exact=True)
    add("dup-few", "duplicates", ["none"], metric="cosine", n=1, d=2, free=1, pool=P)
    add("dup-empty", "duplicates", ["none"], metric="cosine", n=0, d=2, free=0, pool=P)
    if T:
        add("dup-dot-5", "duplicates", e, metric="dot", n=5, d=1, free=1, pool=[[1.0], [-2.0], [0.0]])
        add("dup-euclidean-3", "duplicates", e, metric="euclidean", n=3, d=1, free=3, pool=[], ts=[0.25, 0.6])
    for m in ("cosine", "euclidean", "dot"):
        out.append(dict(name="dup-integers-" + m, fn="integers", n=4, d=2, metric=m, expect=["end"], bounds="4 vectors of 2 integers of several widths"))
    return out
