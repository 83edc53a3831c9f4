"""C21  validators accept exactly what they document"""
import copy

from .common import *  # noqa

PROPERTY = "C21"
NAN, INF = float("nan"), float("inf")


def verdict(ctx, fn, want, label, detail=""):
    """accepted with True, or refused with the library's ValidationError"""
    V = ctx.mod("valori.exceptions").ValidationError
    r, e = attempt(fn, V)
    if bool(want):
        ctx.check_that(e is None and r is True, "accepted: " + label, detail)
        ctx.reach("accepted")
    else:
        ctx.check_that(e is not None, "refused: " + label, detail)
        ctx.reach("refused")


def finite(v):
    return AND([isnum(x) for x in v])


def vector(ctx):
    p = ctx.params
    W = ctx.mod("valori.utils.validation")
    d = ctx.choice("d", p["d"])
    batch = p.get("batch", 0)
    n = ctx.choice("n", [0, 1, batch]) if batch else 1
    vals = [[ctx.choice("v", p["vals"]) if ctx.flip("special") else ctx.real("x", -2, 2) for _ in range(d)] for _ in range(n)]
    A = ctx.np.array(vals, dtype=p.get("dtype", "float64")).reshape((n, d) if batch else (d,))
    kw = {}
    lo, hi = ctx.choice("min", p["lim"]), ctx.choice("max", p["lim"])
    dt = ctx.choice("dtype", [None, "float64", "float32"]) if p.get("dts") else None
    if dt:
        kw["dtype"] = getattr(ctx.np, dt) if ctx.flip("type object") else ctx.np.dtype(dt)
    if lo is not None:
        kw["min_dim"] = lo
    if hi is not None:
        kw["max_dim"] = hi
    if ctx.flip("nozero"):
        kw["allow_zero"] = False
    want = AND(d > 0, n > 0, lo is None or d >= lo, hi is None or d <= hi, dt in (None, p.get("dtype", "float64")), AND([finite(r) for r in vals]))
    if "allow_zero" in kw and bool(want):
        want = AND([OR([x != 0 for x in r]) for r in vals])
    f = W.validate_vectors if batch else W.validate_vector
    verdict(ctx, lambda: f(A, **kw), want, "vectors" if batch else "vector")
    got = rows(A) if batch else [list(A)]
    ctx.check_that(AND([AND([AND(x == y) if isnum(x) else True for x, y in zip(a, b)]) for a, b in zip(vals, got)]), "argument unchanged")


def extreme(ctx):
    """finite numbers next to the ends of the type's range are finite, and the smallest ones are not zero"""
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    n = ctx.choice("n", [1, 2])
    V = [[ctx.choice("v", p["vals"]) for _ in range(2)] for _ in range(n)]
    A = ctx.np.array(V, dtype=p["dtype"])
    zero = ctx.flip("zero refused")
    want = not zero or all(any(r) for r in V)
    verdict(ctx, lambda: W.validate_vectors(A, allow_zero=not zero), want, "vectors", V)
    want = not zero or any(V[0])
    verdict(ctx, lambda: W.validate_vector(A[0], allow_zero=not zero), want, "vector", V)


def kinds(ctx):
    """other types, shapes and element types"""
    W = ctx.mod("valori.utils.validation")
    np = ctx.np
    shape1 = {"1d": lambda: np.ones(2), "int": lambda: np.array([1, 2]), "f32": lambda: np.ones(3, dtype="float32")}
    shape2 = {"2d": lambda: np.ones((1, 2)), "2d-int": lambda: np.array([[1, 2], [3, 4]])}
    bad = {"list": lambda: [1.0, 2.0], "none": lambda: None, "number": lambda: 3.0, "text": lambda: "1,2", "tuple": lambda: (1.0,), "dict": lambda: {},
           "3d": lambda: np.ones((1, 1, 2)), "0d": lambda: np.array(1.0), "texts": lambda: np.array(["a", "b"]), "objects": lambda: np.array([None, 1], dtype=object),
           "texts-2d": lambda: np.array([["a", "b"]]), "objects-2d": lambda: np.array([[None, 1]], dtype=object), "nested": lambda: [[1.0, 2.0]]}
    every = {**shape1, **shape2, **bad}
    what = ctx.choice("what", sorted(every))
    if ctx.flip("batch"):
        verdict(ctx, lambda: W.validate_vectors(every[what]()), what in shape2, "batch of kind " + what)
    else:
        verdict(ctx, lambda: W.validate_vector(every[what]()), what in shape1, "vector of kind " + what)


def ranges(ctx):
    """value ranges"""
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    lo, hi = ctx.choice("lo", [-1, 0, 2.5]), ctx.choice("hi", [2.5, 3])
    v = {"real": lambda: ctx.real("v", -5, 5), "int": lambda: ctx.int("v", -5, 5), "special": lambda: ctx.choice("v", [NAN, INF, -INF, -0.0])}[p["kind"]]()
    cfg = {"k": v, "other": "x"}
    verdict(ctx, lambda: W.validate_config(cfg, value_ranges={"k": (lo, hi), "absent": (0, 1)}), AND(v >= lo, v <= hi), "value range", (v, lo, hi))
    ctx.check_that(list(cfg) == ["k", "other"], "argument unchanged")


def config(ctx):
    """required and allowed keys, types"""
    W = ctx.mod("valori.utils.validation")
    K = ["a", "b"] if ctx.params["tier"] == "quick" else ["a", "b", "c"]
    cfg = {}
    for k in K:
        if ctx.flip("has " + k):
            cfg[k] = ctx.choice("value " + k, [1, "x", 2.5, None])
    req = [k for k in K if ctx.flip("require " + k)]
    allow = None if ctx.flip("any key") else [k for k in K if ctx.flip("allow " + k)]
    ty = {"a": ctx.choice("type", [int, str, (int, float)])} if ctx.flip("types") else None
    want = all(k in cfg for k in req) and (allow is None or all(k in allow for k in cfg)) and (not ty or "a" not in cfg or isinstance(cfg["a"], ty["a"]))
    before = dict(cfg)
    verdict(ctx, lambda: W.validate_config(cfg, req or None, allow, ty), want, "configuration", (cfg, req, allow, ty))
    ctx.check_that(cfg == before, "argument unchanged")


def config_kind(ctx):
    W = ctx.mod("valori.utils.validation")
    x = ctx.choice("x", [{}, [], None, "a", 3, [("a", 1)], {"a": 1}])
    verdict(ctx, lambda: W.validate_config(x), isinstance(x, dict), "configuration kind", x)


METRICS = ["cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"]


def metric(ctx):
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    if p.get("free"):
        m = ctx.str("m", p["free"], "cosine tDj")
    else:
        m = ctx.choice("m", METRICS + [x.upper() for x in METRICS[:2]] + ["", " cosine", "cosine ", "dot", "angular", None, 3, ["cosine"], b"cosine", ("cosine",)])
    want = OR([m == x for x in METRICS]) if not isinstance(m, (list, bytes, tuple, int, type(None))) else False
    verdict(ctx, lambda: W.validate_metric(m), want, "metric")


def k(ctx):
    W = ctx.mod("valori.utils.validation")
    v = ctx.int("k", -3, 6) if ctx.flip("int") else ctx.choice("k", [1.0, 2.5, "3", None, NAN, [1], INF])
    mx = ctx.choice("max", [None, 0, 1, 4])
    isint = not isinstance(v, (float, str, list, type(None)))
    want = AND(v > 0, mx is None or v <= mx) if isint else False
    verdict(ctx, lambda: W.validate_k(v) if mx is None else W.validate_k(v, mx), want, "k", (v, mx))


def ident(ctx):
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    if p.get("len") is not None:
        s = ctx.str("id", p["len"], " \t\n\r\u00a0\u2003\u200bab0")
        blank = AND([OR([s[i] == w for w in " \t\n\r\u00a0\u2003"]) for i in range(p["len"])])
        verdict(ctx, lambda: W.validate_id(s), NOT(blank), "identifier text")
    else:
        v = ctx.int("i", -5, 5) if ctx.flip("int") else ctx.choice("v", [None, 1.5, NAN, (), [1], {}, b"x"])
        verdict(ctx, lambda: W.validate_id(v), not isinstance(v, (type(None), float, tuple, list, dict, bytes)), "identifier", v)


def idents(ctx):
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    pool = ["a", "A", "b", " ", "", 1, 2, "1", None, 1.5, [1], "a ", "\u00e9", "e\u0301"]
    xs = [ctx.choice("id", pool if p["n"] < 3 else pool[:7]) for _ in range(p["n"])]
    good = [x for x in xs if isinstance(x, int) or (isinstance(x, str) and x.strip())]
    uniq = all(good[i] != good[j] for i in range(len(good)) for j in range(i))
    box = ctx.choice("box", [list, tuple]) if p["n"] < 3 else list
    arg = box(xs)
    verdict(ctx, lambda: W.validate_ids(arg), box is list and len(xs) > 0 and len(good) == len(xs) and uniq, "identifiers", xs)
    ctx.check_that(list(arg) == xs, "argument unchanged")


class Thing:
    pass


def metadata(ctx):
    W = ctx.mod("valori.utils.validation")
    good = [None, True, 0, 2 ** 70, 1.5, "x", "\u4f60", [], [1, [2, {"a": None}]], {}, {"k": {"z": [1]}}, (1, 2), NAN, {1: "a"}]
    bad = [{1, 2}, b"x", object(), Thing(), [object()], {"a": {"b": b""}}, {"a": [set()]}, {(1, 2): 3}, complex(1, 2), range(2)]
    loop = []
    loop.append(loop)
    bad.append(loop)
    ks = ["a", "", " b", 1, None, ("t",), b"k"]
    m, ok = {}, True
    for i in range(ctx.params["n"]):
        key = ctx.choice("key", ks if i == 0 else ["z"])
        j = ctx.choice("value", list(range(len(good) + len(bad))) if i == 0 else [0, len(good), len(good) + 5, len(good) + 10])
        m[key] = (good + bad)[j]
        ok = ok and isinstance(key, str) and j < len(good)
    size = len(m)
    verdict(ctx, lambda: W.validate_metadata(m), ok, "metadata", str(m))
    ctx.check_that(len(m) == size, "argument unchanged")


def metadata_kind(ctx):
    W = ctx.mod("valori.utils.validation")
    x = ctx.choice("x", [None, {}, [], "a", 3, [("a", 1)], (), False])
    verdict(ctx, lambda: W.validate_metadata(x), x is None or isinstance(x, dict), "metadata kind", x)


def far(ctx):
    """one odd thing deep inside a large argument"""
    W = ctx.mod("valori.utils.validation")
    p = ctx.params
    what, n = p["what"], p["n"]
    at = ctx.choice("at", p["at"])
    if what in ("vector", "rows", "wide"):
        x = ctx.choice("special", [NAN, INF, -INF]) if ctx.flip("bad") else ctx.real("x", -2, 2)
        if what == "vector":
            R = [1.0] * n
            R[at] = x
        else:
            R = [[0.5, 0.0] if what == "rows" else [2.0] * n for _ in range(n if what == "rows" else 3)]
            if what == "rows":
                R[at] = [0.0, x]
            else:
                R[ctx.choice("row", [0, 2])][at] = x
        f = W.validate_vector if what == "vector" else W.validate_vectors
        zero = ctx.flip("zero refused")
        want = AND(isnum(x), OR(NOT(zero), what != "rows", x != 0))
        verdict(ctx, lambda: f(ctx.np.array(R), allow_zero=not zero), want, what, (at, x))
    elif what == "ids":
        ids = ["id%d" % i for i in range(n)]
        ids[at] = ctx.choice("id", [0, "x", " ", None, ids[0], ids[n - 1], 2.5])
        good = [x for x in ids if isinstance(x, int) or (isinstance(x, str) and x.strip())]
        verdict(ctx, lambda: W.validate_ids(ids), len(good) == n and len(set(good)) == n, "identifiers", at)
    else:
        v = ctx.choice("value", [1, "x", None, b"x", {1}, object()])
        ok = v in (1, "x", None) if not isinstance(v, (bytes, set)) else False
        if what == "deep":
            for i in range(at):
                v = [v] if i % 2 else {"k": v}
            m = {"a": 1, "b": v}
            ok = ok and at < 1000       # beyond what the json module follows
        else:
            m = {"k%d" % i: i for i in range(n)}
            m["k%d" % at] = [0] * n + [v]
        verdict(ctx, lambda: W.validate_metadata(m), ok, "metadata", at)


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("accepted", "refused"), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    S = [NAN, INF, -INF, 0.0]
    add("vector", "vector", d=[0, 1, 2], vals=S, lim=[None, 1, 2])
    add("vector-dtype", "vector", d=[1], vals=[NAN], lim=[None], dts=True)
    add("vector-f32", "vector", d=[1], vals=[INF], lim=[None], dts=True, dtype="float32")
    add("vectors", "vector", d=[0, 1, 2], vals=[NAN, -INF], lim=[None, 2], batch=2)
    add("vectors-limits", "vector", d=[1, 2, 3], vals=[NAN], lim=[None, 1, 2, 3], batch=1)
    add("vectors-dtype", "vector", d=[1], vals=[NAN], lim=[None], batch=1, dts=True)
    for w in ("vector", "rows", "wide", "ids", "long"):
        add("far-" + w, "far", what=w, n=140 if w != "vector" else 1100, at=[0, 1, 63, 64, 99, 100, 127, 128, 139] + ([1000, 1024, 1099] if w == "vector" else []))
    add("deep", "far", what="deep", n=0, at=[1, 8, 30, 90, 100000])
    for t, big, tiny in (("float64", 1.7e308, 5e-324), ("float32", 3e38, 1e-45), ("float16", 65504.0, 6e-8)):
        add("extreme-" + t, "extreme", dtype=t, vals=[big, -big, tiny, -tiny, 1.0, 0.0])
    add("kinds", "kinds")
    for x in ("real", "int"):
        add("range-" + x, "ranges", kind=x)
    add("range-special", "ranges", kind="special")
    add("config", "config", tier=tier)
    add("config-kind", "config_kind")
    add("metric", "metric")
    for n in (3, 6):
        add("metric-free-%d" % n, "metric", ["refused", "accepted"] if n == 6 else ["refused"], free=n)
    add("k", "k")
    for n in (0, 1, 2, 3):
        add("id-text-%d" % n, "ident", ["refused"] if n == 0 else ["accepted", "refused"], len=n)
    add("id", "ident")
    for n in (0, 1, 2, 3):
        add("ids-%d" % n, "idents", ["refused"] if n == 0 else ["accepted", "refused"], n=n)
    add("metadata", "metadata", n=1)
    add("metadata-2", "metadata", n=2)
    add("metadata-kind", "metadata_kind")
    if T:
        add("vector-4", "vector", d=[3, 4], vals=S, lim=[None, 3])
        add("vectors-3", "vector", d=[2], vals=[NAN, INF], lim=[None], batch=3)
        add("id-text-5", "ident", len=5)
        add("ids-4", "idents", n=4)
    return out
