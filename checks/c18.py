"""C18  product quantizer: nearest codeword per part, decoding is the codewords"""
from .common import *  # noqa
from . import ints

PROPERTY = "C18"
ASSUMPTIONS = ["KMeans: any partition of the samples into non-empty clusters, centres are the means of their members"]
TOL = 1e-3


def make(ctx, m, k):
    q = ctx.mod("valori.quantization.product").ProductQuantizer({"m": m, "k": k})
    q.initialize()
    return q


def codebook(ctx, q, m, d):
    """codewords per part, read off by decoding each code"""
    K = q.get_stats()["effective_k"]
    w = d // m
    tab = rows(q.dequantize(ctx.np.array([[j] * m for j in range(K)])))
    return K, [[tab[j][i * w:(i + 1) * w] for j in range(K)] for i in range(m)]


def d2(a, b):
    t = 0.0
    for x, y in zip(a, b):
        t = t + (x - y) * (x - y)
    return t


def nearest(ctx):
    p = ctx.params
    m, d, n = p["m"], p["d"], p["n"]
    w = d // m
    q = make(ctx, m, p["k"])
    T = ctx.mat("t", n, d, -4, 4) if not p.get("grid") else ctx.np.array([[float(ctx.choice("g", p["grid"])) for _ in range(d)] for _ in range(n)])
    q.train(T)
    K, cb = codebook(ctx, q, m, d)
    ctx.check_that(K == min(p["k"], n), "as many codewords as asked for, at most one per training vector", K)
    st = q.get_stats()
    ctx.check_that(st["dimensions"] == d and st["subvector_dimensions"] == w, "reported dimensions")
    X = T if p.get("own") else ctx.mat("x", p.get("rows", 1), d, -4, 4)
    C = q.quantize(X)
    ctx.check_that(tuple(C.shape) == (X.shape[0], m), "one code per part", C.shape)
    D = q.dequantize(C)
    ctx.check_that(tuple(D.shape) == tuple(X.shape), "decoding returns the input shape", D.shape)
    for x, c, r in zip(rows(X), rows(C), rows(D)):
        for i in range(m):
            part, code = x[i * w:(i + 1) * w], int(c[i])
            ctx.check_that(0 <= code < K, "codes name a codeword", code)
            ctx.check_that(AND([le(d2(part, cb[i][code]), d2(part, cb[i][j]), TOL) for j in range(K) if j != code]), "the codeword is a nearest one")
            ctx.check_that(AND([eq(a, b) for a, b in zip(r[i * w:(i + 1) * w], cb[i][code])]), "decoding gives the codewords")
    C2 = q.quantize(D)
    D2 = rows(q.dequantize(C2))
    ctx.check_that(meq(rows(D), D2), "coding a decoded vector changes nothing")
    if p.get("own") and p["k"] >= n:
        ctx.check_that(meq(rows(X), rows(D)), "with a codeword per training vector, training vectors are restored")
    ctx.reach("end")


def distance(ctx):
    p = ctx.params
    m, d = p["m"], p["d"]
    q = make(ctx, m, p["k"])
    q.train(ctx.mat("t", p["n"], d, -4, 4))
    K = q.get_stats()["effective_k"]
    c = ctx.np.array([int(ctx.int("c", 0, K - 1)) for _ in range(m)])
    y = ctx.vec("y", d, -4, 4)
    got = q.compute_distance(y, c)
    ctx.check_that(eq(got, dist("euclidean", list(y), list(q.dequantize(c.reshape(1, -1))[0])), TOL), "distance to the decoded vector", got)
    ctx.reach("end")


def many(ctx):
    """more codewords than fit one byte"""
    p = ctx.params
    n = ctx.choice("n", p["sizes"])
    q = make(ctx, 1, n)
    T = ctx.np.array([[float(i)] for i in range(n)])
    q.train(T)
    pick = [0, n - 1, ctx.choice("i", p["pick"])]
    X = ctx.np.array([[float(i)] for i in pick])
    D = rows(q.dequantize(q.quantize(X)))
    for a, b in zip(rows(X), D):
        ctx.check_that(eq(a[0], b[0]), "every codeword can be named", (a[0], b[0]))
    ctx.reach("end")


def large(ctx):
    """a large training set and a large batch: every vector gets its own nearest codewords"""
    p = ctx.params
    n, k = p["n"], p["k"]
    q = make(ctx, 2, k)
    q.train(ctx.np.array([[float(10 * (i % k)), float(-10 * (i % k))] for i in range(p["train"])]))
    X = [[float(10 * (i % k)), float(-10 * ((i // 3) % k))] for i in range(n)]
    at = ctx.choice("at", [0, n // 2, n - 1])
    X[at] = [ctx.real("x", -5, 10 * k - 5), ctx.real("y", 5 - 10 * k, 5)]
    C = q.quantize(ctx.np.array(X))
    D = rows(q.dequantize(C))
    ctx.check_that(tuple(C.shape) == (n, 2) and len(D) == n, "one code per part and vector", C.shape)
    for i, (x, d) in enumerate(zip(X, D)):
        if i == at:
            for j, sg in ((0, 1), (1, -1)):
                ctx.check_that(OR([eq(d[j], sg * 10.0 * c) for c in range(k)]), "the decoded part is a codeword")
                ctx.check_that(AND(le(d[j] - x[j], 5), le(x[j] - d[j], 5)), "the codeword is a nearest one")
        else:
            ctx.check_that(AND(eq(x[0], d[0]), eq(x[1], d[1])), "the codewords are the nearest ones", (i, x, d))
    ctx.reach("end")


def refused(ctx):
    """malformed calls are refused and change nothing; training again replaces"""
    E = ctx.mod("valori.exceptions").QuantizationError
    np = ctx.np
    q = make(ctx, 2, 2)
    X = ctx.mat("x", 1, 2, -4, 4)
    ctx.check_that(raises(lambda: q.quantize(X), E) is not None and raises(lambda: q.dequantize(np.array([[0, 0]])), E) is not None, "an untrained quantizer refuses")
    if ctx.flip("first"):
        q.train(np.array([[0.0, 1.0, 2.0, 3.0], [3.0, 2.0, 1.0, 0.0]]))
        ctx.check_that(q.quantize(np.zeros((1, 4))).shape == (1, 2), "works in the first dimension")
    q.train(np.array([[0.0, -1.0], [2.0, 3.0]]))
    before = rows(q.dequantize(q.quantize(X)))
    bad = ctx.choice("bad", ["train-odd", "train-1d", "wide", "narrow", "1d", "codes-wide", "codes-narrow", "train-nan", "train-inf-wide"])
    nan = float("nan")
    f = {"train-nan": lambda: q.train(np.array([[0.0, 1.0], [nan, 2.0], [5.0, 6.0]])), "train-inf-wide": lambda: q.train(np.array([[0.0, 1.0, 0.0, 1.0], [1.0, 1.0, 1.0, float("inf")]])), "train-odd": lambda: q.train(np.zeros((3, 3))), "train-1d": lambda: q.train(np.zeros(4)), "wide": lambda: q.quantize(np.zeros((1, 4))),
         "narrow": lambda: q.quantize(np.zeros((1, 1))), "1d": lambda: q.quantize(np.zeros(2)), "codes-wide": lambda: q.dequantize(np.array([[0, 0, 1]])),
         "codes-narrow": lambda: q.dequantize(np.array([[0]]))}[bad]
    ctx.check_that(raises(f, E) is not None, "refused: " + bad)
    ctx.check_that(meq(before, rows(q.dequantize(q.quantize(X)))), "a refused call changes nothing: " + bad)
    ctx.reach("end")


def integers(ctx):
    """integer training sets and vectors are treated like the same numbers"""
    p = ctx.params
    ctx.rnd_seeded = Fixed(1)
    dt, T, FT = ints.pick(ctx, p["n"], p["d"], free=False)
    dx, X, FX = ints.pick(ctx, 2, p["d"], types=[dt, "int64"], free=False)
    q = make(ctx, 2, 2)
    q.train(ctx.np.array(T, dtype=dt))
    C = q.quantize(ctx.np.array(X, dtype=dx))
    ctx.check_that(ints.close(C, q.quantize(ctx.np.array(FX))), "the same codes", rows(C))
    D = rows(q.dequantize(C))
    lo, hi = min(v for r in FT for v in r), max(v for r in FT for v in r)
    ctx.check_that(AND([AND(le(lo, v), le(v, hi)) for r in D for v in r]), "decoded inside the trained range", D)
    book = codebook(ctx, q, 2, p["d"])[1]
    for x, d in zip(FX, D):
        for j in range(2):
            ctx.check_that(AND([le(abs(x[j] - d[j]), abs(x[j] - w[0])) for w in book[j]]), "the codeword is a nearest one", (x, d, book))
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="nearest", expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    add("one-part", m=1, d=1, n=2, k=2)
    add("one-part-3", m=1, d=1, n=3, k=2)
    add("two-parts", m=2, d=2, n=2, k=2)
    add("wide-parts", m=1, d=2, n=2, k=2)
    add("spare", m=1, d=1, n=2, k=4, own=True)
    add("single", m=2, d=2, n=3, k=1)
    add("one-vector", m=2, d=2, n=1, k=8)
    add("own", m=2, d=2, n=2, k=2, own=True)
    add("grid", m=2, d=4, n=2, k=2, grid=[0, 1])
    add("many", "many", sizes=[255, 256, 257, 300], pick=[1, 100, 254])
    add("distance", "distance", m=2, d=2, n=2, k=2)
    add("large", "large", n=1300, k=2, train=2)
    add("large-5", "large", n=300, k=5, train=5)
    add("refused", "refused")
    if T:
        add("three-words", m=1, d=1, n=3, k=3, rows=1)
        add("two-parts-3", m=2, d=2, n=3, k=2)
        add("batch", m=1, d=1, n=2, k=2, rows=3)
        add("wide-3", m=1, d=2, n=3, k=2)
        add("own-3", m=1, d=1, n=3, k=3, own=True)
        add("grid-3", m=2, d=4, n=3, k=2, grid=[0, 1], own=True)
    out.append(dict(name="integers", fn="integers", n=4, d=2, expect=["end"], bounds="4 training vectors and 2 vectors of 2 integers of several widths"))
    return out
