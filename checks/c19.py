"""C19  SAQ quantizer: bit budget, coverage of all dimensions, consistent codes"""
from .common import *  # noqa
from . import ints

PROPERTY = "C19"
ASSUMPTIONS = ["KMeans: any partition of the samples into non-empty clusters, centres are the means of their members",
               "only whether a dimension is constant in the training data influences the allocation (data is standardised first)"]


def make(ctx, **cfg):
    q = ctx.mod("valori.quantization.saq").SAQQuantizer(cfg)
    q.initialize()
    return q


def data(ctx, n, d, grid=None):
    """training data with every pattern of constant dimensions"""
    if grid:
        return [[float(ctx.choice("g", grid)) for _ in range(d)] for _ in range(n)]
    const = [ctx.flip("constant") for _ in range(d)]
    return [[2.0 if const[j] else float((i * (j + 2)) % 3 + i) for j in range(d)] for i in range(n)]


def layout(ctx, q, T, bits, segs, what=""):
    d = len(T[0])
    st = q.get_stats()
    b, w = st["segment_boundaries"], st["segment_bits"]
    ctx.check_that(len(b) == len(w) and len(b) == min(segs, d, bits), what + "as many segments as asked for, at most one per dimension and per bit", b)
    at = 0
    for s, e in b:
        ctx.check_that(int(s) == at and int(e) > at, what + "segments cover every dimension exactly once", b)
        at = int(e)
    ctx.check_that(at == d, what + "segments cover every dimension exactly once", b)
    ctx.check_that(all(int(x) >= 1 for x in w), what + "at least one bit for every segment", w)
    ctx.check_that(sum(int(x) for x in w) == bits, what + "the allocated bits are the budget", w)
    ctx.check_that(eq(st["compression_ratio"], d * 32 / bits), what + "compression ratio", st["compression_ratio"])
    ctx.check_that(st["dimensions"] == d and st["n_segments"] == len(b), what + "reported dimension and segments")
    return [int(x) for x in w]


def codes(ctx, q, T, w, X, what=""):
    C = q.quantize(X)
    ctx.check_that(tuple(C.shape) == (X.shape[0], len(w)), what + "one code per segment", C.shape)
    for r in rows(C):
        ctx.check_that(AND([AND(c >= 0, c < 2 ** min(wi, 40)) for c, wi in zip(r, w)]), what + "codes fit the segment's bits", r)
    D = q.dequantize(C)
    ctx.check_that(tuple(D.shape) == tuple(X.shape), what + "decoding returns the input shape", D.shape)
    lo = [min(r[j] for r in T) for j in range(len(T[0]))]
    hi = [max(r[j] for r in T) for j in range(len(T[0]))]
    for r in rows(D):
        ctx.check_that(AND([isnum(v) for v in r]), what + "decoded values are finite")
        ctx.check_that(AND([AND(le(lo[j], v), le(v, hi[j])) for j, v in enumerate(r)]), what + "decoded values lie in the trained range", r)
    ctx.check_that(meq(D, q.dequantize(q.quantize(D))), what + "coding a decoded vector changes nothing")
    return C, D


def budget(ctx):
    p = ctx.params
    bits, segs = ctx.choice("bits", p["bits"]), ctx.choice("segs", p["segs"])
    q = make(ctx, total_bits=bits, n_segments=segs, adjustment_iters=p.get("iters", 1))
    T = data(ctx, p["n"], p["d"], p.get("grid"))
    q.train(ctx.np.array(T))
    w = layout(ctx, q, T, bits, segs)
    if p.get("query"):
        codes(ctx, q, T, w, ctx.mat("x", 1, p["d"], -4, 4))
    elif p.get("own"):
        C, D = codes(ctx, q, T, w, ctx.np.array(T))
        if all(2 ** x >= p["n"] for x in w):
            ctx.check_that(meq(T, rows(D)), "with a codeword per training vector, training vectors are restored")
            ctx.reach("restored")
    ctx.reach("end")


def nearest(ctx):
    """each segment gets a nearest codeword; adjustment never makes the error larger"""
    p = ctx.params
    T = [[float(v) for v in r] for r in p["train"]]
    X = ctx.mat("x", 1, len(T[0]), -4, 4)
    errs = []
    q = make(ctx, total_bits=p["bits"], n_segments=p["segs"], adjustment_iters=p["iters"])
    q.train(ctx.np.array(T))
    w = layout(ctx, q, T, p["bits"], p["segs"])
    C, D = codes(ctx, q, T, w, X)
    x, got = rows(X)[0], rows(D)[0]
    b = q.get_stats()["segment_boundaries"]
    n = len(T)
    col = [[r[j] for r in T] for j in range(len(T[0]))]
    var = [sum((v - sum(c) / n) ** 2 for v in c) / n for c in col]
    for i, (s, e) in enumerate(b):
        s, e = int(s), int(e)
        for j in range(min(2 ** w[i], n)):
            code = ctx.np.array([[j] * len(b)])
            alt, err = attempt(lambda: rows(q.dequantize(code))[0], Exception)
            if err is not None:
                continue
            f = lambda y: sum(((x[t] - y[t]) * (x[t] - y[t]) / (var[t] or 1.0) for t in range(s, e)), start=0.0)
            ctx.check_that(le(f(got), f(alt)), "the segment's codeword is a nearest one")
    ctx.reach("end")


def large(ctx):
    """more training vectors than codes: segments of middling size stay within their bits"""
    p = ctx.params
    ctx.rnd_seeded = Fixed(ctx.choice("seed", [0, 1, 2]))      # some partitions, not all
    bits, n = ctx.choice("bits", p["bits"]), p["n"]
    q = make(ctx, total_bits=bits, n_segments=p["segs"], adjustment_iters=1)
    T = [[float(i % p["values"]), float((i * 7) % p["values"])][:p["segs"]] for i in range(n)]
    q.train(ctx.np.array(T))
    w = layout(ctx, q, T, bits, p["segs"])
    C = q.quantize(ctx.np.array(T))
    ctx.check_that(tuple(C.shape) == (n, p["segs"]), "one code per segment", C.shape)
    for r in rows(C):
        ctx.check_that(AND([AND(c >= 0, c < 2 ** b) for c, b in zip(r, w)]), "codes fit the segment's bits", (r, w))
    ctx.reach("end")


def retrain(ctx):
    """training again (also in another dimension) starts over"""
    p = ctx.params
    q = make(ctx, total_bits=p["bits"], n_segments=p["segs"], adjustment_iters=1)
    d0, d1 = ctx.choice("d0", p["dims"]), ctx.choice("d1", p["dims"])
    T0 = [[float(i + j) for j in range(d0)] for i in range(2)]
    q.train(ctx.np.array(T0))
    layout(ctx, q, T0, p["bits"], p["segs"], "first training: ")
    if ctx.flip("reopen"):
        q.close()
        q.initialize()
    T1 = [[float(i * (j + 1)) for j in range(d1)] for i in range(3)]
    q.train(ctx.np.array(T1))
    w = layout(ctx, q, T1, p["bits"], p["segs"], "second training: ")
    codes(ctx, q, T1, w, ctx.np.array(T1), "second training: ")
    ctx.reach("end")


def rescored(ctx):
    """rescored search over the quantized training vectors"""
    p = ctx.params
    T = [[float(v) for v in r] for r in p["train"]]
    q = make(ctx, total_bits=8, n_segments=2, adjustment_iters=1, rescore_top_k=p["rescore"])
    q.train(ctx.np.array(T))
    y = ctx.vec("y", len(T[0]), -4, 4)
    k = ctx.choice("k", [1, 2, len(T), len(T) + 1])
    idx, ds = q.search_with_rescoring(y, q.quantize(ctx.np.array(T)), k)
    idx, ds = [int(i) for i in idx], list(ds)
    ctx.check_that(len(idx) == len(ds) == min(k, p["rescore"], len(T)), "min(k, candidates) results", idx)
    ctx.check_that(len(set(idx)) == len(idx) and all(0 <= i < len(T) for i in idx), "distinct positions", idx)
    ctx.check_that(AND([le(a, b) for a, b in zip(ds, ds[1:])]), "sorted by distance", ds)
    ctx.check_that(AND([eq(d, dist("cosine", list(y), T[i])) for i, d in zip(idx, ds)]), "true cosine distances")
    if p["rescore"] >= len(T):
        ctx.check_that(AND([le(ds[-1], dist("cosine", list(y), T[i])) for i in range(len(T)) if i not in idx]), "no nearer vector is left out")
    ctx.reach("end")


def refused(ctx):
    E = ctx.mod("valori.exceptions").QuantizationError
    np = ctx.np
    q = make(ctx, total_bits=8, n_segments=2)
    T = [[0.0, 1.0], [1.0, 3.0], [2.0, 2.0]]
    A = np.array(T)
    ctx.check_that(raises(lambda: q.quantize(A), E) is not None and raises(lambda: q.dequantize(np.array([[0, 0]])), E) is not None
                   and raises(lambda: q.compute_distance(A[0], np.array([0, 0])), E) is not None, "an untrained quantizer refuses")
    q.train(A)
    X = ctx.mat("x", 1, 2, -4, 4)
    before = rows(q.dequantize(q.quantize(X)))
    bad = ctx.choice("bad", ["train-1d", "wide", "narrow", "1d", "codes-wide", "codes-narrow", "train-nan", "train-none"])
    f = {"train-nan": lambda: q.train(np.array([[0.0, 1.0, 2.0], [float("nan"), 2.0, 2.0], [5.0, 6.0, 1.0]])), "train-none": lambda: q.train(np.zeros((0, 3))), "train-1d": lambda: q.train(np.zeros(4)), "wide": lambda: q.quantize(np.zeros((1, 4))), "narrow": lambda: q.quantize(np.zeros((1, 1))),
         "1d": lambda: q.quantize(np.zeros(2)), "codes-wide": lambda: q.dequantize(np.array([[0, 0, 1]])), "codes-narrow": lambda: q.dequantize(np.array([[0]]))}[bad]
    r, e = attempt(f, E)
    ctx.check_that(e is not None, "refused: " + bad, r)
    ctx.check_that(meq(before, rows(q.dequantize(q.quantize(X)))), "a refused call changes nothing: " + bad)
    ctx.reach("end")


def config(ctx):
    """senseless configurations are refused"""
    S = ctx.mod("valori.quantization.saq").SAQQuantizer
    b, s = ctx.int("bits", -2, 3), ctx.int("segs", -2, 3)
    good = attempt(lambda: S({"total_bits": int(b), "n_segments": int(s)}), ValueError)[1] is None
    ctx.check_that(good == (bool(b > 0) and bool(s > 0)), "exactly the positive settings are accepted", (b, s))
    ctx.reach("end")


def integers(ctx):
    """integer training sets and vectors are treated like the same numbers"""
    p = ctx.params
    ctx.rnd_seeded = Fixed(1)
    dt, T, FT = ints.pick(ctx, p["n"], p["d"], free=False)
    dx, X, FX = ints.pick(ctx, 2, p["d"], types=[dt, "int64"], free=False)
    q = make(ctx, total_bits=5, n_segments=2)
    q.train(ctx.np.array(T, dtype=dt))
    C = q.quantize(ctx.np.array(X, dtype=dx))
    ctx.check_that(ints.close(C, q.quantize(ctx.np.array(FX))), "the same codes", rows(C))
    D = rows(q.dequantize(C))
    lo, hi = min(v for r in FT for v in r), max(v for r in FT for v in r)
    ctx.check_that(AND([AND(le(lo, v), le(v, hi)) for r in D for v in r]), "decoded inside the trained range", D)
    layout(ctx, q, FT, 5, 2)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="budget", expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    add("budget", bits=[1, 2, 3, 4, 5, 8, 10, 32], segs=[1, 2, 3, 4, 6], n=2, d=4)
    add("budget-wide", bits=[5, 8, 128], segs=[3, 8], n=2, d=6)
    add("codes", bits=[1, 2, 3, 8], segs=[1, 2], n=3, d=2, query=True)
    add("codes-3", bits=[2, 5], segs=[2, 3], n=2, d=3, query=True, iters=3)
    add("own", expect=["end", "restored"], bits=[1, 2, 4, 64], segs=[1, 2], n=3, d=2, grid=[0, 1], own=True)
    add("one-vector", bits=[1, 4, 64], segs=[1, 2], n=1, d=2, query=True)
    add("nearest", "nearest", train=[[0, 0, 1], [1, 2, 1], [3, 1, 0]], bits=3, segs=2, iters=2)
    add("retrain", "retrain", bits=8, segs=3, dims=[1, 2, 4])
    add("rescored", "rescored", train=[[1, 0], [0, 2], [-1, -1]], rescore=3)
    add("rescored-few", "rescored", train=[[1, 0], [0, 2], [-1, -1]], rescore=1)
    add("large", "large", bits=[8, 12], segs=2, n=70, values=70)
    add("refused", "refused")
    add("config", "config")
    if T:
        add("budget-7", bits=list(range(1, 17)) + [64, 128], segs=[1, 2, 3, 4, 5, 7, 8], n=2, d=7)
        add("codes-grid", bits=[1, 2, 3], segs=[1, 2], n=3, d=2, grid=[0, 1, 3], query=True)
        add("own-4", expect=["end", "restored"], bits=[2, 4, 64], segs=[2], n=4, d=2, grid=[0, 1], own=True)
        add("nearest-4", "nearest", train=[[0, 0, 1, 5], [1, 2, 1, 4], [3, 1, 0, 4]], bits=6, segs=3, iters=2)
        add("rescored-2", "rescored", train=[[1, 0], [0, 2], [-1, -1], [3, 1]], rescore=2)
    out.append(dict(name="integers", fn="integers", n=4, d=2, expect=["end"], bounds="4 training vectors and 2 vectors of 2 integers of several widths"))
    return out
