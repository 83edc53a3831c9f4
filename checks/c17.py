"""C17  scalar quantizer: half-step error, codes in range, clamping, monotone"""
from .common import *  # noqa
from . import ints

PROPERTY = "C17"
TOL = 1e-4          # float32 rounding of dequantize on values of size <= 8


def make(ctx, bits):
    q = ctx.mod("valori.quantization.scalar").ScalarQuantizer({"bits": bits})
    q.initialize()
    return q


def minmax(col):
    lo = hi = col[0]
    for x in col[1:]:
        lo = x if bool(x < lo) else lo
        hi = x if bool(x > hi) else hi
    return lo, hi


def training(ctx, p):
    """-> matrix, [(lo, hi)] per dimension"""
    if p.get("ranges"):
        R = [ctx.choice("range", p["ranges"]) for _ in range(p["d"])]
        n = p["n"]
        T = ctx.np.array([[float(R[j][1] if i == 0 else R[j][0]) for j in range(p["d"])] for i in range(n)])
        return T, [tuple(map(float, r)) for r in R]
    T = ctx.mat("t", p["n"], p["d"], -8, 8)
    return T, [minmax([r[j] for r in rows(T)]) for j in range(p["d"])]


def within(ctx):
    """every vector in the trained range comes back within half a step; others are clamped"""
    p = ctx.params
    bits = ctx.choice("bits", p["bits"])
    q = make(ctx, bits)
    T, R = training(ctx, p)
    q.train(T)
    top = 2 ** bits - 1
    X = ctx.mat("x", p.get("m", 1), p["d"], -12, 12)
    keep = [list(r) for r in X]
    C = q.quantize(X)
    ctx.check_that(meq(X, keep), "quantize leaves its argument alone")
    ctx.check_that(tuple(C.shape) == tuple(X.shape), "one code per component", C.shape)
    D = q.dequantize(C)
    ctx.check_that(tuple(D.shape) == tuple(X.shape), "dequantize returns the input shape", D.shape)
    for x, c, d in zip(rows(X), rows(C), rows(D)):
        for j, (lo, hi) in enumerate(R):
            ctx.check_that(AND(c[j] >= 0, c[j] <= top), "codes lie in 0..2^bits-1", c[j])
            if bool(lo == hi):
                if bool(x[j] == lo):
                    ctx.check_that(eq(d[j], lo, TOL), "a constant dimension is restored exactly", d[j])
                    ctx.reach("constant")
                continue
            half = (hi - lo) / (2 * top)
            if bool(x[j] < lo):
                ctx.check_that(eq(d[j], lo, TOL), "values below the range are clamped", d[j])
                ctx.reach("below")
            elif bool(x[j] > hi):
                ctx.check_that(eq(d[j], hi, TOL), "values above the range are clamped", d[j])
                ctx.reach("above")
            else:
                ctx.check_that(AND(le(d[j] - x[j], half, TOL), le(x[j] - d[j], half, TOL)), "within half a step", (x[j], d[j]))
                ctx.reach("inside")
    C2 = q.quantize(ctx.np.array([[float(0) + v for v in r] for r in rows(D)])) if p.get("again") else None
    if C2 is not None:
        for c, c2 in zip(rows(C), rows(C2)):
            ctx.check_that(AND([a == b for a, b in zip(c, c2)]), "quantising a restored vector gives the same codes")
    ctx.reach("end")


def monotone(ctx):
    p = ctx.params
    q = make(ctx, ctx.choice("bits", p["bits"]))
    T, R = training(ctx, p)
    q.train(T)
    X = ctx.mat("x", 2, p["d"], -12, 12)
    a, b = rows(X)
    C = rows(q.quantize(X))
    D = rows(q.dequantize(q.quantize(X)))
    alone = [rows(q.quantize(ctx.np.array([r])))[0] for r in (a, b)]
    for j in range(p["d"]):
        if bool(a[j] <= b[j]):
            ctx.check_that(C[0][j] <= C[1][j], "codes are monotone")
            ctx.check_that(le(D[0][j], D[1][j], TOL), "restored values are monotone")
        ctx.check_that(AND(alone[0][j] == C[0][j], alone[1][j] == C[1][j]), "a vector's codes do not depend on the rest of the batch")
    ctx.reach("end")


def retrain(ctx):
    """training again replaces everything learned before, also in another dimension"""
    p = ctx.params
    q = make(ctx, 2)
    q.train(ctx.mat("t0", 2, ctx.choice("d0", [1, 2]), -8, 8))
    if ctx.flip("reopen"):
        q.close()
        q.initialize()
    T = ctx.np.array([[-1.0, 0.0], [2.0, 4.0]])
    q.train(T)
    X = ctx.mat("x", 1, 2, -1, 2)
    D = rows(q.dequantize(q.quantize(X)))[0]
    x = rows(X)[0]
    ctx.check_that(AND(le(D[0] - x[0], 0.5), le(x[0] - D[0], 0.5)), "after training again: first dimension")
    ctx.check_that(IMP(x[1] >= 0, AND(le(D[1] - x[1], 2 / 3), le(x[1] - D[1], 2 / 3))), "after training again: second dimension")
    ctx.check_that(q.get_stats()["dimensions"] == 2, "dimension of the last training")
    ctx.reach("end")


def distance(ctx):
    p = ctx.params
    q = make(ctx, p["bits"])
    T, R = training(ctx, p)
    q.train(T)
    c = [ctx.int("c", 0, 2 ** p["bits"] - 1) for _ in range(p["d"])]
    y = ctx.vec("y", p["d"], -4, 4)
    C = ctx.np.array(c)
    got = q.compute_distance(y, C)
    d = list(q.dequantize(C)[0])
    ctx.check_that(eq(got, dist("cosine", list(y), d)), "distance to the restored vector", got)
    ctx.reach("end")


def large(ctx):
    """a large training set with the extremes anywhere, a large batch"""
    p = ctx.params
    n, m, bits = p["n"], p["m"], p["bits"]
    lo, hi = ctx.real("lo", -8, -2), ctx.real("hi", 2, 8)
    a = ctx.choice("lowest", p["at"](n))
    b = ctx.choice("highest", p["at"](n))
    if a == b:
        ctx.stop()
    q = make(ctx, bits)
    q.train(ctx.np.array([[lo if i == a else hi if i == b else float(i % 3 - 1)] for i in range(n)]))
    at = ctx.choice("at", p["at"](m))
    X = [[lo if i % 2 else hi] for i in range(m)]
    X[at] = [ctx.real("x", -8, 8)]
    C = q.quantize(ctx.np.array(X))
    D = rows(q.dequantize(C))
    top = 2 ** bits - 1
    ctx.check_that(tuple(C.shape) == (m, 1) and len(D) == m, "one code per component", C.shape)
    half = (hi - lo) / (2 * top)
    for i, (x, d) in enumerate(zip(X, D)):
        x, d = x[0], d[0]
        if i != at:
            ctx.check_that(eq(x, d, TOL), "the ends of the range are restored", i)
        elif bool(x < lo):
            ctx.check_that(eq(d, lo, TOL), "values below the range are clamped", d)
        elif bool(x > hi):
            ctx.check_that(eq(d, hi, TOL), "values above the range are clamped", d)
        else:
            ctx.check_that(AND(le(d - x, half, TOL), le(x - d, half, TOL)), "within half a step", (x, d))
    ctx.reach("end")


def refused(ctx):
    """vectors of another width are refused and nothing changes"""
    E = ctx.mod("valori.exceptions").QuantizationError
    q = make(ctx, 4)
    V = ctx.mat("v", 1, 2, -4, 4)
    ctx.check_that(raises(lambda: q.quantize(V), E) is not None and raises(lambda: q.dequantize(V), E) is not None, "an untrained quantizer refuses")
    q.train(ctx.np.array([[0.0, 1.0], [1.5, 16.0]]))
    before = rows(q.quantize(V))
    bad = ctx.choice("bad", ["wide", "narrow", "one-dimensional", "three-dimensional", "codes", "no vectors"])
    np = ctx.np
    f = {"no vectors": lambda: q.train(np.zeros((0, 3))), "wide": lambda: q.quantize(np.array([[1.0, 2.0, 3.0]])), "narrow": lambda: q.quantize(np.array([[1.0]])),
         "one-dimensional": lambda: q.quantize(np.array([1.0, 2.0])), "three-dimensional": lambda: q.train(np.zeros((1, 2, 2))),
         "codes": lambda: q.dequantize(np.array([[1]]))}[bad]
    ctx.check_that(raises(f, E) is not None, "a malformed array is refused: " + bad)
    ctx.check_that(meq(before, rows(q.quantize(V))), "a refused call changes nothing")
    ctx.reach("end")


def integers(ctx):
    """integer training sets and vectors are treated like the same numbers"""
    p = ctx.params
    ctx.rnd_seeded = Fixed(1)
    dt, T, FT = ints.pick(ctx, p["n"], p["d"], free=False)
    dx, X, FX = ints.pick(ctx, 2, p["d"], types=[dt, "int64"], free=False)
    q = [make(ctx, 4), make(ctx, 4)]
    q[0].train(ctx.np.array(T, dtype=dt))
    q[1].train(ctx.np.array(FT))
    C = [q[0].quantize(ctx.np.array(X, dtype=dx)), q[1].quantize(ctx.np.array(FX))]
    ctx.check_that(ints.close(C[0], C[1]), "the same codes", (rows(C[0]), rows(C[1])))
    D = [a.dequantize(b) for a, b in zip(q, C)]
    ctx.check_that(ints.close(D[0], D[1], 1e-2), "the same decoded vectors", (rows(D[0]), rows(D[1])))
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="within", expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % {a: b for a, b in k.items() if a != "at"}, **k))
    RNG = [(-1, 1), (0, 0), (2, 7), (-8, 8), (0.25, 0.3125)]
    ins = ["end", "inside", "below", "above"]
    add("ranges", expect=ins + ["constant"], bits=[1, 2, 3, 5, 8, 12, 16], ranges=RNG, n=2, d=1, again=True)
    add("trained", expect=ins, bits=[1, 2, 4], n=2, d=1)
    add("trained-8", expect=ins, bits=[8], n=2, d=1)
    add("single", expect=["end", "constant"], bits=[1, 8], n=1, d=2)
    add("plane", expect=ins, bits=[2, 8], ranges=RNG[:3], n=3, d=2)
    add("batch", expect=ins, bits=[2], ranges=RNG[:2], n=2, d=1, m=2)
    add("monotone", "monotone", bits=[1, 3, 8], ranges=RNG, n=2, d=1)
    add("monotone-plane", "monotone", bits=[2], ranges=RNG[:2] if not T else RNG[:3], n=2, d=2)
    add("retrain", "retrain")
    add("distance", "distance", bits=2, ranges=[(-1, 1), (0, 0)], n=2, d=2)
    ends = lambda n: sorted({0, 1, n // 2, n - 1})
    add("large-training", "large", n=1100, m=2, bits=2, at=ends)
    add("large-batch", "large", n=3, m=1100, bits=4, at=lambda n: [0, 2] if n == 3 else [0, n - 1])
    add("refused", "refused")
    if T:
        add("trained-3", expect=ins, bits=[1, 2, 8], n=3, d=1)
        add("trained-plane", expect=ins, bits=[2], n=2, d=2)
        add("trained-16", expect=ins, bits=[12, 16], n=2, d=1)
        add("batch-3", expect=ins, bits=[2, 8], ranges=RNG, n=2, d=1, m=3)
        add("monotone-trained", "monotone", bits=[2, 4], n=2, d=1)
        add("distance-3", "distance", bits=3, ranges=[(-1, 1), (0, 0), (1, 5)], n=2, d=2)
    out.append(dict(name="integers", fn="integers", n=4, d=2, expect=["end"], bounds="4 training vectors and 2 vectors of 2 integers of several widths"))
    return out
