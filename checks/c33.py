"""C33  normalisation and similarity matrices"""
from .common import *  # noqa
from . import ints

PROPERTY = "C33"


def H(ctx):
    return ctx.mod("valori.utils.helpers")


def mat(ctx, n, d, free, pool):
    """the first `free` rows symbolic, the others from the pool"""
    R = [[ctx.real("x", -4, 4) for _ in range(d)] for _ in range(free)]
    R += [list(ctx.choice("row", pool)) for _ in range(n - free)]
    return ctx.np.array(R)


def sq(r):
    return sum((x * x for x in r), start=0.0)


def maxof(xs):
    m = xs[0]
    for x in xs[1:]:
        if bool(x > m):
            m = x
    return m


def normalise(ctx):
    """each row on its own: unit length, same direction, zero stays zero"""
    p = ctx.params
    M = mat(ctx, p["n"], p["d"], p["free"], p["pool"])
    R = rows(M)
    N = H(ctx).normalize_vectors(M, p["method"])
    ctx.check_that(tuple(N.shape) == tuple(M.shape), "same shape", N.shape)
    ctx.check_that(meq(R, M), "argument unchanged")
    for r, u in zip(R, rows(N)):
        ctx.check_that(AND([isnum(x) for x in u]), "finite values")
        if bool(AND([x == 0 for x in r])):
            ctx.check_that(AND([eq(x, 0) for x in u]), "a zero vector stays zero")
            ctx.reach("zero")
            continue
        if p["method"] == "minmax":
            lo, hi = -maxof([-x for x in r]), maxof(r)
            ctx.check_that(AND([AND(le(0, x), le(x, 1)) for x in u]), "values between 0 and 1")
            if bool(lo == hi):
                ctx.check_that(AND([eq(x, u[0]) for x in u]), "equal values stay equal")
            else:
                ctx.check_that(AND([eq(y * (hi - lo), x - lo) for x, y in zip(r, u)]), "smallest to 0, largest to 1, linear")
                ctx.check_that(OR([eq(y, 1) for y in u]), "the largest value becomes 1")
                ctx.reach("nonzero")
            continue
        size = {"l2": lambda: sq(u), "l1": lambda: sum((abs(x) for x in u), start=0.0), "max": lambda: maxof([abs(x) for x in u])}[p["method"]]()
        ctx.check_that(eq(size, 1), "unit length", p["method"])
        for i in range(len(r)):
            for j in range(i):
                ctx.check_that(eq(u[i] * r[j], u[j] * r[i]), "direction kept")
            ctx.check_that(AND(IMP(r[i] > 0, u[i] >= 0), IMP(r[i] < 0, u[i] <= 0), IMP(r[i] == 0, u[i] == 0)), "signs kept")
        ctx.reach("nonzero")


def matrix(ctx):
    """similarity matrix: square, symmetric, right diagonal, entries are the pairwise definition"""
    p = ctx.params
    n, metric = p["n"], p["metric"]
    M = mat(ctx, n, p["d"], p["free"], p["pool"])
    R = rows(M)
    S = H(ctx).compute_similarity_matrix(M, metric)
    ctx.check_that(tuple(S.shape) == (n, n), "square", S.shape)
    ctx.check_that(meq(R, M), "argument unchanged")
    for i in range(n):
        for j in range(n):
            v = S[i, j]
            ctx.check_that(isnum(v), "finite")
            ctx.check_that(eq(v, S[j, i]), "symmetric")
            a, b = R[i], R[j]
            dp = sum((x * y for x, y in zip(a, b)), start=0.0)
            if metric == "dot":
                ctx.check_that(eq(v, dp), "entry is the dot product", (i, j))
            elif metric == "euclidean":
                ds = sqrt(sq([x - y for x, y in zip(a, b)]))
                ctx.check_that(eq(v * (1 + ds), 1), "entry is 1 / (1 + distance)", (i, j))
            else:
                na, nb = sq(a), sq(b)
                if bool(na == 0) or bool(nb == 0):
                    ctx.check_that(eq(v, 0), "zero for a zero vector", (i, j))
                    ctx.reach("zero")
                else:
                    ctx.check_that(OR(eq(v, dp / (sqrt(na) * sqrt(nb))), eq(v * v * na * nb, dp * dp)), "entry is the cosine", (i, j))
                    ctx.check_that(AND(IMP(dp > 0, v >= 0), IMP(dp < 0, v <= 0)), "sign of the cosine", (i, j))
            if i == j and metric == "euclidean":
                ctx.check_that(eq(v, 1), "diagonal is 1")
            if i == j and metric == "cosine" and not bool(sq(a) == 0):
                ctx.check_that(eq(v, 1), "diagonal is 1")
    ctx.reach("end")


def crowd(ctx):
    """many rows: every row is normalised, every pair compared"""
    p = ctx.params
    n, how = p["n"], p["how"]
    if isinstance(n, list):     # any of these sizes, the first and the last row special
        n = ctx.choice("vectors", n)
        p = dict(p, at=[0, n - 1])
    R = [[float((i * 7) % 11 - 5), float((i * 3) % 7 - 2) + 0.5] for i in range(n)]
    at = ctx.choice("row", p["at"])
    R[at] = [ctx.real("x", -4, 4) if p["free"] else ctx.choice("x", [-3.5, 0.0, 0.25]), 2.0]
    zero = ctx.choice("zero row", [None] + [z for z in p["at"] if z != at][:2])
    if zero is not None:
        R[zero] = [0.0, 0.0]
    f = getattr(H(ctx), p["f"])
    got = f(ctx.np.array(R), how)
    one = p["f"] == "normalize_vectors"
    ctx.check_that(tuple(got.shape) == ((n, 2) if one else (n, n)), "shape", got.shape)
    for i in range(n):
        if one:
            # every row on its own
            want = f(ctx.np.array([R[i]]), how)[0]
            ctx.check_that(veq(got[i], want), "a row's result does not depend on the other rows", i)
            continue
        js = range(n) if i in (0, at, n - 1) or i % 16 in (0, 15) else (0, i, at, n - 1)
        for j in js:
            if at in (i, j) and i != j and (i if j == at else j) not in p["at"]:
                continue
            want = f(ctx.np.array([R[i], R[j]]), how)[0, 1] if i != j else f(ctx.np.array([R[i]]), how)[0, 0]
            ctx.check_that(eq(got[i, j], want), "an entry does not depend on the other rows", (i, j))
    ctx.reach("end")


def refused(ctx):
    V = ctx.mod("valori.exceptions").ValidationError
    M = ctx.mat("x", 1, 2, -1, 1)
    name = ctx.choice("name", ["", "L2", "cosin", "l3", None, "dot_product"])
    f = ctx.choice("f", ["normalize_vectors", "compute_similarity_matrix"])
    r, e = attempt(lambda: getattr(H(ctx), f)(M, name), V)
    ctx.check_that(e is not None, "an unknown name is refused: " + f, r)
    ctx.reach("end")


POOL = [[0.0, 0.0], [3.0, 4.0], [-2.0, 0.0]]
POOL3 = [[0.0, 0.0, 0.0], [1.0, -2.0, 2.0]]


def integers(ctx):
    """the same for integer and boolean vectors"""
    p = ctx.params
    dt, R, _ = ints.pick(ctx, p["n"], p["d"], free=False)
    f = getattr(H(ctx), p["f"])
    ints.compare(ctx, dt, lambda M: f(M, p["how"]), p["f"] + " " + p["how"], R)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for m in ("l2", "l1", "max", "minmax"):
        e = ["zero", "nonzero"]
        add("norm-%s-2" % m, "normalise", e, method=m, n=1, d=2, free=1, pool=POOL)
        add("norm-%s-rows" % m, "normalise", e, method=m, n=3, d=2, free=1, pool=POOL)
        add("norm-%s-1" % m, "normalise", ["zero"] if m == "minmax" else e, method=m, n=2, d=1, free=2, pool=POOL)
        if T or m != "l2":
            add("norm-%s-3" % m, "normalise", e, method=m, n=1, d=3, free=1, pool=POOL)
    for m in ("cosine", "euclidean", "dot"):
        e = ["end", "zero"] if m == "cosine" else ["end"]
        add("matrix-%s-1" % m, "matrix", e, metric=m, n=1, d=2, free=1, pool=POOL)
        add("matrix-%s-2" % m, "matrix", e, metric=m, n=2, d=2, free=1, pool=POOL)
        add("matrix-%s-3" % m, "matrix", e, metric=m, n=3, d=2, free=1, pool=POOL)
        add("matrix-%s-d1" % m, "matrix", e, metric=m, n=2, d=1, free=2, pool=POOL)
        add("matrix-%s-d3" % m, "matrix", e, metric=m, n=2, d=3, free=1, pool=POOL3)
        if T:
            add("matrix-%s-4" % m, "matrix", e, metric=m, n=4, d=2, free=1, pool=POOL)
            add("matrix-%s-22" % m, "matrix", e, metric=m, n=2, d=2, free=2, pool=POOL)
    add("refused", "refused")
    for m in ("l2", "l1", "max", "minmax"):
        add("sizes-" + m, "crowd", f="normalize_vectors", how=m, n=[9, 17, 33, 51, 65, 101, 129, 257], free=False)
    for m in ("l2", "l1", "max", "minmax"):
        add("crowd-" + m, "crowd", f="normalize_vectors", how=m, n=70, at=[0, 31, 32, 63, 64, 69], free=True)
    for m in ("cosine", "euclidean", "dot"):
        add("crowd-" + m, "crowd", f="compute_similarity_matrix", how=m, n=66, at=[0, 63, 64, 65], free=m == "dot")
    for m in ("l2", "l1", "max", "minmax"):
        add("integers-" + m, "integers", n=3, d=2, f="normalize_vectors", how=m)
    for m in ("cosine", "euclidean", "dot"):
        add("integers-" + m, "integers", n=3, d=2, f="compute_similarity_matrix", how=m)
    return out
