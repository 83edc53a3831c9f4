"""C20  distance and similarity functions obey their laws"""
from .common import *  # noqa
from . import ints

PROPERTY = "C20"
DISTS = ["euclidean_distance", "euclidean_distance_squared", "manhattan_distance", "chebyshev_distance"]


def sim(ctx):
    return ctx.mod("valori.utils.similarity")


def vec(ctx, name, d, grid=None, free=0):
    """all components symbolic; with a grid, only the first `free` ones"""
    if grid:
        return ctx.np.array([ctx.real(name, -4, 4) for _ in range(free)] + [float(ctx.choice(name, grid)) for _ in range(d - free)])
    return ctx.vec(name, d, -4, 4)


def ref(name, a, b):
    """definition; the Euclidean distance by its square"""
    df = [x - y for x, y in zip(a, b)]
    if name.startswith("euclidean"):
        return sum((x * x for x in df), start=0.0)
    ab = [abs(x) for x in df]
    if name == "manhattan_distance":
        return sum(ab, start=0.0)
    m = ab[0]
    for x in ab[1:]:
        if bool(x > m):
            m = x
    return m


def laws(ctx):
    """definition, non-negative, symmetric, zero exactly for equal vectors"""
    p = ctx.params
    f = getattr(sim(ctx), p["f"])
    a, b = vec(ctx, "a", p["d"]), vec(ctx, "b", p["d"])
    ra, rb = list(a), list(b)
    v, w = f(a, b), f(b, a)
    ctx.check_that(isnum(v) and isnum(w), "a finite number")
    ctx.check_that(v >= 0, "not negative")
    ctx.check_that(eq(v * v if p["f"] == "euclidean_distance" else v, ref(p["f"], ra, rb)), "the defined value")
    ctx.check_that(eq(v, w), "symmetric")
    ctx.check_that(eq(f(a, a), 0) and eq(f(a, a.copy()), 0), "zero for equal vectors")
    ctx.check_that(IMP(v <= 0, AND([eq(x, y) for x, y in zip(ra, rb)])), "zero only for equal vectors")
    ctx.check_that(veq(ra, a) and veq(rb, b), "arguments unchanged")
    ctx.reach("end")


def triangle(ctx):
    p = ctx.params
    f = getattr(sim(ctx), p["f"])
    a, b, c = vec(ctx, "a", p["d"], p.get("grid")), vec(ctx, "b", p["d"], p.get("grid")), vec(ctx, "c", p["d"], p.get("grid"), p.get("free", 0))
    ctx.check_that(le(f(a, c), f(a, b) + f(b, c)), "triangle inequality")
    ctx.reach("end")


def cosine(ctx):
    """cosine similarity: range, symmetry, scaling, zero vectors, the defined value"""
    p = ctx.params
    S = sim(ctx)
    d = p["d"]
    a, b = vec(ctx, "a", d) if d < 3 else ctx.np.array(ctx.choice("a", p["grid"])), vec(ctx, "b", d, [0, 2] if d > 2 else None, 1)
    ra, rb = list(a), list(b)
    v = S.cosine_similarity(a, b)
    ctx.check_that(isnum(v), "a finite number")
    ctx.check_that(AND(le(-1, v, 0), le(v, 1, 0)), "between -1 and 1")
    ctx.check_that(eq(v, S.cosine_similarity(b, a)), "symmetric")
    na, nb = sum((x * x for x in ra), start=0.0), sum((x * x for x in rb), start=0.0)
    za, zb = bool(na == 0), bool(nb == 0)
    if za or zb:
        ctx.check_that(eq(v, 0), "zero for a zero vector")
        ctx.reach("zero")
    else:
        dp = sum((x * y for x, y in zip(ra, rb)), start=0.0)
        tiny = AND(OR(na < 0.01, nb < 0.01), d < 3)
        exact = dp / (sqrt(na) * sqrt(nb))
        ctx.check_that(OR(tiny, eq(v, exact), v * v * na * nb == dp * dp, eq(v * v * na * nb, dp * dp, 0.05)), "the cosine of the angle")
        ctx.check_that(AND(IMP(dp > 0, v >= 0), IMP(dp < 0, v <= 0)), "the sign of the dot product")
        ctx.reach("nonzero")
    ctx.check_that(eq(S.cosine_distance(a, b), 1 - v), "distance is one minus similarity")
    ctx.check_that(veq(ra, a) and veq(rb, b), "arguments unchanged")


def scaled(ctx):
    """scaling by a positive (negative) factor does not change (negates) the similarity"""
    p = ctx.params
    S = sim(ctx)
    a = vec(ctx, "a", p["d"])
    s = ctx.real("s", -4, 4)
    zero = bool(AND([x == 0 for x in a]))
    pos, neg = bool(s > 0), bool(s < 0)
    v = S.cosine_similarity(a, a * s)
    if zero or not (pos or neg):
        ctx.check_that(eq(v, 0), "zero for a zero vector")
    elif pos:
        ctx.check_that(eq(v, 1), "1 for a positively scaled copy")
        ctx.reach("same")
    else:
        ctx.check_that(eq(v, -1), "-1 for a negatively scaled copy")
        ctx.reach("opposite")


def dot(ctx):
    p = ctx.params
    S = sim(ctx)
    a, b = vec(ctx, "a", p["d"]), vec(ctx, "b", p["d"])
    v = S.dot_product(a, b)
    ctx.check_that(eq(v, sum((x * y for x, y in zip(list(a), list(b))), start=0.0)), "the defined value")
    ctx.check_that(eq(v, S.dot_product(b, a)), "symmetric")
    ctx.reach("end")


def binary(ctx):
    """Hamming and Jaccard look at the signs only"""
    p = ctx.params
    S = sim(ctx)
    d = p["d"]
    a, b = vec(ctx, "a", d), vec(ctx, "b", d)
    h, j = S.hamming_distance(a, b), S.jaccard_similarity(a, b)
    h2, j2, jd = S.hamming_distance(b, a), S.jaccard_similarity(b, a), S.jaccard_distance(a, b)
    pa, pb = [bool(x > 0) for x in a], [bool(x > 0) for x in b]
    both, one = sum(x and y for x, y in zip(pa, pb)), sum(x or y for x, y in zip(pa, pb))
    ctx.check_that(eq(h, one - both) and eq(h2, one - both), "Hamming: positions that differ", h)
    want = 1.0 if one == 0 else both / one
    ctx.check_that(eq(j, want, 1e-6) and eq(j2, want, 1e-6), "Jaccard: common over all", j)
    ctx.check_that(eq(jd, 1 - want, 1e-6), "Jaccard distance is one minus similarity", jd)
    ctx.reach("end")


def batch(ctx):
    """the batch form agrees with the one-pair form"""
    p = ctx.params
    S = sim(ctx)
    z, u, w = [0.0] * p["d"], [1.0] * p["d"], [-1.0] + [2.0] * (p["d"] - 1)
    A = ctx.np.array(ctx.choice("A", [[z, u, w], [w, z, u], [u, w, w]])[:p["n"]])
    B = ctx.np.array([list(vec(ctx, "b", p["d"], p["grid"], 1)) for _ in range(p["m"])])
    ra, rb = rows(A), rows(B)
    M = S.batch_cosine_similarity(A, B)
    ctx.check_that(tuple(M.shape) == (p["n"], p["m"]), "one row per first vector, one column per second", M.shape)
    for i in range(p["n"]):
        for j in range(p["m"]):
            ctx.check_that(eq(M[i, j], S.cosine_similarity(A[i], B[j])), "entry is the pair's similarity", (i, j))
    ctx.check_that(meq(ra, A) and meq(rb, B), "arguments unchanged")
    ctx.reach("end")


def crowd(ctx):
    """many vectors at once, and long vectors: every entry is its pair's"""
    p = ctx.params
    S = sim(ctx)
    n, m, d = p["n"], p["m"], p["d"]
    if isinstance(n, list):     # any of these sizes, the first and the last row special
        n = ctx.choice("vectors", n)
        p = dict(p, rows=[0, n - 1])
    A = [[float((i * 7 + 3 * j) % 11 - 5) for j in range(d)] for i in range(n)]
    B = [[float((i * 5 + 2 * j) % 13 - 6) for j in range(d)] for i in range(m)]
    i0, j0 = ctx.choice("row", p["rows"]), ctx.choice("column", p["columns"])
    A[i0] = [0.0] * d if ctx.flip("zero") else A[i0]
    B[j0][d - 1] = ctx.real("x", -4, 4) if p["free"] else ctx.choice("x", [-4.0, 0.5, 7.0])
    M = S.batch_cosine_similarity(ctx.np.array(A), ctx.np.array(B))
    ctx.check_that(tuple(M.shape) == (n, m), "one row per first vector, one column per second", M.shape)
    for i in range(n):
        for j in range(m):
            if j == j0 and i not in p["rows"]:
                continue
            a, b = A[i], B[j]
            if j == j0:
                ctx.check_that(eq(M[i, j], S.cosine_similarity(ctx.np.array(a), ctx.np.array(b))), "entry is the pair's similarity", (i, j))
                continue
            na, nb = sum(x * x for x in a), sum(x * x for x in b)
            want = sum(x * y for x, y in zip(a, b)) / (na ** 0.5 * nb ** 0.5) if na and nb else 0.0
            ctx.check_that(eq(M[i, j], want), "entry is the pair's similarity", (i, j))
    ctx.reach("end")


def long(ctx):
    """long vectors: nothing is left out"""
    p = ctx.params
    S = sim(ctx)
    d = p["d"]
    a = [float((3 * j) % 7 - 3) for j in range(d)]
    b = [float((2 * j) % 5 - 2) for j in range(d)]
    j0 = ctx.choice("position", p["at"])
    a[j0] = ctx.real("x", -4, 4)
    df = [x - y for x, y in zip(a, b)]
    A, B = ctx.np.array(a), ctx.np.array(b)
    rest = [abs(v) for j, v in enumerate(df) if j != j0]
    ctx.check_that(eq(S.euclidean_distance_squared(A, B), sum(v * v for v in df)), "the defined value: squared")
    ctx.check_that(eq(S.manhattan_distance(A, B), sum(rest) + abs(df[j0])), "the defined value: Manhattan")
    ch = S.chebyshev_distance(A, B)
    ctx.check_that(AND(le(max(rest), ch), le(abs(df[j0]), ch), OR(eq(ch, max(rest)), eq(ch, abs(df[j0])))), "the defined value: Chebyshev")
    ctx.check_that(eq(S.dot_product(A, B), sum(x * y for x, y in zip(a, b))), "the defined value: dot")
    pa, pb = [bool(x > 0) for x in a], [bool(x > 0) for x in b]
    ctx.check_that(eq(S.hamming_distance(A, B), sum(x != y for x, y in zip(pa, pb))), "Hamming: positions that differ")
    ctx.check_that(eq(S.jaccard_similarity(A, B), sum(x and y for x, y in zip(pa, pb)) / sum(x or y for x, y in zip(pa, pb)), 1e-6), "Jaccard: common over all")
    ctx.reach("end")


def norm(ctx):
    """normalising one vector"""
    p = ctx.params
    S = sim(ctx)
    kind = p["kind"]
    a = vec(ctx, "a", p["d"])
    ra = list(a)
    u = S.normalize_vector(a, kind)
    ru = list(u)
    ctx.check_that(veq(ra, a), "argument unchanged")
    ctx.check_that(len(ru) == len(ra) and AND([isnum(x) for x in ru]), "finite, same length")
    if bool(AND([x == 0 for x in ra])):
        ctx.check_that(veq(ru, ra), "a zero vector stays zero")
        u[0] = 7.0
        ctx.check_that(veq(ra, a), "the result is the caller's own")
        ctx.reach("zero")
        return
    if kind == "l2":
        ctx.check_that(eq(sum((x * x for x in ru), start=0.0), 1), "unit length")
    elif kind == "l1":
        ctx.check_that(eq(sum((abs(x) for x in ru), start=0.0), 1), "unit length")
    else:
        ctx.check_that(AND([AND(le(x, 1), le(-1, x)) for x in ru]) and OR([OR(eq(x, 1), eq(x, -1)) for x in ru]), "unit length")
    for i in range(len(ra)):
        for j in range(i):
            ctx.check_that(eq(ru[i] * ra[j], ru[j] * ra[i]), "direction kept")
        ctx.check_that(AND(IMP(ra[i] > 0, ru[i] >= 0), IMP(ra[i] < 0, ru[i] <= 0), IMP(ra[i] == 0, ru[i] == 0)), "signs kept")
    ctx.reach("nonzero")


def refused(ctx):
    S = sim(ctx)
    np = ctx.np
    f = ctx.choice("f", DISTS + ["cosine_similarity", "cosine_distance", "dot_product", "hamming_distance", "jaccard_similarity", "jaccard_distance",
                                 "batch_cosine_similarity", "normalize_vector"])
    sh = ctx.choice("shapes", ["long", "short", "2d-1", "2d-2", "0d"])
    mk = {"long": ((2,), (3,)), "short": ((2,), (1,)), "2d-1": ((1, 2), (2,)), "2d-2": ((2,), (1, 2)), "0d": ((), (2,))}[sh]
    if f == "batch_cosine_similarity":
        mk = {"long": ((1, 2), (1, 3)), "short": ((2, 2), (2, 1)), "2d-1": ((2,), (1, 2)), "2d-2": ((1, 2), (2,)), "0d": ((2,), (2,))}[sh]
    if f == "normalize_vector":
        a = {"2d-1": np.ones((1, 2)), "2d-2": np.ones((2, 2)), "0d": np.ones(())}.get(sh)
        g = (lambda: S.normalize_vector(a)) if a is not None else (lambda: S.normalize_vector(np.ones(2), sh))
    else:
        a, b = np.ones(mk[0]), np.ones(mk[1])
        g = lambda: getattr(S, f)(a, b)
    r, e = attempt(g, ValueError)
    ctx.check_that(e is not None, "refused: " + f + " " + sh, r)
    ctx.reach("end")


def integers(ctx):
    """the same for integer and boolean vectors"""
    p = ctx.params
    dt, R, _ = ints.pick(ctx, 2, p["d"], free=p["f"] not in ("cosine_similarity", "normalize_vector", "batch_cosine_similarity"))
    a, b = R
    if ctx.flip("order"):
        a, b = b, a
    if p["f"] == "normalize_vector":
        for kind in ("l1", "l2", "max"):
            ints.compare(ctx, dt, lambda v: sim(ctx).normalize_vector(v, kind), "normalize_vector " + kind, a)
    elif p["f"] == "batch_cosine_similarity":
        ints.compare(ctx, dt, sim(ctx).batch_cosine_similarity, p["f"], [a, b], [b, a, a])
    else:
        ints.compare(ctx, dt, getattr(sim(ctx), p["f"]), p["f"], a, b)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for f in DISTS:
        for d in (1, 2, 3) + ((4, 6) if T else ()):
            add("%s-%d" % (f, d), "laws", f=f, d=d)
    for f in ("manhattan_distance", "chebyshev_distance"):
        for d in (1, 2) + ((3,) if T else ()):
            add("triangle-%s-%d" % (f, d), "triangle", f=f, d=d)
    add("triangle-euclidean-1", "triangle", f="euclidean_distance", d=1)
    add("triangle-euclidean-2", "triangle", f="euclidean_distance", d=2, grid=[0, 1], free=1)
    for d in (1, 2):
        add("cosine-%d" % d, "cosine", ["zero", "nonzero"], d=d)
    add("cosine-3", "cosine", ["zero", "nonzero"], d=3, grid=[[0.0, 0.0, 0.0], [1.0, 2.0, -2.0], [0.0, 4.0, 0.0]])
    for d in (1, 2, 3):
        add("scaled-%d" % d, "scaled", ["same", "opposite"], d=d)
        add("dot-%d" % d, "dot", d=d)
        add("binary-%d" % d, "binary", d=d)
    add("batch-2x2", "batch", n=2, m=2, d=2, grid=[0, 1])
    add("batch-3x1", "batch", n=3, m=1, d=1, grid=[-1, 0, 1])
    add("batch-crowd", "crowd", n=70, m=66, d=2, rows=[0, 63, 64, 69], columns=[0, 64, 65], free=False)
    add("batch-columns", "crowd", n=2, m=70, d=2, rows=[0, 1], columns=[0, 63, 64, 69], free=True)
    add("batch-sizes", "crowd", n=[9, 17, 33, 50, 51, 65, 100, 101, 129, 257], m=1, d=2, columns=[0], free=False)
    add("batch-rows", "crowd", n=140, m=1, d=2, rows=[0, 63, 64, 127, 128, 139], columns=[0], free=False)
    add("long", "long", d=140 if not T else 1100, at=[0, 63, 64, 127, 128, 139] + ([1023, 1024, 1099] if T else []))
    add("batch-1x3", "batch", n=1, m=3, d=1, grid=[0, 2])
    for kind in ("l1", "l2", "max"):
        for d in (1, 2) + ((3,) if kind != "l2" or T else ()):
            add("normalize-%s-%d" % (kind, d), "norm", ["zero", "nonzero"], kind=kind, d=d)
    add("refused", "refused")
    if T:
        add("triangle-euclidean-2-wide", "triangle", f="euclidean_distance", d=2, grid=[-1, 0, 3], free=1)
        add("cosine-4", "cosine", ["zero", "nonzero"], d=4, grid=[[0.0, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, -1.0]])
        add("batch-2x3", "batch", n=2, m=3, d=3, grid=[0, 1])
        add("binary-5", "binary", d=5)
    for f in DISTS + ["cosine_similarity", "cosine_distance", "dot_product", "hamming_distance", "jaccard_similarity", "jaccard_distance", "normalize_vector", "batch_cosine_similarity"]:
        add("integers-" + f, "integers", f=f, d=2)
    return out
