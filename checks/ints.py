"""Arrays of integers and booleans: numpy wraps narrow integers around and refuses to subtract
booleans, so a function that computes in the type it was given answers differently for the same numbers."""
from .common import *  # noqa

LIMITS = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-32768, 32767), "uint16": (0, 65535), "int64": (-60, 60), "bool": (0, 1)}
TYPES = ["uint8", "int8", "int64", "bool"]


def pick(ctx, n, d, types=TYPES, free=True):
    """-> type name, the same n x d numbers as integers and as floats; one is arbitrary, the rest extreme"""
    dt = ctx.choice("dtype", types)
    lo, hi = LIMITS[dt]
    mid = (lo + hi + 1) // 2
    pool = [lo, hi, mid, hi, lo, lo, hi]
    R = [[pool[(3 * i + 2 * j + i * j) % 7] for j in range(d)] for i in range(n)]
    R[0][0] = ctx.int("x", lo, hi) if free else ctx.choice("x", sorted({lo, hi, mid, (hi + 1) // 2 + 1 if dt != "bool" else 1}))
    return dt, R, [[v * 1.0 for v in r] for r in R]


def close(a, b, eps=EPS):
    """the same up to rounding, whatever the type"""
    if isinstance(a, dict):
        return set(a) == set(b) and AND([close(a[k], b[k], eps) for k in a])
    if hasattr(a, "shape") and len(a.shape):
        return tuple(a.shape) == tuple(b.shape) and AND([close(x, y, eps) for x, y in zip(a.reshape(-1), b.reshape(-1))])
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and AND([close(x, y, eps) for x, y in zip(a, b)])
    if isinstance(a, str) or a is None:
        return a == b
    return eq(a * 1.0, b * 1.0, eps)


def compare(ctx, dt, f, what, *args):
    """f on the integer arrays gives what it gives on the same numbers as floats"""
    ints = [ctx.np.array(a, dtype=dt) for a in args]
    got = f(*ints)
    want = f(*[ctx.np.array([[v * 1.0 for v in r] for r in a] if isinstance(a[0], list) else [v * 1.0 for v in a]) for a in args])
    ctx.check_that(close(got, want), what + " of integers is that of the numbers", (dt,))
    for a, i in zip(args, ints):
        ctx.check_that(AND([x * 1.0 == y for x, y in zip([v for r in a for v in r] if isinstance(a[0], list) else a, i.astype('float64').reshape(-1))]), what + " leaves its argument alone")
    return got
