"""Shared oracle vocabulary.  Works on symbolic and on concrete values alike; the
connectives do not fork."""
from engine import core

try:
    import z3
except ImportError:
    z3 = None

EPS = 1e-3


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or (hasattr(x, "__next__")):
            yield from _flat(x)
        else:
            yield x


def isb(x):
    return isinstance(x, core.SymBool)


def AND(*xs):
    zs = []
    for x in _flat(xs):
        if isb(x):
            zs.append(x.z)
        elif not x:
            return False
    return True if not zs else core.mkbool(z3.And(zs))


def OR(*xs):
    zs = []
    for x in _flat(xs):
        if isb(x):
            zs.append(x.z)
        elif x:
            return True
    return False if not zs else core.mkbool(z3.Or(zs))


def NOT(x):
    return core.mkbool(z3.Not(x.z)) if isb(x) else (not x)


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return AND(IMP(a, b), IMP(b, a))


def isnan(x):
    return (not core.is_sym(x)) and x != x


def isnum(x):
    """finite number"""
    if isinstance(x, (core.SymReal, core.SymInt)):
        return True
    try:
        x = float(x)
    except (TypeError, ValueError):
        return False
    return x == x and x not in (float("inf"), float("-inf"))


def le(a, b, eps=EPS):
    """a <= b up to eps"""
    if not isnum(a) or not isnum(b):
        if isnan(a) or isnan(b):
            return False
        return a <= b
    if not core.is_sym(a) and not core.is_sym(b):
        return bool(a <= b + eps)
    return OR(a <= b, a <= b + eps)


def eq(a, b, eps=EPS):
    if not isnum(a) or not isnum(b):
        if isnan(a) or isnan(b):
            return isnan(a) and isnan(b)
        return a == b
    if isinstance(a, core.SymReal) and isinstance(b, core.SymReal) and a.n.key() == b.n.key() and a.d.key() == b.d.key():
        return True
    return AND(le(a, b, eps), le(b, a, eps))


def rows(a):
    """list of row value lists of a 2-D array"""
    return [list(r) for r in a]


def veq(a, b, eps=1e-5):
    a, b = list(a), list(b)
    return len(a) == len(b) and AND([eq(x, y, eps) for x, y in zip(a, b)])


def meq(a, b):
    a, b = [list(x) for x in a], [list(x) for x in b]
    return len(a) == len(b) and AND([veq(x, y) for x, y in zip(a, b)])


def same(a, b):
    """deep equality that tolerates symbolic leaves, non-forking on numbers"""
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b) or any(k not in b for k in a):
            return False
        return AND([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and AND([same(x, y) for x, y in zip(a, b)])
    if hasattr(a, "shape") and hasattr(b, "shape") and not (len(a.shape) == 0 and len(b.shape) == 0):
        return tuple(a.shape) == tuple(b.shape) and AND([same(x, y) for x, y in zip(list(a.reshape(-1)), list(b.reshape(-1)))])
    if isnum(a) and isnum(b) and not isinstance(a, (bool, str)) and not isinstance(b, (bool, str)):
        return eq(a, b, 1e-5)
    if type(a).__name__.startswith("Sym") or type(b).__name__.startswith("Sym"):
        r = a == b
        return r if isb(r) or isinstance(r, bool) else bool(r)
    return type(a) == type(b) and a == b


def raises(fn, *types):
    """-> exception of one of the given types raised by fn, or None; others propagate"""
    try:
        fn()
    except types as e:
        return e
    return None


def attempt(fn, *types):
    """-> (result, None) or (None, exception)"""
    try:
        return fn(), None
    except (types or (Exception,)) as e:
        return None, e


class Sqr:
    pass


def sqrt(x):
    if isinstance(x, core.SymReal):
        return x.sqrt()
    return float(x) ** 0.5


def dist(metric, q, v):
    """reference distance between two value lists; zero vectors have cosine
    similarity 0"""
    q, v = list(q), list(v)
    if metric == "euclidean":
        return sqrt(sum(((a - b) * (a - b) for a, b in zip(q, v)), start=0.0 + 0 * q[0]))
    if metric == "manhattan":
        s = 0
        for a, b in zip(q, v):
            s = s + abs(a - b)
        return s
    if metric == "cosine":
        nq = sqrt(sum((a * a for a in q), start=0 * q[0]))
        nv = sqrt(sum((a * a for a in v), start=0 * v[0]))
        if bool(nq == 0) or bool(nv == 0):
            return 1.0
        return 1 - sum((a * b for a, b in zip(q, v)), start=0 * q[0]) / (nq * nv)
    raise ValueError(metric)


def to_int(x):
    """int() that also parses symbolic strings"""
    if core.is_sym(x):
        from engine import loader
        return loader.conv_int(x)
    return int(x)


class Fixed:
    """a small fixed generator (the random module is stubbed in symbolic runs and replays)"""

    def __init__(self, seed):
        self.s = seed * 7919 + 12345

    def random(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (self.s >> 33) / float(2 ** 31)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + min(b - a, int(self.random() * (b - a + 1)))

    def choice(self, seq):
        return seq[self.randint(0, len(seq) - 1)]

    def sample(self, seq, k):
        items = list(seq)
        return [items.pop(self.randint(0, len(items) - 1)) for _ in range(k)]
