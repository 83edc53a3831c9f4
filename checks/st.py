"""Storage harness vocabulary shared by C01..C05 and C30."""
from .common import *  # noqa


def make(ctx, kind, limit=2, sub="data", init=True):
    root = str(ctx.fs.ROOT)
    if kind == "memory":
        s = ctx.mod("valori.storage.memory").MemoryStorage({})
    elif kind == "disk":
        s = ctx.mod("valori.storage.disk").DiskStorage({"data_dir": root + "/" + sub})
    else:
        s = ctx.mod("valori.storage.hybrid").HybridStorage({"memory": {}, "disk": {"data_dir": root + "/" + sub}, "memory_limit": limit})
    if init:
        s.initialize()
    return s


MDS = {"none": lambda: None, "empty": lambda: {}, "flat": lambda: {"a": 1}, "nested": lambda: {"n": {"x": [1, 2]}},
       "odd": lambda: {1: ("t", (2, None)), "": 0, "b": b"x", "f": False, "u": "gr\u00fc\u00df", "e": [], "n": {"s": {3}}}}

# identifiers that a careless mapping confuses
TWINS = ["a", "A", " a", "a ", "a\n", "0", "00", "\u00e9", "e\u0301", "\ufb01", "fi", "a%41", "aA", "a+A", "a A", "a.npy", ".a", "_a", "a.tmp", "a.b", "a.1",
         "x" * 119 + "1", "x" * 119 + "2", "x" * 119, "p/" + "y" * 60 + "1", "p/" + "y" * 60 + "2"]


def exact(a, b):
    """equal including the kinds of containers"""
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b for k in a) and AND([exact(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and AND([exact(x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, bytes, str, set)) or isinstance(b, (bool, bytes, str, set)):
        return type(a) == type(b) and a == b
    return same(a, b)


def keeps_type(got, dtype):
    """no precision is lost"""
    import numpy
    return numpy.can_cast(numpy.dtype(str(dtype)), numpy.dtype(str(got)), "safe")


def scramble(ctx, a, md):
    """what a careless caller does with its own objects"""
    for i in range(len(a)):
        a[i] = 77.0
    if md:
        for k in list(md):
            if isinstance(md[k], dict):
                for k2 in list(md[k]):
                    md[k][k2].append(9) if isinstance(md[k][k2], list) else md[k].update({k2: "?"})
            md[k] = md[k] if isinstance(md[k], dict) else "changed"
        md["extra"] = 1


def counted(st, kind):
    s = st.get_stats()
    return s["disk"]["vector_count"] if kind == "hybrid" else s["vector_count"]


def check_entry(ctx, st, i, want, what):
    got = st.retrieve_vector(i)
    if want is None:
        ctx.check_that(got is None, what + "an absent id retrieves nothing")
        return None
    ctx.check_that(got is not None, what + "a stored id is found")
    v, md = got
    ctx.check_that(len(v.shape) == 1 and veq(v, want[0]), what + "the vector is the last one stored")
    ctx.check_that(keeps_type(v.dtype, want[2] if len(want) > 2 else "float64"), what + "the vector keeps its precision", str(v.dtype))
    ctx.check_that(exact(md, want[1]) if md is not None and want[1] is not None else (md is None) == (want[1] is None),
                   what + "the metadata is the last one stored", md)
    return got


def check_all(ctx, st, kind, model, ids, what="", order=None):
    for i in (order or ids):
        check_entry(ctx, st, i, model.get(i), what)
    got = st.list_vectors()
    ctx.check_that(len(got) == len(model) and all(any(bool(g == i) for i in model) for g in got)
                   and all(any(bool(g == i) for g in got) for i in model), what + "list is exactly the stored ids", list(got))
    ctx.check_that(counted(st, kind) == len(model), what + "count is the number of stored ids", counted(st, kind))
    n = len(model)
    for k in {0, 1, 2, n - 1, n, n + 1, n + 7}:
        if k >= 0:
            lim = st.list_vectors(limit=k)
            ctx.check_that(len(lim) == min(k, n) and len({str(x) for x in lim}) == len(lim)
                           and all(any(bool(g == i) for g in got) for i in lim), what + "limited list", (k, len(lim)))


def twins(ctx):
    """any two of a list of confusable identifiers are independent entries"""
    p = ctx.params
    kind = p["kind"]
    st = make(ctx, kind, 1)
    j = ctx.choice("a", list(range(len(TWINS) - 1)))
    a, b = TWINS[j], ctx.choice("b", TWINS[j + 1:])
    model = {}
    for i in (a, b):
        v = ctx.vec("v", 1, -4, 4)
        md = {"id": i} if (TWINS.index(i) + (i is b and j % 2)) % 3 else None
        ctx.check_that(bool(st.store_vector(i, v, md)), "store succeeds")
        model[i] = (list(v), md)
    op = ctx.choice("op", p.get("then", ["none", "delete", "update"]))
    if op == "delete":
        ctx.check_that(bool(st.delete_vector(a)), "delete succeeds")
        del model[a]
        ctx.check_that(not st.delete_vector(a) and not st.update_vector(a, ctx.vec("u", 1, -4, 4), None), "a deleted id is unknown")
    elif op == "update":
        v = ctx.vec("u", 1, -4, 4)
        ctx.check_that(bool(st.update_vector(a, v, None)), "update succeeds")
        model[a] = (list(v), None)
    if p.get("reopen"):
        st.close()
        st = make(ctx, kind, 1)
    check_all(ctx, st, kind, model, [a, b])
    ctx.reach("end")


def crowd(ctx):
    """many entries, one of them arbitrary"""
    p = ctx.params
    kind, n = p["kind"], p["n"]
    st = make(ctx, kind, p.get("limit", 10))
    ids = ["doc-%d" % j for j in range(n)]
    model = {}

    def put(i, v, md):
        ctx.check_that(bool(st.store_vector(i, v, md)), "store succeeds")
        model[i] = (list(v), dict(md) if md else md)
    for j, i in enumerate(ids):
        put(i, ctx.np.array([float(j), -1.0]), {"j": j} if j % 3 else None)
    at = ids[ctx.choice("at", p["where"])]
    for op in ctx.choice("ops", p["ops"]):
        if op in ("store", "update"):
            v = ctx.vec("v", 2, -1000, 1000)
            md = {"new": 1} if ctx.flip("md") else None
            if op == "store":
                put(at, v, md)
            else:
                ctx.check_that(bool(st.update_vector(at, v, md)) == (at in model), "update reports whether the id exists")
                if at in model:
                    model[at] = (list(v), md)
        elif op == "delete":
            ctx.check_that(bool(st.delete_vector(at)) == (at in model), "delete reports whether the id existed")
            model.pop(at, None)
        elif op == "delete-many":
            for i in ids[::2]:
                if i != at:
                    ctx.check_that(bool(st.delete_vector(i)) == (i in model), "delete reports whether the id existed")
                    model.pop(i, None)
        elif op == "read":
            for i in ids[: p.get("limit", 10) * 2]:
                check_entry(ctx, st, i, model.get(i), "")
        elif op == "reopen" and kind != "memory":
            st.close()
            st = make(ctx, kind, p.get("limit", 10))
        if kind == "hybrid":
            m = st.get_stats()["memory"]["vector_count"]
            ctx.check_that(m <= p.get("limit", 10), "memory tier within its limit", m)
    check_all(ctx, st, kind, model, ids)
    ctx.reach("end")


def apply(ctx, st, kind, model, ids, op, d=1, alias=True, mds=None, dts=None):
    i = ctx.choice("id", ids)
    if op in ("store", "update"):
        dt = ctx.choice("dtype", dts) if dts else "float64"
        v = ctx.vec("v", d, -4, 4, dt) if dt != "int64" else ctx.np.array([int(ctx.int("v%d" % c, -2, 2)) for c in range(d)], dtype="int64")
        vals = list(v)
        mk = MDS[ctx.choice("md", mds or list(MDS))]
        md = mk()
        r = st.store_vector(i, v, md) if op == "store" else st.update_vector(i, v, md)
        if op == "store":
            ctx.check_that(bool(r), "store succeeds")
        else:
            ctx.check_that(bool(r) == (i in model), "update reports whether the id exists")
        if op == "store" or i in model:
            model[i] = (vals, mk(), dt)
        if alias:
            scramble(ctx, v, md)
    elif op == "refused":
        # what cannot be stored changes nothing (plain lists may be taken or refused)
        f = st.store_vector if ctx.flip("store") else st.update_vector
        if ctx.flip("bad metadata"):
            # neither copied nor pickled; copied but not pickled
            what = (x for x in ()) if kind == "memory" or ctx.flip("no copy") else (lambda: 0)
            vals, md = [ctx.real("b", -4, 4)] * d, {"n": [1], "bad": what}
            v = ctx.np.array(vals)
        else:
            vals, md = [1.5] * d, {"l": 1}
            v = list(vals)
        r, e = attempt(lambda: f(i, v, md), ctx.mod("valori.exceptions").StorageError)
        if "bad" in md:
            ctx.check_that(not r, "metadata that cannot be stored is refused")
        elif r:
            ctx.check_that(f == st.store_vector or i in model, "update reports whether the id exists")
            model[i] = (vals, {"l": 1})
    elif op == "delete":
        r = st.delete_vector(i)
        ctx.check_that(bool(r) == (i in model), "delete reports whether the id existed")
        model.pop(i, None)
    elif op == "retrieve":
        got = check_entry(ctx, st, i, model.get(i), "")
        if got is not None and alias:
            scramble(ctx, got[0], got[1])
    if kind == "hybrid":
        n = st.get_stats()["memory"]["vector_count"]
        ctx.check_that(n <= max(0, st.memory_limit), "memory tier within its limit", n)
        ctx.check_that(n == len(st.memory_storage.list_vectors()), "memory count agrees")
