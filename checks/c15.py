"""C15  malformed vectors are refused and leave every index as it was"""
from .ix import *  # noqa

PROPERTY = "C15"
CFG = {"flat": {}, "hnsw": {"m": 8}, "ivf": {"n_clusters": 2, "n_probes": 2},
       "lsh": {"num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {}}
ASSUMPTIONS = ["stored vectors are symbolic; random projections and levels are fixed small choices here"]


def bad_array(ctx, p, name, d, nd):
    """an array that is not a valid (n, d) batch / (d,) vector"""
    how = ctx.choice(name + ".how", p["how"])
    if how == "ndim":
        n = ctx.choice(name + ".ndim", [x for x in (0, 1, 2, 3) if x != nd])
        return {0: lambda: ctx.np.array(1.5), 1: lambda: ctx.np.array([1.0] * d), 2: lambda: ctx.np.array([[1.0] * d]),
                3: lambda: ctx.np.array([[[1.0] * d]])}[n](), how
    if how == "width":
        w = ctx.choice(name + ".width", [d - 1, d + 1, d + 2] if d > 1 else [d + 1, d + 2])
        row = list(ctx.vec(name + ".w", w, -4, 4))
    else:
        if p.get("wider"):
            d += ctx.choice(name + ".wider", [1, 2])
        row = list(ctx.vec(name + ".x", d, -4, 4))
        row[ctx.choice(name + ".pos", list(range(d)))] = float(ctx.choice(name + ".special", ["nan", "inf", "-inf"] if not p.get("light") else ["nan"]))
    if nd == 1:
        return ctx.np.array(row), how
    if how == "width":
        return ctx.np.array([row]), how
    good = list(ctx.vec(name + ".g", d, -4, 4))
    return ctx.np.array({"only": [row], "first": [row, good], "last": [good, row]}[ctx.choice(name + ".where", ["only", "last", "first"])]), how


def look(ctx, ix, kind, q, n):
    if kind == "annoy" and n and not ix.get_stats()["built"]:
        ix.build()
    res = ix.search(q, n + 2) if n else []
    s = ix.get_stats()
    return (s["vector_count"] if "vector_count" in s else s["num_vectors"]), [(str(r["id"]), r["distance"], r["metadata"]) for r in res]


def unchanged(ctx, a, b, what):
    ctx.check_that(a[0] == b[0], what + "the count is unchanged", (a[0], b[0]))
    ctx.check_that(sorted(x[0] for x in a[1]) == sorted(x[0] for x in b[1]), what + "the same vectors are found", ([x[0] for x in a[1]], [x[0] for x in b[1]]))
    bm = {x[0]: x for x in b[1]}
    ctx.check_that(AND([AND(eq(x[1], bm[x[0]][1]), same(x[2] or None, bm[x[0]][2] or None)) for x in a[1]]), what + "search results are unchanged")


def refuse(ctx):
    p = ctx.params
    kind, d = p["kind"], p["d"]
    Err = ctx.mod("valori.exceptions").ValoriError
    ix, st = index(ctx, kind, dict(CFG[kind], metric=p["metric"]))
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], d) if p["n"] else []
    if p.get("emptied"):
        ix.delete(list(ids))
        m.live.clear()
    q = ctx.vec("q", d, -4, 4)
    n = len(m.live)
    before = look(ctx, ix, kind, q, n)
    listed = sorted(st.list_vectors())
    for j in range(p.get("bad", 1)):
        op = ctx.choice("op", p["kinds"])
        if op == "insert":
            x, how = bad_array(ctx, p, "bad", d, 2)
            md = [{"bad": 1}] * 2 if how == "ndim" and ctx.flip("bad md") else None
            if how == "width" and not m.live:
                # the width is free while nothing is stored
                ctx.stop()
            r, e = attempt(lambda: ix.insert(x, md), Err)
            ctx.check_that(e is not None, "a malformed insert is refused", (how, r))
        elif op == "search":
            x, how = bad_array(ctx, p, "bad", d, 1)
            r, e = attempt(lambda: ix.search(x, 2), Err)
            if n:
                ctx.check_that(e is not None, "a malformed query is refused", (how, r))
            else:
                ctx.check_that(e is not None or not r, "a malformed query finds nothing", (how, r))
        else:
            x, how = bad_array(ctx, p, "bad", d, 1)
            i = ids[0] if ids and ctx.flip("known") else "unknown"
            r, e = attempt(lambda: ix.update(i, x, {"bad": 1}), Err)
            ctx.check_that(e is not None or not r, "a malformed update is refused", (how, r))
        unchanged(ctx, before, look(ctx, ix, kind, q, n), "after a refused %s: " % op)
        ctx.check_that(sorted(st.list_vectors()) == listed, "storage is unchanged after a refused %s" % op)
        ctx.reach(op)
    # valid requests still work
    w = ctx.vec("w", d, -4, 4)
    r, e = attempt(lambda: ix.insert(ctx.np.array([list(w)]), [{"ok": 1}]), Err)
    ctx.check_that(e is None, "a valid insert works after a refused request", str(e))
    got = look(ctx, ix, kind, w, n + 1)
    ctx.check_that(got[0] == n + 1, "the valid vector is counted")
    found = sorted(x[0] for x in got[1])
    if kind == "lsh":           # only the bucket of the query is searched
        ctx.check_that(str(r[0]) in found and all(x == str(r[0]) or x in m.live for x in found), "the valid vector is found", found)
    else:
        ctx.check_that(found == sorted([str(r[0])] + [str(i) for i in m.live]), "all valid vectors are found", found)
    if ids and not p.get("emptied"):
        u = ctx.vec("u", d, -4, 4)
        ok, e = attempt(lambda: ix.update(ids[0], u, {"ok": 2}), Err)
        ctx.check_that(bool(ok), "a valid update works after a refused request", str(e))
    ctx.reach("end")


def late(ctx):
    """one bad number anywhere in a large batch or a long vector"""
    p = ctx.params
    kind, n, d = p["kind"], p["n"], p["d"]
    Err = ctx.mod("valori.exceptions").ValoriError
    ix, st = index(ctx, kind, dict(CFG[kind], metric="euclidean"))
    good = [[float(i), 0.5] + [1.0] * (d - 2) for i in range(3)]
    ids = ix.insert(ctx.np.array(good), [{"i": i} for i in range(3)])
    if kind == "annoy":
        ix.build()
    q = ctx.np.array([ctx.real("q", 0.2, 0.4), 0.5] + [1.0] * (d - 2))
    before = look(ctx, ix, kind, q, 3)
    listed = sorted(st.list_vectors())
    bad = float(ctx.choice("special", ["nan", "inf", "-inf"]))
    op = ctx.choice("op", ["insert", "search", "update"])
    if op == "insert":
        R = [[float(i % 7), 1.0] + [0.0] * (d - 2) for i in range(n)]
        R[ctx.choice("row", p["at"])][ctx.choice("column", [0, d - 1])] = bad
        r, e = attempt(lambda: ix.insert(ctx.np.array(R), [{"bad": i} for i in range(n)]), Err)
        ctx.check_that(e is not None, "a malformed insert is refused", r and len(r))
    else:
        v = [1.0] * d
        v[ctx.choice("column", sorted({0, d // 2, d - 1}))] = bad
        r, e = attempt((lambda: ix.search(ctx.np.array(v), 2)) if op == "search" else lambda: ix.update(ids[0], ctx.np.array(v), {"bad": 1}), Err)
        ctx.check_that(e is not None or (op == "update" and not r), "a malformed %s is refused" % op, r)
    unchanged(ctx, before, look(ctx, ix, kind, q, 3), "after a refused %s: " % op)
    ctx.check_that(sorted(st.list_vectors()) == listed, "storage is unchanged after a refused %s" % op)
    ctx.reach(op)


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("how", ["ndim", "width", "special"])
        k.setdefault("expect", ["end"] + k["kinds"])
        out.append(dict(name=name, fn="refuse", rnd_small=0, bounds="%s" % {a: b for a, b in k.items() if a != "expect"}, **k))
    for kind in MODS:
        small = kind in ("lsh", "ivf") and not T
        add(kind + "-insert", kind=kind, metric="euclidean", n=1, d=1 if small else 2, kinds=["insert"])
        add(kind + "-query", kind=kind, metric="euclidean", n=1 if small else 2, d=1, kinds=["search", "update"], light=not T)
        if kind == "ivf" and small:
            add("ivf-trained", kind=kind, metric="euclidean", n=2, d=1, kinds=["insert", "search", "update"], how=["special"], light=True)
        add(kind + "-empty", kind=kind, metric="euclidean", n=0, d=2, kinds=["insert", "search", "update"], how=["ndim", "special", "width"])
        out.append(dict(name=kind + "-late", fn="late", kind=kind, n=140 if not T else 1100, d=2, at=[0, 63, 64, 99, 100, 127, 128, 139] + ([999, 1000, 1023, 1024, 1099] if T else []), rnd_small=0,
                        expect=["insert", "search", "update"], bounds="a batch of 140 vectors (thorough 1100) with one bad number at a block boundary"))
        out.append(dict(name=kind + "-wide", fn="late", kind=kind, n=2, d=70, at=[0, 1], rnd_small=0, expect=["insert", "search", "update"], bounds="vectors of 70 numbers, one of them bad"))
        add(kind + "-fresh", kind=kind, metric="euclidean", n=0, d=1, kinds=["insert", "search"], how=["special"], light=True, wider=True)
        add(kind + "-emptied", kind=kind, metric="euclidean", n=1, d=1, emptied=True, kinds=["insert", "search"], how=["ndim", "special"])
        if T:
            add(kind + "-two", kind=kind, metric="euclidean", n=1, d=1, bad=2, kinds=["insert", "search", "update"])
            add(kind + "-three", kind=kind, metric="euclidean", n=2, d=2, kinds=["insert", "search", "update"], how=["special", "width"])
            add(kind + "-cosine", kind=kind, metric="cosine", n=1, d=2, kinds=["insert", "search", "update"])
    return out
