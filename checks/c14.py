"""C14  an index opened on storage that already holds vectors serves them"""
from .ix import *  # noqa
from . import st as S

PROPERTY = "C14"
CFG = {"flat": {}, "hnsw": {"m": 8}, "ivf": {"n_clusters": 2, "n_probes": 2}}
ASSUMPTIONS = ["KMeans: any partition of the samples into non-empty clusters, centres are the means of their members"]


def reopen(ctx):
    p = ctx.params
    kind, cfg = p["kind"], dict(CFG[p["kind"]], metric=p["metric"])
    store = S.make(ctx, p["store"], 1)
    m = Model()
    ids = []
    if p.get("direct"):
        # vectors put into the storage by someone else, under arbitrary ids
        for j in range(p["n"]):
            v = ctx.vec("s", p["d"], -4, 4)
            md = {"s": j} if ctx.flip("md") else None
            i = p["direct"][j]
            store.store_vector(i, v, md)
            m.put(i, list(v), md)
            ids.append(i)
    else:
        ix, _ = index(ctx, kind, cfg, store)
        ids = insert(ctx, ix, m, "v", p["n"], p["d"])
        for j in range(p["ops"]):
            op = ctx.choice("op", p["kinds"])
            i = ids[int(ctx.int("target", 0, len(ids) - 1))]
            if op == "delete":
                ix.delete([i])
                m.drop(i)
            elif op == "update":
                v = ctx.vec("u", p["d"], -4, 4)
                update(ctx, ix, i, v, {"tag": "u"})
                if i in m.live:
                    m.put(i, list(v), {"tag": "u"})
            else:
                ids += insert(ctx, ix, m, "w", 1, p["d"])
        ix.close()
    if p["store"] != "memory":
        store.close()
        store = S.make(ctx, p["store"], 1)
    for rnd in range(p.get("cycles", 1)):
        ix, _ = index(ctx, kind, cfg, store)
        ctx.check_that(ix.get_stats()["vector_count"] == len(m.live), "a reopened index counts the stored vectors", ix.get_stats()["vector_count"])
    q = ctx.vec("q", p["d"], -4, 4)
    exact(ctx, m, ix.search(q, p["k"]), p["k"], p["metric"], list(q), "reopened: ")
    after = ctx.choice("after", p["after"])
    if after == "insert":
        ids += insert(ctx, ix, m, "x", 1, p["d"])
    elif after == "delete":
        i = ids[int(ctx.int("t2", 0, len(ids) - 1))]
        ctx.check_that(bool(ix.delete([i])) == (i in m.live), "delete after reopening reports whether the id exists")
        m.drop(i)
    elif after == "update":
        i = ids[int(ctx.int("t2", 0, len(ids) - 1))]
        v = ctx.vec("y", p["d"], -4, 4)
        ctx.check_that(bool(update(ctx, ix, i, v, {"tag": "y"})) == (i in m.live), "update after reopening reports whether the id exists")
        if i in m.live:
            m.put(i, list(v), {"tag": "y"})
    if after != "none":
        ctx.check_that(ix.get_stats()["vector_count"] == len(m.live), "count after the operation", ix.get_stats()["vector_count"])
        res = ix.search(q, len(ids) + 1)
        sound(ctx, m, res, len(ids) + 1, "after %s: " % after, p["metric"], list(q))
        ctx.check_that(len(res) == len(m.live), "after %s every live vector is found" % after, (len(res), len(m.live)))
    ctx.observe("n", len(m.live))
    ctx.reach("end")


def database(ctx):
    """the same through the client: close, build again, initialise"""
    p = ctx.params
    C = ctx.mod("valori.client").VectorDBClient
    mod, cls = MODS[p["kind"]]
    mk = lambda: C(S.make(ctx, p["store"], 1, init=False), getattr(ctx.mod(mod), cls)(dict(CFG[p["kind"]], metric="euclidean")))
    db = mk()
    db.initialize()
    m = Model()
    V = ctx.mat("v", 2, 1, -4, 4)
    mds = [{"t": 0}, {"t": 1}]
    ids = db.insert(V, mds)
    for i, r, md in zip(ids, rows(V), mds):
        m.put(i, r, md)
    if ctx.flip("delete"):
        db.delete([ids[0]])
        m.drop(ids[0])
    db.close()
    if ctx.flip("same object"):
        db.initialize()
    else:
        db = mk()
        db.initialize()
    q = ctx.vec("q", 1, -4, 4)
    exact(ctx, m, db.search(q, 2), 2, "euclidean", list(q), "reopened database: ")
    ctx.check_that(db.get_stats()["index"]["vector_count"] == len(m.live), "reopened database counts its vectors")
    ctx.reach("end")


def many(ctx):
    """a storage that already holds far more vectors than any page, batch or cache"""
    p = ctx.params
    kind, n = p["kind"], p["n"]
    ctx.rnd_seeded = Fixed(1)
    cfg = dict(CFG[kind], metric=p["metric"])
    store = S.make(ctx, p["store"], p.get("limit", 4))
    vals = spread(n - 1, 1)
    x = list(ctx.vec("x", 1, p.get("low", -1000), 1000))
    where = ctx.choice("where", p.get("where", [0, n - 1]))
    vals = vals[:where] + [x] + vals[where:]
    m = Model()
    for j in range(n):
        store.store_vector("v%d" % j, ctx.np.array(list(vals[j])), {"i": j})
        m.put("v%d" % j, vals[j], {"i": j})
    for _ in range(p.get("cycles", 1)):
        ix, _s = index(ctx, kind, cfg, store)
    ctx.check_that(ix.get_stats()["vector_count"] == n, "a reopened index counts the stored vectors", ix.get_stats()["vector_count"])
    gone = ctx.choice("gone", p.get("gone", [None, n - 1]))
    if gone is not None:
        ctx.check_that(bool(ix.delete(["v%d" % gone])), "a vector found in storage can be deleted")
        m.drop("v%d" % gone)
        ctx.check_that(ix.get_stats()["vector_count"] == n - 1 and store.retrieve_vector("v%d" % gone) is None, "it is gone")
    q = ctx.np.array([5.0])
    for k in p.get("ks", [n + 7]):
        res = ix.search(q, k)
        if p.get("light"):
            ctx.check_that(len(res) == min(k, n), "every vector is found", len(res))
            ctx.check_that(res[-1]["id"] == "v%d" % where and eq(res[-1]["distance"], dist(p["metric"], list(q), x)), "the farthest comes last", res[-1]["id"])
        elif p.get("exact", True):
            exact(ctx, m, res, k, p["metric"], list(q), "k=%d: " % k)
        else:
            sound(ctx, m, res, k, "k=%d: " % k, p["metric"], list(q))
    ctx.observe("n", n)
    ctx.reach("end")


def reinit(ctx):
    """one index object, initialised again after its storage changed under it"""
    p = ctx.params
    kind, cfg = p["kind"], dict(CFG[p["kind"]], metric="euclidean")
    store = S.make(ctx, p["store"], 1)
    m = Model()
    ix, _ = index(ctx, kind, cfg, store)
    ids = insert(ctx, ix, m, "v", p["n"], 1)
    q = ctx.vec("q", 1, -4, 4)
    if ctx.flip("search first"):
        ix.search(q, 2)
    if ctx.flip("close"):
        ix.close()
    i = ids[int(ctx.int("target", 0, len(ids) - 1))]
    op = ctx.choice("op", ["delete", "update", "store", "other"])
    if op == "delete":
        store.delete_vector(i)
        m.drop(i)
    elif op == "other":
        store = S.make(ctx, "memory", 1)
        m = Model()
    if op in ("update", "other"):
        v = ctx.vec("u", 1, -4, 4)
        store.store_vector(i, v, {"tag": "u"})
        m.put(i, list(v), {"tag": "u"})
    elif op == "store":
        v = ctx.vec("u", 1, -4, 4)
        store.store_vector("zz", v, {"tag": "u"})
        m.put("zz", list(v), {"tag": "u"})
    ix.initialize(store)
    ctx.check_that(ix.get_stats()["vector_count"] == len(m.live), "an index initialised again counts the stored vectors", ix.get_stats()["vector_count"])
    exact(ctx, m, ix.search(q, 2), 2, "euclidean", list(q), "initialised again: ")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="reopen", **k):
        k.setdefault("d", 1)
        k.setdefault("metric", "euclidean")
        k.setdefault("ops", 0)
        k.setdefault("n", 2)
        k.setdefault("k", 2)
        k.setdefault("after", ["none"])
        k.setdefault("expect", ["end"])
        out.append(dict(name=name, fn=fn, rnd_small=0 if not T else 1, bounds="%s" % {a: b for a, b in k.items() if a != "expect"}, **k))
    for kind in ("flat", "hnsw", "ivf"):
        for store in ("memory", "disk", "hybrid"):
            add("%s-%s" % (kind, store), kind=kind, store=store, ops=1, kinds=["delete", "update"])
            add("%s-%s-client" % (kind, store), "database", kind=kind, store=store) if store != "memory" else None
        add(kind + "-after", kind=kind, store="disk", after=["insert", "delete", "update"], cycles=2)
        add(kind + "-direct", kind=kind, store="disk", direct=["x/y", "x_y"], after=["delete"])
        add(kind + "-cosine", kind=kind, store="disk", metric="cosine", n=1, k=1)
        add(kind + "-reinit", "reinit", kind=kind, store="disk" if kind != "hnsw" else "memory")
        add(kind + "-many", "many", kind=kind, store="memory" if kind != "flat" else "hybrid", n=60, cycles=2, ks=[3, 67], exact=kind != "hnsw")
        if kind != "hnsw" or T:
            add(kind + "-1010", "many", kind=kind, store="memory", n=1010, where=[1009], low=900, ks=[1017], gone=[None], light=True, opts={"path_timeout": 90})
        if T:
            add(kind + "-reinit3", "reinit", kind=kind, store="hybrid", n=3)
            add(kind + "-history", kind=kind, store="disk", ops=2, kinds=["delete", "update", "insert"], k=3)
            add(kind + "-three", kind=kind, store="hybrid", n=3, k=2)
            add(kind + "-plane", kind=kind, store="disk", n=2, k=1, d=2)
            add(kind + "-cosine2", kind=kind, store="disk", metric="cosine", n=2, k=2, d=1, after=["update"])
    return out
