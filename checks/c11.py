"""C11  LSH: self-retrieval, soundness, threshold, for every choice of projections"""
from .ix import *  # noqa

PROPERTY = "C11"
ASSUMPTIONS = ["projections and offsets: any reals in [-3,3] and [0,1) (contract of the numpy generator)",
               "hash_size not larger than num_projections"]


def cfg(p):
    return {"metric": p["metric"], "num_hash_tables": p["tables"], "hash_size": p["hash"], "num_projections": p.get("proj", p["tables"] * p["hash"]),
            "threshold": p.get("threshold", 0.5)}


def step(ctx, ix, m, ids, p):
    op = ctx.choice("op", p["kinds"])
    if op == "insert":
        ids += insert(ctx, ix, m, "w", 1, p["d"])
        return
    if op == "initialize":
        ix.initialize(memory(ctx))
        return
    if op == "clear":
        ix.clear()
        for i in list(m.live):
            m.drop(i)
        return
    i = ids[int(ctx.int("target", 0, len(ids) - 1))]
    if op == "delete":
        ok = ix.delete([i])
        ctx.check_that(bool(ok) == (i in m.live), "delete reports whether the id existed")
        m.drop(i)
    else:
        v = ctx.vec("u", p["d"], -4, 4)
        ok = update(ctx, ix, i, v, {"tag": "u"})
        ctx.check_that(bool(ok) == (i in m.live), "update reports whether the id existed")
        if i in m.live:
            m.put(i, list(v), {"tag": "u"})


def search(ctx):
    p = ctx.params
    ix, st = index(ctx, "lsh", cfg(p))
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    for _ in range(p.get("ops", 0)):
        step(ctx, ix, m, ids, p)
    k = p["k"]
    thr = p.get("threshold", 0.5)
    if p["query"] == "stored" and m.live:
        live = sorted(m.live, key=ids.index)
        i = live[int(ctx.int("which", 0, len(live) - 1))]
        q = ctx.np.array(list(m.live[i][0]))
        res = ix.search(q, k)
        s = similarity(p["metric"], list(q), m.live[i][0])
        if i not in [str(r["id"]) for r in res] and bool(s >= thr + EPS):
            # only k others at least as similar may push it out
            ctx.check_that(len(res) == k, "a stored vector is found by its own query", (i, len(res)))
            ctx.check_that(AND([le(s, r["distance"]) for r in res]), "a stored vector is only displaced by vectors at least as similar")
        ctx.reach("self query")
    else:
        q = ctx.vec("q", p["d"], -4, 4)
        res = ix.search(q, k)
    sound_sim(ctx, m, res, k, p["metric"], list(q))
    ctx.check_that(AND([le(thr, r["distance"]) for r in res]), "no result below the threshold")
    ctx.check_that(ix.get_stats()["num_vectors"] == len(m.live), "count is the number of live vectors")
    ctx.observe("res", [r["distance"] for r in res])
    ctx.reach("searched")


def per_call(ctx):
    """a threshold passed to the call replaces the configured one"""
    p = ctx.params
    ix, st = index(ctx, "lsh", cfg(p))
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    q = ctx.vec("q", p["d"], -4, 4)
    t = ctx.choice("threshold", p.get("thresholds", [-1.0, 0.0, 0.25, 0.9, None]))
    # the threshold only filters: what a search without one finds is found if it passes
    every = ix.search(q, p["n"], threshold=-2.0)
    if t is None:
        t = p.get("threshold", 0.5)
        res = ix.search(q, p["k"])
    else:
        res = ix.search(q, p["k"], threshold=t)
    got = {str(r["id"]) for r in res}
    if len(res) < p["k"]:
        ctx.check_that(AND([le(r["distance"], t) for r in every if str(r["id"]) not in got]), "every candidate passing the threshold is returned", (len(every), len(res)))
        ctx.reach("filtered")
    sound_sim(ctx, m, res, p["k"], p["metric"], list(q))
    ctx.check_that(AND([le(t, r["distance"]) for r in res]), "no result below the threshold of the call")
    # everything in the bucket of an identical vector that passes is there
    v0 = m.live[ids[0]][0]
    res = ix.search(ctx.np.array(list(v0)), p["k"], threshold=t)
    if bool(similarity(p["metric"], v0, v0) >= t + EPS):
        ctx.check_that(ids[0] in [str(r["id"]) for r in res] or len(res) == p["k"], "a stored vector passing the call's threshold is found")
    ctx.reach("searched")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="search", **k):
        k.setdefault("d", 1)
        k.setdefault("query", "stored")
        k.setdefault("expect", ["searched"] + (["self query"] if k["query"] == "stored" and fn == "search" else []))
        out.append(dict(name=name, fn=fn, bounds="vectors in [-4,4]^%d, %s" % (k["d"], {a: b for a, b in k.items() if a != "expect"}), **k))
    add("self-euclid", metric="euclidean", tables=1, hash=2, n=2, k=2)
    add("self-cosine", metric="cosine", tables=1, hash=1, n=2, k=2, d=1)
    add("self-cosine-2d", metric="cosine", tables=1, hash=1, n=1, k=1, d=2)
    add("self-manhattan", metric="manhattan", tables=2, hash=1, n=2, k=1, d=1)
    add("wrapped-projections", metric="euclidean", tables=2, hash=2, proj=3, n=2, k=2)
    add("query", metric="euclidean", tables=1, hash=1, n=2, k=2, query="any", threshold=0.2)
    add("query-manhattan", metric="manhattan", tables=1, hash=1, n=2, k=1, d=2, query="any", threshold=0.2)
    add("per-call", "per_call", metric="euclidean", tables=1, hash=1, n=2, k=2, expect=["searched", "filtered"])
    add("per-call-cosine", "per_call", metric="cosine", tables=1, hash=1, n=2, k=3, d=1, thresholds=[-1.0, 0.0, None], expect=["searched", "filtered"])
    add("zero-threshold", "per_call", metric="cosine", tables=1, hash=1, n=1, k=2, d=2 if T else 1, threshold=0.0, thresholds=[None, 0.5], expect=["searched", "filtered"])
    add("history-clear", metric="euclidean", tables=1, hash=1, n=1, k=3, ops=2 if not T else 3, kinds=["clear", "insert", "initialize"], expect=["searched", "self query"])
    add("history", metric="euclidean", tables=1, hash=1, n=2, k=3, ops=2, kinds=["delete", "update"] + (["insert", "clear"] if T else []))
    add("history-any", metric="euclidean", tables=1, hash=1, n=2, k=3, ops=1, query="any", kinds=["delete", "update", "insert", "clear"])
    if T:
        add("two-tables", metric="euclidean", tables=2, hash=2, n=2, k=2, d=2)
        add("cosine-history", metric="cosine", tables=1, hash=1, n=2, k=2, ops=2, kinds=["delete", "update", "insert"])
        add("three", metric="euclidean", tables=1, hash=2, n=3, k=2, query="any")

    def crowd(name, **k):
        out.append(dict(name=name, fn="crowd", kind="lsh", expect=["searched"],
                        bounds="%(n)d vectors of which one is arbitrary in [-1000,1000]; projections from a fixed generator" % k, **k))
    hist = [[], ["delete"], ["update", "delete-many"], ["delete-many", "insert", "update"], ["clear", "insert", "insert"]]
    crowd("crowd", metric="euclidean", n=14, d=1, cfg={"num_hash_tables": 2, "hash_size": 3, "num_projections": 6, "threshold": 0.05}, ops=hist[1:], self=[5], seeds=[1], ks=[1, 21], where=[13])
    crowd("crowd-again", metric="euclidean", n=5, range=1, d=1, cfg={"num_hash_tables": 1, "hash_size": 2, "num_projections": 2, "threshold": 0.0}, ops=[["insert", "initialize", "update"]], self=[3], seeds=[1], ks=[9], where=[2])
    crowd("crowd-manhattan", metric="manhattan", n=12, d=2, tame=3.0, cfg={"num_hash_tables": 3, "hash_size": 3, "num_projections": 8, "threshold": 0.0}, ops=[[], ["update", "delete-many"], ["clear", "insert", "insert"]], self=[5], ks=[3, 19], seeds=[2], where=[0])
    if T:
        crowd("crowd-40", metric="euclidean", n=40, d=1, cfg={"num_hash_tables": 3, "hash_size": 4, "num_projections": 12, "threshold": 0.01}, ops=hist, self=[0, 5, 39], seeds=[1, 2, 3])
        crowd("crowd-cosine", metric="cosine", n=12, d=2, tame=3.0, cfg={"num_hash_tables": 3, "hash_size": 4, "num_projections": 12, "threshold": 0.1}, ks=[2, 19], ops=hist, self=[0, 5])
    return out + narrows("lsh", T) + bulk("lsh", T)
