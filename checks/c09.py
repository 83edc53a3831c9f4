"""C09  HNSW: sound for every graph, never empty, exact while n <= m"""
from .ix import *  # noqa

PROPERTY = "C09"
ASSUMPTIONS = ["random.random() draws below 1/2 at most rnd_small times per history (bounds the number of levels)",
               "random.sample(): every subset, listed in population order"]


def check_search(ctx, ix, m, p, what):
    q = ctx.vec("q", p["d"], -4, 4)
    k = p["k"]
    res = ix.search(q, k)
    sound(ctx, m, res, k, what, p["metric"], list(q))
    ctx.check_that(bool(res) or not m.live, what + "search is not empty while a vector is live", len(m.live))
    if p["n"] <= p["m"]:
        exact(ctx, m, res, k, p["metric"], list(q), what + "within neighbour limit: ")
    ctx.observe("res", [r["distance"] for r in res])
    ctx.reach("searched")


def search(ctx):
    p = ctx.params
    ix, st = index(ctx, "hnsw", {"metric": p["metric"], "m": p["m"], "ef_search": p.get("ef", 50)})
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    for j in range(p.get("ops", 0)):
        op = ctx.choice("op", p["kinds"])
        if op == "reopen":
            ix, _ = index(ctx, "hnsw", {"metric": p["metric"], "m": p["m"]}, st)
        elif op == "insert":
            ids += insert(ctx, ix, m, "w", 1, p["d"])
        else:
            i = ids[int(ctx.int("target", 0, len(ids) - 1))]
            if op == "delete":
                ok = ix.delete([i])
                ctx.check_that(bool(ok) == (i in m.live), "delete reports whether the id existed")
                m.drop(i)
            else:
                v = ctx.vec("u", p["d"], -4, 4)
                ok = update(ctx, ix, i, v, {"tag": "u"})
                ctx.check_that(bool(ok) == (i in m.live), "update reports whether the id existed")
                if i in m.live:
                    m.put(i, list(v), {"tag": "u"})
    check_search(ctx, ix, m, p, "after history: " if p.get("ops") else "")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("d", 1)
        out.append(dict(name=name, fn="search", expect=["searched"],
                        bounds="%(n)d vectors in [-4,4]^%(d)d, neighbour limit %(m)d, %(metric)s, k=%(k)d, at most %(rnd_small)d upper-level draws" % k
                        + (", every history of %d operations from %s" % (k["ops"], k["kinds"]) if k.get("ops") else ""), **k))
    add("single", metric="euclidean", n=1, m=16, k=2, rnd_small=3)
    add("single-cosine", metric="cosine", n=1, d=2, m=16, k=1, rnd_small=1)
    add("two", metric="euclidean", n=2, m=16, k=2, rnd_small=3)
    add("three-levels", metric="euclidean", n=3, m=4, k=2, rnd_small=2 if T else 1)
    add("cosine", metric="cosine", n=2, d=2, m=4, k=2, rnd_small=1)
    add("sparse", metric="euclidean", n=4 if T else 3, m=1, k=2, rnd_small=2 if T else 1)
    add("delete", metric="euclidean", n=2, m=4, k=2, rnd_small=2, ops=1, kinds=["delete"])
    add("history", metric="euclidean", n=2, m=4, k=2, rnd_small=1, ops=3 if T else 2, kinds=["delete", "update", "reopen"])
    add("sparse-history", metric="euclidean", n=3, m=1, k=2, rnd_small=1, ops=1, kinds=["delete", "update"])
    if T:
        add("cosine-history", metric="cosine", n=2, m=4, k=2, rnd_small=1, ops=2, kinds=["delete", "update"])
        add("insert-history", metric="euclidean", n=1, m=4, k=3, rnd_small=2, ops=3, kinds=["delete", "insert"])
        add("narrow-beam", metric="euclidean", n=3, m=2, k=2, rnd_small=2, ef=1)

    def crowd(name, **k):
        out.append(dict(name=name, fn="crowd", kind="hnsw", expect=["searched"],
                        bounds="%(n)d vectors of which one (and, in 1-D, nothing else) is arbitrary in [-1000,1000]; levels and links from a fixed generator" % k, **k))
    hist = [[], ["delete"], ["update", "delete-many"], ["delete-many", "insert", "reopen"], ["update", "initialize", "delete", "insert"]]
    crowd("crowd", metric="euclidean", n=14, d=1, cfg={"m": 16}, ops=hist)
    crowd("crowd-narrow", metric="euclidean", n=12, d=1, cfg={"m": 12, "ef_search": 2, "ef_construction": 2}, ops=[[], ["delete", "update"]])
    crowd("crowd-sparse", metric="euclidean", n=14, d=1, cfg={"m": 3, "ef_search": 4}, exact=False, ops=hist)
    crowd("crowd-emptied", metric="euclidean", n=9, d=1, cfg={"m": 2}, exact=False, where=[1], seeds=[1, 2, 3, 4, 5, 6], ops=[["delete-many"], ["delete-many", "delete"]])
    if T:
        crowd("crowd-40", metric="euclidean", n=40, d=1, cfg={"m": 64}, ops=hist)
        crowd("crowd-sparse-40", metric="euclidean", n=40, d=1, cfg={"m": 4}, exact=False, ops=hist, seeds=[1, 2, 3, 4])
        crowd("crowd-cosine", metric="cosine", n=12, d=2, tame=3.0, cfg={"m": 16}, ks=[2, 19], ops=hist)
    return out + narrows("hnsw", T) + bulk("hnsw", T)
