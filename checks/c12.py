"""C12  Annoy wrapper: live ids only, right metadata, current vectors"""
from .ix import *  # noqa

PROPERTY = "C12"
ASSUMPTIONS = ["the Annoy library returns the exact nearest items in the symbolic run (the replay uses the real library)"]


def annoy_sim(metric, q, v):
    if metric == "euclidean" or metric == "manhattan":
        return 1 / (1 + dist(metric, q, v))
    c = similarity("cosine", q, v)
    x = 2 - 2 * c
    if not hasattr(x, "sqrt") and x < 0:
        x = 0.0
    s = 1 - sqrt(x) / 2
    return s if bool(s > 0) else 0.0


def search(ctx):
    p = ctx.params
    ix, st = index(ctx, "annoy", {"metric": p["metric"], "num_trees": 2, "build_on_disk": p.get("disk", False)})
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    built = False
    if p.get("built", True):
        ix.build()
        built = True
    for _ in range(p.get("ops", 0)):
        op = ctx.choice("op", p["kinds"])
        if op == "insert":
            ids += insert(ctx, ix, m, "w", 1, p["d"])
            continue
        if op == "build":
            ix.build()
            continue
        if op == "clear":
            ix.clear()
            for i in list(m.live):
                m.drop(i)
            continue
        i = ids[int(ctx.int("target", 0, len(ids) - 1))]
        if op == "delete":
            ok = ix.delete([i])
            ctx.check_that(bool(ok) == (i in m.live), "delete reports whether the id existed")
            m.drop(i)
        else:
            v = ctx.vec("u", p["d"], -4, 4)
            Err = ctx.mod("valori.exceptions").ValoriError
            ok, e = attempt(lambda: update(ctx, ix, i, v, {"tag": "u"}), Err)
            ctx.check_that(bool(ok) == (i in m.live), "update succeeds exactly for live ids")
            if i in m.live:
                m.put(i, list(v), {"tag": "u"})
    st = ix.get_stats()
    ctx.check_that(st["num_vectors"] == len(m.live), "count is the number of live vectors", st["num_vectors"])
    if not st["built"] or ctx.flip("rebuild"):
        ix.build()
    q = ctx.vec("q", p["d"], -4, 4)
    k = p["k"]
    res = ix.search(q, k)
    sound_sim(ctx, m, res, k, None, list(q))
    ctx.check_that(AND([eq(r["distance"], annoy_sim(p["metric"], list(q), m.live[str(r["id"])][0]), 2e-3) for r in res]),
                   "reported similarity is that of the current vector")
    ctx.check_that(len(res) == min(k, len(m.live)), "min(k, live) results", (len(res), len(m.live)))
    got = {str(r["id"]) for r in res}
    if res and len(got) < len(m.live):
        worst = res[-1]["distance"]
        ctx.check_that(AND([le(annoy_sim(p["metric"], list(q), v), worst, 2e-3) for i, (v, _) in m.live.items() if i not in got]),
                       "no omitted vector is more similar")
    ctx.observe("res", [r["distance"] for r in res])
    ctx.reach("searched")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="search", **k):
        k.setdefault("d", 1)
        out.append(dict(name=name, fn=fn, expect=["searched"], bounds="vectors in [-4,4]^%d, %s" % (k["d"], k), **k))
    add("plain", metric="euclidean", n=2, k=2)
    add("angular", metric="angular", n=2, k=1, d=1)
    add("angular-2d", metric="angular", n=1, k=1, d=2)
    add("manhattan", metric="manhattan", n=2, k=1, d=2)
    add("disk", metric="euclidean", n=1, k=2, disk=True, ops=1, kinds=["delete", "update", "insert", "clear"])
    add("before-build", metric="euclidean", n=2, k=2, built=False, ops=1, kinds=["delete", "update", "insert", "clear"])
    add("history", metric="euclidean", n=2, k=2, ops=1, kinds=["delete", "update", "insert", "build", "clear"])
    add("history-2", metric="euclidean", n=2, k=3, ops=2, kinds=["delete", "update"])
    add("history-3", metric="euclidean", n=1, k=3, ops=3, kinds=["delete", "insert", "clear"])
    if T:
        add("history-4", metric="euclidean", n=2, k=2, ops=3, kinds=["delete", "update", "insert", "clear"])
        add("angular-history", metric="angular", n=2, k=2, ops=2, kinds=["delete", "update", "insert"])
        add("three", metric="manhattan", n=3, k=2, d=2)
        add("disk-history", metric="euclidean", n=2, k=2, disk=True, ops=2, kinds=["delete", "update", "insert", "clear", "build"])

    def crowd(name, **k):
        out.append(dict(name=name, fn="crowd", kind="annoy", expect=["searched"],
                        bounds="%(n)d vectors of which one is arbitrary in [-1000,1000]" % k, **k))
    hist = [[], ["delete"], ["update", "delete-many"], ["delete-many", "insert", "delete", "update"], ["clear", "insert", "insert"], ["insert", "initialize", "update"]]
    crowd("crowd", metric="euclidean", n=14, d=1, cfg={"num_trees": 2}, ops=hist)
    crowd("crowd-disk", metric="manhattan", n=12, d=2, tame=3.0, cfg={"num_trees": 2, "build_on_disk": True}, ops=hist, ks=[3, 19])
    if T:
        crowd("crowd-40", metric="euclidean", n=40, d=1, cfg={"num_trees": 3}, ops=hist)
    return out + narrows("annoy", T) + bulk("annoy", T)
