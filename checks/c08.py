"""C08  flat index: exact top-k"""
from .ix import *  # noqa

PROPERTY = "C08"


def topk(ctx):
    p = ctx.params
    ix, st = index(ctx, "flat", {"metric": p["metric"]})
    m = Model()
    for j, n in enumerate(p["batches"]):
        insert(ctx, ix, m, "v%d" % j, n, p["d"])
    q = ctx.vec("q", p["d"], -4, 4)
    k = int(ctx.int("k", 1, p["kmax"]))
    res = ix.search(q, k)
    exact(ctx, m, res, k, p["metric"], list(q))
    ctx.observe("d", [r["distance"] for r in res])
    ctx.reach("searched")


def history(ctx):
    """insert, then delete / update / reopen in any combination, then search"""
    p = ctx.params
    ix, st = index(ctx, "flat", {"metric": p["metric"]})
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    for step in range(p["steps"]):
        op = ctx.choice("op", ["delete", "update", "reopen", "search"])
        if op == "reopen":
            ix, _ = index(ctx, "flat", {"metric": p["metric"]}, st)
            continue
        i = ids[int(ctx.int("target", 0, len(ids) - 1))]
        if op == "delete":
            ok = ix.delete([i])
            ctx.check_that(bool(ok) == (i in m.live), "delete reports whether the id existed")
            m.drop(i)
        elif op == "update":
            v = ctx.vec("u", p["d"], -4, 4)
            ok = update(ctx, ix, i, v, {"tag": "u"})
            ctx.check_that(bool(ok) == (i in m.live), "update reports whether the id existed")
            if i in m.live:
                m.put(i, list(v), {"tag": "u"})
        else:
            ix.search(ctx.vec("q0", p["d"], -4, 4), 1)
    q = ctx.vec("q", p["d"], -4, 4)
    res = ix.search(q, p["n"])
    exact(ctx, m, res, p["n"], p["metric"], list(q), "after history: ")
    ctx.observe("d", [r["distance"] for r in res])
    ctx.reach("searched")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, **k):
        out.append(dict(name=name, fn=fn, expect=["searched"], **k))
    for metric in ("euclidean", "cosine"):
        for batches, d, kmax in ([([1], 2, 2), ([3], 1, 3), ([2, 1], 2, 4)] + ([([4], 1, 4), ([2, 2], 2, 5), ([3], 3, 3)] if T else [])):
            add("topk-%s-%s-d%d" % (metric, "+".join(map(str, batches)), d), "topk", metric=metric, batches=batches, d=d, kmax=kmax,
                bounds="all real vectors in [-4,4]^%d, batches %s, every k in 1..%d" % (d, batches, kmax))
        add("history-%s" % metric, "history", metric=metric, n=2, d=1, steps=3 if T else 2,
            bounds="2 vectors in [-4,4], every sequence of %d delete/update/reopen/search operations" % (3 if T else 2))
        n = 40 if T else 14
        add("crowd-" + metric, "crowd", kind="flat", metric=metric, n=n, d=1 if metric == "euclidean" else 2, cfg={}, tame=3.0,
            **({} if metric == "euclidean" or T else dict(ks=[2, n + 7], where=[n - 1])),
            ops=[[], ["delete"], ["update", "delete-many"], ["delete-many", "insert", "reopen"]],
            bounds="%d vectors, one arbitrary in [-1000,1000], the rest and the query fixed" % n)
    return out + narrows("flat", T) + bulk("flat", T)
