"""C10  IVF: a partition of the live vectors; sound; exact when every cluster is probed"""
from .ix import *  # noqa

PROPERTY = "C10"
ASSUMPTIONS = ["KMeans: any partition of the samples into non-empty clusters, centres are the means of their members"]


def final(ctx, ix, m, p, what):
    st = ix.get_stats()
    ctx.check_that(st["vector_count"] == len(m.live), what + "count is the number of live vectors", st["vector_count"])
    if st["trained"]:
        cs = st["cluster_stats"]
        ctx.check_that(sum(cs.values()) == len(m.live), what + "clusters partition the live vectors", (dict(cs), len(m.live)))
        ctx.reach("trained")
    q = ctx.vec("q", p["d"], -4, 4)
    k = p["k"]
    res = ix.search(q, k)
    sound(ctx, m, res, k, what, p["metric"], list(q))
    if p["probes"] >= p["clusters"] or not st["trained"]:
        exact(ctx, m, res, k, p["metric"], list(q), what + "all clusters probed: ")
    ctx.observe("res", [r["distance"] for r in res])
    ctx.reach("searched")


def history(ctx):
    p = ctx.params
    cfg = {"metric": p["metric"], "n_clusters": p["clusters"], "n_probes": p["probes"]}
    ix, st = index(ctx, "ivf", cfg)
    m = Model()
    ids = []
    for j, n in enumerate(p["batches"]):
        ids += insert(ctx, ix, m, "v%d" % j, n, p["d"])
    for j in range(p.get("ops", 0)):
        op = ctx.choice("op", p["kinds"])
        if op == "reopen":
            ix, _ = index(ctx, "ivf", cfg, st)
        elif op == "insert":
            ids += insert(ctx, ix, m, "w", 1, p["d"])
        else:
            i = ids[int(ctx.int("target", 0, len(ids) - 1))]
            if op == "delete":
                ok = ix.delete([i])
                ctx.check_that(bool(ok) == (i in m.live), "delete reports whether the id existed")
                m.drop(i)
            else:
                v = ctx.vec("u", p["d"], -4, 4)
                ok = update(ctx, ix, i, v, {"tag": "u"})
                ctx.check_that(bool(ok) == (i in m.live), "update reports whether the id existed")
                if i in m.live:
                    m.put(i, list(v), {"tag": "u"})
    final(ctx, ix, m, p, "")


def self_probe(ctx):
    """a vector added or updated after training is found with a single probe"""
    p = ctx.params
    ix, st = index(ctx, "ivf", {"metric": p["metric"], "n_clusters": p["clusters"], "n_probes": 1})
    m = Model()
    ids = insert(ctx, ix, m, "v", p["n"], p["d"])
    v = ctx.vec("w", p["d"], -4, 4)
    if ctx.flip("by update"):
        i = ids[int(ctx.int("target", 0, len(ids) - 1))]
        ctx.check_that(bool(update(ctx, ix, i, v, {"tag": "w"})), "update of a live vector succeeds")
    else:
        i = ix.insert(ctx.np.array([list(v)]), [{"tag": "w"}])[0]
    m.put(i, list(v), {"tag": "w"})
    res = ix.search(v, p["n"] + 1)
    sound(ctx, m, res, p["n"] + 1, "one probe: ", p["metric"], list(v))
    ctx.check_that(i in [r["id"] for r in res], "a vector added after training is found by its own query with one probe")
    ctx.observe("n", len(res))
    ctx.reach("searched")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="history", **k):
        k.setdefault("d", 1)
        out.append(dict(name=name, fn=fn, bounds="vectors in [-4,4]^%d, %s" % (k["d"], {a: b for a, b in k.items() if a != "expect"}), **k))
    tr = ["searched", "trained"]
    add("trained", expect=tr, metric="euclidean", batches=[3], clusters=2, probes=2, k=2)
    add("one-probe", expect=tr, metric="euclidean", batches=[3], clusters=2, probes=1, k=2)
    add("late-insert", expect=tr, metric="euclidean", batches=[2, 1], clusters=2, probes=3, k=2)
    add("untrained", expect=["searched"], metric="euclidean", batches=[2, 1], clusters=4, probes=1, k=2)
    add("cosine", expect=tr, metric="cosine", batches=[2], clusters=2, probes=2, k=2, d=2)
    add("history", expect=tr, metric="euclidean", batches=[2], clusters=2, probes=2, k=3, ops=3 if T else 1,
        kinds=["delete", "update", "insert", "reopen"])
    add("history-2", expect=tr, metric="euclidean", batches=[2], clusters=2, probes=2, k=2, ops=2, kinds=["delete", "update"])
    add("history-untrained", expect=tr, metric="euclidean", batches=[1], clusters=2, probes=2, k=3, ops=3 if T else 2,
        kinds=["delete", "update", "insert", "reopen"])
    add("self-probe", "self_probe", expect=["searched"], metric="euclidean", clusters=2, n=3 if T else 2)
    add("self-probe-cosine", "self_probe", expect=["searched"], metric="cosine", clusters=2, n=2, d=1)
    if T:
        add("many", expect=tr, metric="euclidean", batches=[4, 1], clusters=3, probes=3, k=3)
        add("cosine-history", expect=tr, metric="cosine", batches=[2], clusters=2, probes=2, k=2, ops=2, kinds=["delete", "update", "insert"])
        add("cosine-late", expect=tr, metric="cosine", batches=[2, 1], clusters=2, probes=2, k=2, d=2)

    def crowd(name, **k):
        out.append(dict(name=name, fn="crowd", kind="ivf", expect=["searched"],
                        bounds="%(n)d vectors of which one is arbitrary in [-1000,1000]; clustering from a fixed generator" % k, **k))
    hist = [[], ["delete"], ["update", "delete-many"], ["delete-many", "insert", "reopen"], ["update", "initialize", "delete", "insert"]]
    crowd("crowd", metric="euclidean", n=14, d=1, cfg={"n_clusters": 4, "n_probes": 4}, ops=hist, where=[13])
    crowd("crowd-trained-on", metric="euclidean", n=12, d=1, cfg={"n_clusters": 3, "n_probes": 3}, ops=[["delete", "update"]], where=[0], seeds=[1], ks=[3])
    crowd("crowd-late", metric="euclidean", n=13, d=1, cfg={"n_clusters": 3, "n_probes": 7}, cuts=[3, 4, 9], ops=[[], ["update", "delete"]], where=[12])
    crowd("crowd-few-probes", metric="euclidean", n=14, d=1, cfg={"n_clusters": 5, "n_probes": 2}, exact=False, nonempty=False, where=[13], ops=[[], ["delete", "update"]])
    crowd("equal", metric="euclidean", n=4, d=1, cfg={"n_clusters": 3, "n_probes": 3}, kmeans_empty=True, equal=True, range=5, cuts=[3],
          ops=[[], ["delete"], ["update"], ["insert"], ["delete-many", "insert", "reopen"]])
    if T:
        crowd("crowd-40", metric="euclidean", n=40, d=1, cfg={"n_clusters": 6, "n_probes": 6}, ops=hist, seeds=[1, 2, 3])
        crowd("crowd-cosine", metric="cosine", n=12, d=2, tame=3.0, cfg={"n_clusters": 3, "n_probes": 3}, ks=[2, 19], ops=hist)
    return out + narrows("ivf", T) + bulk("ivf", T)
