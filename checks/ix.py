"""Index harness vocabulary shared by C08..C16."""
from .common import *  # noqa

MODS = {"flat": ("valori.indices.flat", "FlatIndex"), "hnsw": ("valori.indices.hnsw", "HNSWIndex"),
        "ivf": ("valori.indices.ivf", "IVFIndex"), "lsh": ("valori.indices.lsh", "LSHIndex"),
        "annoy": ("valori.indices.annoy", "AnnoyIndex")}


def memory(ctx):
    s = ctx.mod("valori.storage.memory").MemoryStorage({})
    s.initialize()
    return s


def index(ctx, kind, cfg, storage=None):
    m, c = MODS[kind]
    ix = getattr(ctx.mod(m), c)(dict(cfg))
    st = storage if storage is not None else memory(ctx)
    ix.initialize(st)
    return ix, st


class Model:
    """what the index is supposed to contain"""

    def __init__(self):
        self.live = {}              # id -> (values, metadata)
        self.dead = []

    def put(self, i, v, md):
        self.live[i] = (list(v), md)

    def drop(self, i):
        if i in self.live:
            self.dead.append(i)
            del self.live[i]


def careless(arr, *mds):
    """the caller goes on using its own array and metadata"""
    for i in range(len(arr)):
        arr[i] = 55.0
    for md in mds:
        if md is not None:
            md["tag"] = "overwritten"
            md["more"] = 1


def update(ctx, ix, i, v, md):
    """update, then overwrite what was passed in"""
    arg, mine = ctx.np.array(list(v)), dict(md) if md is not None else None
    r = ix.update(i, arg, mine)
    careless(arg, mine)
    return r


def insert(ctx, ix, model, name, n, d, lo=-4, hi=4, md="all", dtype="float64"):
    V = ctx.mat(name, n, d, lo, hi, dtype)
    mds = [{"tag": "%s%d" % (name, i)} for i in range(n)] if md else None
    V0, V = V, ctx.np.array([list(r) for r in V], dtype=dtype)
    mine = [dict(x) for x in mds] if mds else None
    ids = ix.insert(V, mine)
    careless(V, *(mine or []))
    V = V0
    ctx.check_that(len(ids) == n, "insert returns one id per vector", (len(ids), n))
    ctx.check_that(len(set(ids)) == n and not any(i in model.live for i in ids), "inserted ids are fresh")
    for i in range(n):
        model.put(ids[i], rows(V)[i], mds[i] if mds else None)
    return ids


def sound(ctx, model, res, k, what="", metric=None, q=None, exact_dist=True, metadata=True):
    """the contract every search shares"""
    ids = [r["id"] for r in res]
    ctx.check_that(len(ids) == len(set(ids)), what + "no duplicate result", ids)
    ctx.check_that(all(i in model.live for i in ids), what + "every result is a live vector", ids)
    ctx.check_that(len(ids) <= k, what + "at most k results", (len(ids), k))
    ds = [r["distance"] for r in res]
    ctx.check_that(all(isnum(x) for x in ds), what + "distances are finite")
    ctx.check_that(AND([le(a, b) for a, b in zip(ds, ds[1:])]), what + "results sorted by distance", ds)
    if metadata:
        ctx.check_that(AND([same(r["metadata"] or None, model.live[r["id"]][1] or None) for r in res]), what + "results carry the stored metadata")
    if metric and exact_dist:
        ctx.check_that(AND([eq(r["distance"], dist(metric, q, model.live[r["id"]][0])) for r in res]),
                       what + "reported distance is the true distance")


def exact(ctx, model, res, k, metric, q, what=""):
    """exact top-k, ties in any order"""
    sound(ctx, model, res, k, what, metric, q)
    ctx.check_that(len(res) == min(k, len(model.live)), what + "min(k, live) results", (len(res), k, len(model.live)))
    if res and len(res) < len(model.live):
        got = {r["id"] for r in res}
        worst = res[-1]["distance"]
        ctx.check_that(AND([le(worst, dist(metric, q, v)) for i, (v, _) in model.live.items() if i not in got]),
                       what + "no omitted vector is nearer")


def similarity(metric, q, v):
    """what LSH / Annoy report: larger is closer"""
    if metric == "cosine":
        nq = sqrt(sum((a * a for a in q), start=0 * q[0]))
        nv = sqrt(sum((a * a for a in v), start=0 * v[0]))
        if bool(nq == 0) or bool(nv == 0):
            return 0.0
        return sum((a * b for a, b in zip(q, v)), start=0 * q[0]) / (nq * nv)
    return 1 / (1 + dist(metric, q, v))


def sound_sim(ctx, model, res, k, metric, q, what="", eps=EPS):
    ids = [str(r["id"]) for r in res]
    ctx.check_that(len(ids) == len(set(ids)), what + "no duplicate result", ids)
    ctx.check_that(all(i in model.live for i in ids), what + "every result is a live vector", ids)
    ctx.check_that(len(ids) <= k, what + "at most k results", (len(ids), k))
    ds = [r["distance"] for r in res]
    ctx.check_that(all(isnum(x) for x in ds), what + "similarities are finite")
    ctx.check_that(AND([le(b, a) for a, b in zip(ds, ds[1:])]), what + "results sorted, most similar first", ds)
    ctx.check_that(AND([same(r["metadata"] or None, model.live[str(r["id"])][1] or None) for r in res]), what + "results carry their own metadata")
    if metric:
        ctx.check_that(AND([eq(r["distance"], similarity(metric, q, model.live[str(r["id"])][0]), eps) for r in res]),
                       what + "reported similarity is that of the current vector")


# --------------------------------------------------------------------------
# larger indices: most vectors fixed, the interesting ones symbolic
# --------------------------------------------------------------------------
def spread(n, d, scale=1.0):
    """n fixed vectors with repeats, a zero vector and widely differing lengths"""
    out = []
    for i in range(n):
        x = ((i * 37 + 11) % 53 - 26) * scale
        y = ((i * 29 + 3) % 41 - 20) * scale * (10.0 if i % 5 == 0 else 0.5)
        out.append([x, y, x - y, 0.25 * x][:d])
    if n > 6:
        out[3] = [0.0] * d
        out[6] = list(out[5])
    return out


def crowd(ctx):
    """an index holding p['n'] vectors: one inserted vector and one updated vector are
    arbitrary, deletions and k vary, the rest and the query are fixed"""
    p = ctx.params
    kind, n, d = p["kind"], p["n"], p["d"]
    lim = p.get("range", 1000)
    if kind in ("hnsw", "ivf", "lsh"):
        ctx.rnd_seeded = Fixed(ctx.choice("seed", p.get("seeds", [1, 2])))
    cfg = dict(p["cfg"], metric=p["metric"])
    ix, st = index(ctx, kind, cfg)
    m = Model()
    fixed = [[2.0] * d for _ in range(n - 1)] if p.get("equal") else spread(n - 1, d)
    x = [2.0] * d if p.get("equal") else list(ctx.vec("x", d, -lim, lim))
    if d > 1 and p.get("tame"):
        x = x[:1] + [p["tame"]] * (d - 1)
    where = ctx.choice("where", p.get("where", [0, n - 1]))
    vals = fixed[:where] + [x] + fixed[where:]
    ids, latest = [], []
    cuts = [0] + list(p.get("cuts", [n // 3])) + [n]
    for a, b in zip(cuts, cuts[1:]):
        mds = [{"i": j} if j % 3 else None for j in range(a, b)] if kind not in ("lsh", "annoy") else [{"i": j} for j in range(a, b)]
        arr, mine = ctx.np.array([list(v) for v in vals[a:b]]), [dict(x) if x is not None else None for x in mds]
        got = ix.insert(arr, mine)
        careless(arr, *mine)
        ctx.check_that(len(got) == b - a and len(set(got)) == b - a and not any(i in m.live for i in got), "one fresh id per vector", len(got))
        for j, i in enumerate(got):
            m.put(i, vals[a + j], mds[j])
        ids += got
    if kind == "annoy":
        ix.build()
    for op in ctx.choice("ops", p.get("ops", [[]])):
        if op == "delete":
            i = ids[ctx.choice("gone", [0, where, n // 2, n - 1])]
            ctx.check_that(bool(ix.delete([i])) == (i in m.live), "delete reports whether the id existed")
            m.drop(i)
        elif op == "delete-many":
            gone = [i for j, i in enumerate(ids) if j % 3 != ctx.params.get("keep", 1)]
            ctx.check_that(bool(ix.delete(gone)) == all(i in m.live for i in gone), "delete of many reports whether all existed")
            for i in gone:
                m.drop(i)
        elif op == "update":
            i = ids[ctx.choice("changed", [1, where, n - 1])]
            u = ctx.vec("u", d, -lim, lim) if p.get("free-update") else ctx.np.array([float(7 * (j + 1)) for j in range(d)])
            ok, e = attempt(lambda: update(ctx, ix, i, u, {"tag": "u"}), ctx.mod("valori.exceptions").ValoriError)
            ctx.check_that(bool(ok) == (i in m.live), "update reports whether the id existed")
            if i in m.live:
                m.put(i, list(u), {"tag": "u"})
                latest.append(i)
        elif op == "insert":
            v = [float(3 + j) for j in range(d)]
            got = ix.insert(ctx.np.array([v]), [{"tag": "new"}])
            ctx.check_that(len(got) == 1 and got[0] not in m.live, "one fresh id", got)
            m.put(got[0], v, {"tag": "new"})
            latest.append(got[0])
        elif op == "reopen":
            ix, _ = index(ctx, kind, cfg, st)
        elif op == "initialize":
            ix.initialize(st) if kind in ("flat", "hnsw", "ivf") else ix.initialize()
        elif op == "clear":
            ix.clear()
            for i in list(m.live):
                m.drop(i)
        if kind == "annoy" and not ix.get_stats()["built"]:
            ix.build()
    s = ix.get_stats()
    c = s["vector_count"] if "vector_count" in s else s["num_vectors"]
    ctx.check_that(c == len(m.live), "count is the number of live vectors", (c, len(m.live)))
    q = ctx.np.array([float(v) for v in p.get("query", [5.0, -2.0, 1.0, 0.5])[:d]])
    for k in p.get("ks", [1, n // 2, n, n + 7]):
        res = ix.search(q, k)
        what = "k=%d: " % k
        if kind in ("lsh", "annoy"):
            sound_sim(ctx, m, res, k, p["metric"] if kind == "lsh" else None, list(q), what)
            if kind == "lsh":
                ctx.check_that(AND([le(cfg.get("threshold", 0.5), r["distance"]) for r in res]), what + "no result below the threshold")
        elif p.get("exact", True):
            exact(ctx, m, res, k, p["metric"], list(q), what)
        else:
            sound(ctx, m, res, k, what, p["metric"], list(q))
            ctx.check_that(bool(res) or not m.live or not p.get("nonempty", True), what + "search is not empty while a vector is live")
        if p.get("count", kind == "annoy"):
            ctx.check_that(len(res) == min(k, len(m.live)), what + "min(k, live) results", (len(res), len(m.live)))
    for j in p.get("self", []):
        i = ids[j]
        if i in m.live:
            latest.append(i)
    for i in sorted(set(latest)) if p.get("self") else []:
        if i in m.live:
            qs = ctx.np.array(list(m.live[i][0]))
            res = ix.search(qs, n + 7)
            sim = similarity(p["metric"], list(qs), m.live[i][0])
            if bool(sim >= cfg.get("threshold", 0.5) + EPS):
                ctx.check_that(i in [str(r["id"]) for r in res], "a stored vector is found by its own query", i)
    ctx.observe("n", len(m.live))
    ctx.reach("searched")


# --------------------------------------------------------------------------
# vectors that are not 64-bit floats
# --------------------------------------------------------------------------
LIMITS = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-32768, 32767), "int64": (-60, 60), "bool": (0, 1), "float32": (-100, 100)}


def narrow(ctx):
    """integer vectors (narrow ones wrap around in numpy): distances are those of the numbers"""
    p = ctx.params
    kind, d, metric = p["kind"], p["d"], p["metric"]
    dt = ctx.choice("dtype", p["dtypes"])
    lo, hi = LIMITS[dt]
    if kind in ("hnsw", "ivf", "lsh"):
        ctx.rnd_seeded = Fixed(1)
    ix, st = index(ctx, kind, dict(p["cfg"], metric=metric))
    m = Model()
    x = ctx.int("x", lo, hi) if metric != "cosine" else ctx.choice("x", [lo, (hi + 1) // 2, hi])
    V = [[x, hi, lo][:d], [lo, hi, hi][:d], [hi, hi - 1, lo + 1][:d]]
    q = list(ctx.choice("query", [[lo, hi, 1][:d], [hi, lo, 1][:d]]))
    mds = [{"i": j} for j in range(len(V))]
    ids = ix.insert(ctx.np.array(V, dtype=dt), [dict(a) for a in mds])
    for i, v, md in zip(ids, V, mds):
        m.put(i, [c * 1.0 for c in v], md)
    if ctx.flip("updated"):
        u = list(ctx.choice("u", [[hi, lo, lo][:d], [lo, lo, hi][:d]]))
        ctx.check_that(bool(ix.update(ids[1], ctx.np.array(u, dtype=dt), {"tag": "u"})), "update reports success")
        m.put(ids[1], [c * 1.0 for c in u], {"tag": "u"})
    if kind == "annoy":
        ix.build()
    k = ctx.choice("k", [1, 3])
    res = ix.search(ctx.np.array(q, dtype=dt if ctx.flip("same type") else "float64"), k)
    q = [c * 1.0 for c in q]
    if kind in ("lsh", "annoy"):
        sound_sim(ctx, m, res, k, metric if kind == "lsh" else None, q)
    else:
        exact(ctx, m, res, k, metric, q)
    if kind == "lsh":
        for i in ids[:1]:
            v = m.live[i][0]
            near = [str(r["id"]) for r in ix.search(ctx.np.array(v), len(ids))]
            if bool(similarity(metric, v, v) >= p["cfg"]["threshold"] + EPS):
                ctx.check_that(i in near, "a stored vector is found by its own numbers", (i, near))
    ctx.observe("d", [r["distance"] for r in res])
    ctx.reach("searched")


def narrows(kind, T=False):
    """the scenarios of `narrow` for one index kind"""
    cfg = {"flat": {}, "hnsw": {"m": 16}, "ivf": {"n_clusters": 2, "n_probes": 2}, "lsh": {"num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": -2.0},
           "annoy": {"num_trees": 1}}[kind]
    out = []
    for metric, d in [("euclidean", 1), ("cosine", 2)] + ([("manhattan", 2)] if kind in ("lsh", "annoy") else []) + ([("euclidean", 2)] if T else []):
        out.append(dict(name="narrow-%s-%d" % (metric, d), fn="narrow", kind=kind, metric="angular" if kind == "annoy" and metric == "cosine" else metric, d=d, cfg=cfg, expect=["searched"],
                        dtypes=(["uint8", "bool"] if metric == "manhattan" and not T else ["uint8", "int8", "int64", "bool"]) + (["int16", "float32"] if T else []),
                        bounds="3 vectors of %d integers over the whole range of their type, one arbitrary" % d))
    return out


def bulk(kind, T=False):
    """crowds beyond the block sizes an implementation may work in"""
    out = []

    def add(name, n, metric="euclidean", d=1, cfg=(), **k):
        k.setdefault("ops", [["update", "delete-many"]])
        k.setdefault("ks", [3, n + 7])
        out.append(dict(name="bulk-" + name, fn="crowd", kind=kind, metric=metric, n=n, d=d, cfg=dict(cfg), where=[n - 1], seeds=[1], range=0.4, tame=3.0, cuts=[n // 3, n // 2], expect=["searched"],
                        opts={"path_timeout": 90}, bounds="%d vectors of which one is arbitrary in [-0.4,0.4]; clustering, projections and levels from a fixed generator" % n, **k))
    if kind == "flat":
        add("140", 140, ops=[[], ["update", "delete-many"]])
        add("cosine", 140, "cosine", 2)
        add("1030", 1030, ops=[[]], ks=[3])
    elif kind == "hnsw":
        add("140", 140, cfg={"m": 4, "ef_search": 6, "ef_construction": 6}, exact=False)
        add("full", 70, cfg={"m": 130, "ef_search": 100, "ef_construction": 100})
    elif kind == "ivf":
        add("140", 140, cfg={"n_clusters": 12, "n_probes": 12})
        add("one", 140, cfg={"n_clusters": 1, "n_probes": 1})
    elif kind == "lsh":
        add("140", 140, cfg={"num_hash_tables": 2, "hash_size": 1, "num_projections": 2, "threshold": -2.0}, ks=[3])
        add("tables", 40, cfg={"num_hash_tables": 12, "hash_size": 3, "num_projections": 36, "threshold": 0.01}, self=[0, 39])
    else:
        add("140", 140, cfg={"num_trees": 2})
        add("build", 140, cfg={"num_trees": 2}, ops=[["insert", "delete-many", "update"]])
    return out
