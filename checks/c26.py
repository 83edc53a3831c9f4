"""C26  batch manager: every vector exactly once under any schedule"""
from .ix import *  # noqa

PROPERTY = "C26"
ASSUMPTIONS = ["a worker pool runs its tasks one at a time in any order and reports them in any order, more than 5 tasks in one of four orders (interleavings inside the client are C30's subject)"]


class Client:
    """a database that stores what it gets; chosen batches fail"""

    def __init__(self, ctx, bad):
        self.ctx, self.bad, self.stored, self.searched, self.late = ctx, bad, {}, [], False

    def insert(self, vectors, metadata):
        self.ctx.check_that(len(vectors) == len(metadata), "a batch carries one metadata per vector", (len(vectors), len(metadata)))
        first = metadata[0]["n"]
        if first in self.bad and not self.late:
            raise self.bad[first]
        ids = []
        for v, m in zip(rows(vectors), metadata):
            i = "id%d.%d" % (len(self.stored), m["n"])
            self.stored[i] = (v, m)
            ids.append(i)
        if first in self.bad:
            raise self.bad[first]       # fails after everything was stored
        return ids

    def search(self, q, k=10):
        j = len(self.searched)
        self.searched.append((q, k))
        if j in self.bad:
            raise self.bad[j]
        return [{"id": "r", "distance": q[0] + q[1], "metadata": {}}]


class Falsy(Exception):
    def __bool__(self): return False


def manager(ctx, bs, **kw):
    return ctx.mod("valori.utils.batch_manager").BatchManager(batch_size=bs, **kw)


def counts(ctx, mgr, total, done, failed):
    s = mgr.get_stats()
    ctx.check_that(s["total_items"] == total and s["processed_items"] == done and s["failed_items"] == failed, "counts add up", (s, total, done, failed))


def inserting(ctx):
    """one after the other or in parallel: stored once each, ids in input order, counts add up"""
    p = ctx.params
    n, parallel = ctx.choice("n", p["n"]) if isinstance(p["n"], list) else p["n"], p["parallel"]
    bs = to_int(ctx.int("batch size", 1, p["bsmax"])) if "sizes" not in p else ctx.choice("batch size", p["sizes"])
    V = ctx.mat("v", n, 2, -4, 4)
    md = [{"n": i} for i in range(n)]
    starts = list(range(0, n, bs))
    E = Falsy if p.get("falsy") else ValueError
    if "sizes" in p:
        bad = ctx.choice("failing batch", [None] + (starts if not parallel and len(starts) < 30 else starts[1:2] + starts[2:3] + starts[-1:]))
        bad = {} if bad is None else {bad: E("batch fails")}
    else:
        bad = {s: E("batch fails") for s in starts if ctx.flip("batch %d fails" % s)}
    cl = Client(ctx, bad)
    cl.late = p.get("late", False)
    mgr = manager(ctx, bs, max_workers=2)
    prog, errs = [], []
    if p["callbacks"]:
        mgr.set_progress_callback(lambda a, b: prog.append((a, b)))
        mgr.set_error_callback(lambda e, b: errs.append(e))
    op = mgr.parallel_batch_insert if parallel else mgr.batch_insert
    ids = op(cl, V, md, show_progress=p["callbacks"])
    good = [i for i in range(n) if (i // bs) * bs not in bad]
    ctx.check_that(len(ids) == len(good) and len(cl.stored) == (n if cl.late else len(good)), "every vector of a successful batch is stored once", (ids, good, list(cl.stored)))
    for i, x in zip(good, ids):
        ctx.check_that(x in cl.stored, "ids are those of stored vectors", x)
        v, m = cl.stored[x]
        ctx.check_that(m["n"] == i, "ids in input order", (ids, good))
        ctx.check_that(veq(v, V[i]), "each vector with its own metadata", (i, v))
    counts(ctx, mgr, n, len(good), n - len(good))
    if p["callbacks"]:
        ctx.check_that(len(errs) == len(bad), "every failing batch is reported", errs)
        ctx.check_that(all(b == n for a, b in prog) and all(x[0] <= y[0] for x, y in zip(prog, prog[1:])) and (not good or prog[-1][0] == len(good)), "progress goes up to the number processed", prog)
    # again with the same manager
    cl.bad = {}
    m = min(n, bs)
    more = op(cl, V[:m], [{"n": 100 + i} for i in range(m)], show_progress=False)
    ctx.check_that(len(more) == m and [cl.stored[x][1]["n"] for x in more] == [100 + i for i in range(m)], "a later operation is not affected", more)
    counts(ctx, mgr, m, m, 0)
    ctx.reach("end")


def searching(ctx):
    """each query's results at its position"""
    p = ctx.params
    n = p["n"]
    bs = to_int(ctx.int("batch size", 1, p["bsmax"]))
    Q = ctx.mat("q", n, 2, -4, 4)
    bad = {i: ValueError("search fails") for i in range(n) if ctx.flip("query %d fails" % i)}
    cl = Client(ctx, bad)
    mgr = manager(ctx, bs)
    errs = []
    if p["callbacks"]:
        mgr.set_error_callback(lambda e, q: errs.append(q))
        mgr.set_progress_callback(lambda a, b: None)
    k = ctx.choice("k", [1, 7])
    out = mgr.batch_search(cl, Q, k=k, show_progress=p["callbacks"])
    ctx.check_that(len(out) == n and len(cl.searched) == n and all(x[1] == k for x in cl.searched), "one search per query", (len(out), cl.searched))
    for i in range(n):
        if i in bad:
            ctx.check_that(out[i] == [], "a failing query has no results", out[i])
        else:
            ctx.check_that(len(out[i]) == 1 and eq(out[i][0]["distance"], Q[i][0] + Q[i][1]), "results stand at their query's position", (i, out[i]))
    ctx.check_that(not p["callbacks"] or (len(errs) == len(bad) and AND([veq(x, Q[i]) for x, i in zip(errs, sorted(bad))])), "every failing query is reported", len(errs))
    counts(ctx, mgr, n, n - len(bad), len(bad))
    ctx.reach("end")


def helper(ctx):
    """utils.helpers.batch_search on any index"""
    p = ctx.params
    n = p["n"]
    Q = ctx.mat("q", n, 2, -4, 4)
    cl = Client(ctx, {})
    k = ctx.choice("k", [1, 7])
    out = ctx.mod("valori.utils.helpers").batch_search(cl, Q, k=k, batch_size=to_int(ctx.int("batch size", 1, p["bsmax"])))
    ctx.check_that(len(out) == n and len(cl.searched) == n and all(x[1] == k for x in cl.searched), "one search per query")
    ctx.check_that(AND([eq(out[i][0]["distance"], Q[i][0] + Q[i][1]) for i in range(n)]), "results stand at their query's position")
    ctx.reach("end")


def database(ctx):
    """with a real database: what is inserted in bulk is found with its own metadata"""
    p = ctx.params
    n, kind = p["n"], p["kind"]
    db = ctx.mod("valori.client").VectorDBClient(ctx.mod("valori.storage.memory").MemoryStorage({}), getattr(ctx.mod(MODS[kind][0]), MODS[kind][1])({"metric": "euclidean"}))
    db.initialize()
    V = ctx.mat("v", n, 1, -4, 4)
    md = [{"n": i} for i in range(ctx.choice("metadata", p.get("md", [n])))]
    bs = to_int(ctx.int("batch size", 1, n))
    mgr = manager(ctx, bs)
    ids = (mgr.parallel_batch_insert if p["parallel"] else mgr.batch_insert)(db, V, md, show_progress=False)
    ctx.check_that(len(ids) == n, "everything is inserted", ids)
    for i, x in enumerate(ids):
        got = db.storage_backend.retrieve_vector(x)
        ctx.check_that(got is not None and AND(eq(got[0][0], V[i][0]), got[1]["n"] == i if i < len(md) else not got[1]), "ids belong to the vectors in input order", (i, x))
    s = db.get_stats()["index"]["vector_count"]
    ctx.check_that(s == n, "the database holds every vector once", s)
    nq = 0 if p["parallel"] or "md" in p else 2
    Q = ctx.mat("q", nq, 1, -4, 4)
    out = mgr.batch_search(db, Q, k=2, show_progress=False)
    for i in range(nq):
        one = db.search(Q[i], k=2)
        ctx.check_that([r["id"] for r in one] == [r["id"] for r in out[i]], "bulk search is the same as single searches")
    ctx.reach("end")


CFG = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 2, "ef_construction": 4, "ef_search": 4}, "ivf": {"metric": "euclidean", "n_clusters": 1, "n_probe": 1},
       "lsh": {"metric": "euclidean", "num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {"metric": "euclidean", "num_trees": 1}}


def workers(ctx):
    """workers that really run at the same time: the database they share ends up complete"""
    p = ctx.params
    n, kind = p["n"], p["kind"]
    ctx.pool_preemptions = p["bound"]
    db = ctx.mod("valori.client").VectorDBClient(ctx.mod("valori.storage.memory").MemoryStorage({}), getattr(ctx.mod(MODS[kind][0]), MODS[kind][1])(dict(CFG[kind])))
    db.initialize()
    V = ctx.mat("v", n, 1, -4, 4)
    if p["before"]:
        db.insert(ctx.mat("w", 1, 1, 5, 6), [{"n": "before"}])
    mgr = manager(ctx, 1, max_workers=n)
    ids = mgr.parallel_batch_insert(db, V, [{"n": i} for i in range(n)], show_progress=False)
    counts(ctx, mgr, n, n, 0)
    ctx.check_that(len(ids) == n and len(set(ids)) == n, "one id per vector", ids)
    s = db.get_stats()["index"]
    s = s.get("vector_count", s.get("num_vectors"))
    ctx.check_that(s == n + p["before"], "the database holds every vector once", s)
    if kind == "annoy":
        db.index.build()
    for i in range(n):
        res = db.search(V[i], k=n + 1)
        hit = [r for r in res if str(r["id"]) == str(ids[i])]
        ctx.check_that(len(hit) == 1 and hit[0]["metadata"]["n"] == i and (kind in ("lsh", "annoy") or le(hit[0]["distance"], 0)), "every vector is found with its own metadata", [(r["id"], r["metadata"]) for r in res])
    ctx.reach("end")


def refused(ctx):
    VE = ctx.mod("valori.exceptions").ValidationError
    bs = ctx.int("batch size", -2, 2)
    mgr, e = attempt(lambda: manager(ctx, bs), VE)
    ctx.check_that(IFF(e is None, bs >= 1), "a batch size below 1 is refused")
    if e is None:
        def boom(a, b):
            raise RuntimeError("callback")
        mgr.set_progress_callback(boom)
        errs = []
        mgr.set_error_callback(lambda *a: errs.append(a))
        cl = Client(ctx, {})
        attempt(lambda: mgr.batch_insert(cl, ctx.mat("v", 2, 1, -1, 1), [{"n": 0}, {"n": 1}], show_progress=False), RuntimeError)
        s = mgr.get_stats()
        ctx.check_that(s["processed_items"] == len(cl.stored) and s["failed_items"] == 0 and errs == [], "a failing callback is no failed batch", s)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for cb in (False, True):
        c = "-callbacks" if cb else ""
        add("insert" + c, "inserting", n=5 if not T else 7, bsmax=6 if not T else 8, parallel=False, callbacks=cb)
        add("parallel" + c, "inserting", n=3 if not T or cb else 4, bsmax=4 if not T else 5, parallel=True, callbacks=cb)
        add("search" + c, "searching", n=4 if not T else 6, bsmax=5 if not T else 7, callbacks=cb)
    add("parallel-falsy", "inserting", n=2, bsmax=1, parallel=True, callbacks=True, falsy=True)
    add("insert-none", "inserting", n=0, bsmax=2, parallel=False, callbacks=True)
    add("parallel-none", "inserting", n=0, bsmax=2, parallel=True, callbacks=True)
    add("helper", "helper", n=4, bsmax=5)
    for par in (False, True):
        add("database-flat" + ("-parallel" if par else ""), "database", n=3 if par or T else 2, kind="flat", parallel=par)
    for kind in (MODS if T else [k for k in MODS if k != "hnsw"]):
        add("workers-" + kind, "workers", n=2, kind=kind, bound=1 if not T else 2, before=0 if kind != "hnsw" or not T else 1,
            yields=("valori.client", MODS[kind][0]))
    for par in (False, True):
        add("metadata" + ("-parallel" if par else ""), "database", n=3, kind="flat", parallel=par, md=[0, 1, 2, 4, 6])
        add("many" + ("-parallel" if par else ""), "inserting", n=23, sizes=[1, 2, 7, 10] if not par else [2], parallel=par, callbacks=False)
        add("uneven" + ("-parallel" if par else ""), "inserting", n=[25, 26, 31, 50] if not par else [36, 43, 50], sizes=[6, 7, 8, 12] if not par else [7], parallel=par, callbacks=False)
        add("crowd" + ("-parallel" if par else ""), "inserting", n=130, sizes=[1, 100, 129, 1000] if not par else [65], parallel=par, callbacks=not par)
        add("late" + ("-parallel" if par else ""), "inserting", n=3, bsmax=3, parallel=par, callbacks=False, late=True)
    add("refused", "refused")
    return out
