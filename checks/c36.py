"""C36  a database keeps its own copies: what callers pass in or get back is theirs"""
import copy

from .ix import *  # noqa
from .c06 import manager
from .st import exact

PROPERTY = "C36"
CFG = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 8}, "ivf": {"metric": "euclidean", "n_clusters": 2, "n_probes": 4},
       "lsh": {"metric": "euclidean", "num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {"metric": "euclidean"}}


def storage(ctx, kind):
    root = ctx.fs.ROOT
    if kind == "memory":
        return ctx.mod("valori.storage.memory").MemoryStorage({})
    if kind == "disk":
        return ctx.mod("valori.storage.disk").DiskStorage({"data_dir": root + "/d"})
    return ctx.mod("valori.storage.hybrid").HybridStorage({"memory": {}, "disk": {"data_dir": root + "/d"}, "memory_limit": 1})


def spoil(x, np=None):
    """overwrite everything that can be reached from an object"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        for k in list(x):
            if not isinstance(x[k], (dict, list, set)):
                x[k] = "spoilt"
        x["spoilt"] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.append("spoilt")
    elif isinstance(x, set):
        x.add("spoilt")
    elif hasattr(x, "shape") and len(x.shape):
        if len(x.shape) == 1:
            for i in range(x.shape[0]):
                x[i] = 77
        else:
            for r in x:
                spoil(r)


MDS = {"none": lambda n: None, "empty": lambda n: {}, "flat": lambda n: {"t": n}, "nested": lambda n: {"t": n, "n": {"l": [n, [n]]}}, "listed": lambda n: {"l": [{"t": n}], "s": {n}, "p": ([n], n)}}


def agree(ctx, db, kind, live, what):
    if kind == "annoy" and not db.index.get_stats()["built"]:
        db.index.build()
    for i in list(live):
        v, md = live[i]
        q = ctx.np.array(list(v))
        res = db.search(q, len(live) + 2)
        ctx.check_that(veq(q, v), what + "searching leaves the query alone")
        ctx.check_that(all(isinstance(r, dict) and {"id", "distance", "metadata"} <= set(r) for r in res), what + "results are whole", res)
        hit = [r for r in res if str(r["id"]) == i]
        ctx.check_that(len(hit) == 1 and all(str(r["id"]) in live for r in res), what + "every vector is found", [str(r["id"]) for r in res])
        for r in res:
            want = live[str(r["id"])]
            ctx.check_that(exact(r["metadata"] or {}, want[1] or {}), what + "results carry the metadata as it was stored", r["metadata"])
            if kind in ("flat", "hnsw", "ivf"):
                ctx.check_that(eq(r["distance"], dist("euclidean", v, want[0])), what + "distances are those of the vectors as they were stored")
        if kind in ("lsh", "annoy"):
            ctx.check_that(eq(hit[0]["distance"], 1), what + "a vector is at no distance from itself", hit[0]["distance"])
        spoil(res)
        if db.storage_backend.list_vectors():
            got = db.storage_backend.retrieve_vector(i)
            ctx.check_that(got is not None and veq(got[0], v) and exact(got[1] or {}, md or {}), what + "the storage holds the entry as it was stored")
            spoil(got)
            spoil(db.storage_backend.list_vectors())


def owned(ctx):
    """a history in which the caller spoils everything it passed or received"""
    p = ctx.params
    kind = p["kind"]
    mod, cls = MODS[kind]
    if kind == "lsh":
        ctx.rnd_seeded = Fixed(p["seed"])
    db = ctx.mod("valori.client").VectorDBClient(storage(ctx, p["storage"]), getattr(ctx.mod(mod), cls)(dict(CFG[kind])))
    db.initialize()
    live, count = {}, [0]

    def vec():
        count[0] += 1
        return [ctx.real("x", 0, 0.5) if count[0] == p.get("free", 1) else 1.5 * count[0], 0.5 * count[0]]

    def put(n):
        V = [vec() for _ in range(n)]
        how = ctx.choice("metadata", p["mds"])
        mds = None if how == "missing" else [MDS[how](count[0] + j) for j in range(n)]
        keep = copy.deepcopy(mds)
        A = ctx.np.array(V)
        ids = db.insert(A, mds)
        ctx.check_that(meq(rows(A), V) and (mds is None or (len(mds) == n and all(exact(a or {}, b or {}) for a, b in zip(mds, keep)))), "inserting leaves the arguments alone")
        for j, i in enumerate(ids):
            live[str(i)] = (V[j], keep[j] if keep else None)
        spoil(A)
        spoil(mds)
        spoil(ids)
    put(2)
    if kind == "annoy":
        db.index.build()
    for _ in range(p["ops"]):
        op = ctx.choice("op", p["kinds"])
        if op == "insert":
            put(1)
        elif op == "search":
            agree(ctx, db, kind, live, "before: ")
        elif op == "reopen":
            db.close()
            db.initialize()
        elif op == "stats":
            spoil(db.get_stats())
        elif op == "delete" and live:
            i = list(live)[ctx.choice("which", [0, -1])]
            ids = [i]
            db.delete(ids)
            ctx.check_that(ids == [i], "deleting leaves the list alone")
            spoil(ids)
            live.pop(i)
        elif op == "update" and live:
            i = list(live)[ctx.choice("which", [0, -1])]
            v, md = vec(), MDS[ctx.choice("new metadata", ["empty", "nested"])](9)
            a, keep = ctx.np.array(v), copy.deepcopy(md)
            db.update(i, a, md)
            ctx.check_that(veq(a, v) and exact(md, keep), "updating leaves the arguments alone")
            live[i] = (v, keep)
            spoil(a)
            spoil(md)
    agree(ctx, db, kind, live, "")
    agree(ctx, db, kind, live, "again: ")
    ctx.reach("end")


def saved(ctx):
    """a saved state is a snapshot, a loaded one is the caller's"""
    p = ctx.params
    m = manager(ctx, p["kind"])
    x = ctx.real("x", -4, 4)
    V, ids = [[x, 1.0], [2.0, 3.0]], ["a", "b"]
    A, I = ctx.np.array(V), list(ids)
    state = {"n": {"l": [1, [2]]}, "v": ctx.np.array([x, 2.0]), "s": {3}}
    keep = copy.deepcopy({k: state[k] for k in ("n", "s")})
    what = ctx.choice("what", ["state", "index", "vectors"])
    if what == "vectors":
        m.save_vectors(A, I, "v1")
        ctx.check_that(meq(rows(A), V) and I == ids, "saving leaves the arguments alone")
        spoil(A)
        spoil(I)
    else:
        (m.save_state if what == "state" else m.save_index)(state, "s1")
        ctx.check_that(len(state) == 3 and exact({k: state[k] for k in keep}, keep) and veq(state["v"], V[0][:1] + [2.0]), "saving leaves the arguments alone")
        spoil(state)
    for turn in ("", "again: "):
        if what == "vectors":
            B, J = m.load_vectors("v1")
            ctx.check_that(meq(rows(B), V) and list(J) == ids, turn + "the vectors are loaded as they were saved")
            spoil(J)
            if ctx.flip("copy first"):
                B = ctx.np.array(rows(B))
            spoil(B)
        else:
            s = (m.load_state if what == "state" else m.load_index)("s1")
            ctx.check_that(len(s) == 3 and exact({k: s[k] for k in keep}, keep) and veq(s["v"], [x, 2.0]), turn + "the state is loaded as it was saved", s)
            spoil(s)
    ctx.reach("end")


def coded(ctx):
    """a quantizer does not depend on arrays after a call has returned"""
    p = ctx.params
    mod, cls, cfg = p["q"]
    if "seed" in p:
        ctx.rnd_seeded = Fixed(p["seed"])
    q = getattr(ctx.mod("valori.quantization." + mod), cls)(dict(cfg))
    q.initialize()
    d = p["d"]
    T = [[float((3 * i + 2 * j * i) % 7) - 2 for j in range(d)] for i in range(p["n"])]
    A = ctx.np.array(T)
    q.train(A)
    ctx.check_that(meq(rows(A), T), "training leaves the vectors alone")
    x = [ctx.real("x", -4, 4) if j == 0 else 0.5 * j for j in range(d)]
    X = ctx.np.array([x, T[0]])
    C = q.quantize(X)
    first = [list(r) for r in rows(C)]
    D = q.dequantize(C)
    back = [list(r) for r in rows(D)]
    ctx.check_that(meq(rows(X), [x, T[0]]) and meq(rows(C), first), "coding leaves its arguments alone")
    for what in (A, X, C, D):
        spoil(what)
        C2 = q.quantize(ctx.np.array([x, T[0]]))
        ctx.check_that(meq(rows(C2), first), "the same vectors give the same codes")
        D2 = q.dequantize(C2)
        ctx.check_that(meq(rows(D2), back), "the same codes give the same vectors")
        spoil(D2)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    ops = ["insert", "search", "update", "delete", "stats"]
    for kind in ("tensor", "zip", "incremental"):
        add("saved-" + kind, "saved", kind=kind)
    for kind in MODS:
        for st in ("memory", "disk", "hybrid") if kind in ("flat", "hnsw", "ivf") else ("memory",):
            few = st == "disk" or (kind in ("hnsw", "ivf") and st != "memory")
            add(kind + "-" + st, "owned", kind=kind, storage=st, ops=2, kinds=ops + (["reopen"] if st != "memory" else []), mds=["missing", "nested", "listed"] if T else ["listed"], rnd_small=0, seed=1)
    for kind in ("lsh", "annoy"):
        add(kind + "-metadata", "owned", kind=kind, storage="memory", ops=1, kinds=["insert", "search", "update"], mds=list(MDS), rnd_small=0, seed=2)
    add("scalar", "coded", q=("scalar", "ScalarQuantizer", {"bits": 8}), n=4, d=2)
    add("product", "coded", q=("product", "ProductQuantizer", {"m": 2, "k": 2}), n=3, d=2)
    add("saq", "coded", q=("saq", "SAQQuantizer", {"total_bits": 8, "n_segments": 1}), n=4, d=2, seed=1)
    return out
