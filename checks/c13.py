"""C13  counts, delete / update reports and unknown ids, for every index type, through
the database client"""
from .ix import *  # noqa

PROPERTY = "C13"
CFG = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 8}, "ivf": {"metric": "euclidean", "n_clusters": 2, "n_probes": 2},
       "lsh": {"metric": "euclidean", "num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {"metric": "euclidean"}}
ASSUMPTIONS = ["vector values are fixed here (value independence); identifiers and histories are symbolic"]


def database(ctx, kind):
    st = ctx.mod("valori.storage.memory").MemoryStorage({})
    mod, cls = MODS[kind]
    ix = getattr(ctx.mod(mod), cls)(dict(CFG[kind]))
    db = ctx.mod("valori.client").VectorDBClient(st, ix)
    db.initialize()
    return db


def count(db):
    s = db.get_stats()["index"]
    return s["vector_count"] if "vector_count" in s else s["num_vectors"]


def agree(ctx, db, m, kind, what):
    ctx.check_that(count(db) == len(m.live), what + "count equals the number of live vectors", (count(db), len(m.live)))
    if kind == "annoy" and not db.index.get_stats()["built"]:
        db.index.build()
    for i in list(m.live):
        res = db.search(ctx.np.array(m.live[i][0]), len(m.live) + 2)
        got = {str(r["id"]): r for r in res}
        ctx.check_that(all(x in m.live for x in got), what + "no search returns a deleted vector", sorted(got))
        ctx.check_that(i in got, what + "every live vector can be found", (i, sorted(got)))
        ctx.check_that(same(got[i]["metadata"] or None, m.live[i][1] or None), what + "with its latest metadata", got[i]["metadata"])
    if not m.live:
        ctx.check_that(not db.search(ctx.np.array([0.0, 0.0]), 3), what + "an empty index returns nothing")


def some_id(ctx, ids, p):
    """a known id or an arbitrary string"""
    kind = ctx.choice("id", ["known", "arbitrary"])
    if kind == "known":
        return ids[int(ctx.int("target", 0, len(ids) - 1))]
    return ctx.str("idstr", ctx.choice("idlen", p["idlens"]), "-019x ")


def resolve(ctx, m, i, kind):
    """the live id that an identifier denotes, if any"""
    for x in list(m.live):
        if bool(i == x):
            return x
    if kind in ("lsh", "annoy"):
        try:
            n = int(to_int(i))
        except ValueError:
            return None
        return str(n) if str(n) in m.live else None
    return None


def history(ctx):
    p = ctx.params
    kind = p["kind"]
    db = database(ctx, kind)
    Err = ctx.mod("valori.exceptions").ValoriError
    m = Model()
    ids = []
    fresh = [0.0]

    def vec():
        fresh[0] += 1.0
        return [fresh[0], 0.5]

    def put(n, how):
        V = [vec() for _ in range(n)]
        mds = {"all": [{"t": v[0]} for v in V], "short": [{"t": V[0][0]}], "none": None}[how]
        if kind in ("lsh", "annoy") and how == "short" and n != 1:
            mds, how = [{"t": v[0]} for v in V], "all"
        r = db.insert(ctx.np.array(V), mds)
        ctx.check_that(len(r) == n and len(set(r)) == n, "one new id per vector", r)
        ctx.check_that(all(x not in m.live for x in r), "inserted ids are new", r)
        for j, x in enumerate(r):
            m.put(x, V[j], mds[j] if mds and j < len(mds) else None)
        ids.extend(r)
    put(2, ctx.choice("md", p.get("md", ["all", "short", "none"])))
    for _ in range(p["ops"]):
        op = ctx.choice("op", p["kinds"])
        if op == "insert":
            put(1, "all")
        elif op == "delete":
            targets = [some_id(ctx, ids, p) for _ in range(ctx.choice("howmany", p.get("dels", [1])))]
            if kind == "annoy" or kind == "lsh":
                if db.index.get_stats().get("built") is False and ctx.flip("build first"):
                    db.index.build()
            want = True
            for t in targets:
                r = resolve(ctx, m, t, kind)
                if r is None:
                    want = False
                else:
                    m.drop(r)
            ok, e = attempt(lambda: db.delete(targets), Err)
            ctx.check_that(e is None and bool(ok) == want, "delete succeeds exactly when every id was live", (ok, want))
        else:
            t = some_id(ctx, ids, p)
            v = vec()
            r = resolve(ctx, m, t, kind)
            ok, e = attempt(lambda: db.update(t, ctx.np.array(v), {"t": v[0]}), Err)
            ctx.check_that(bool(ok) == (r is not None), "update succeeds exactly for live ids", (ok, r))
            if r is not None:
                m.put(r, v, {"t": v[0]})
        ctx.check_that(count(db) == len(m.live), "count equals the number of live vectors", (count(db), len(m.live)))
    agree(ctx, db, m, kind, "")
    ctx.observe("count", count(db))
    ctx.reach("compared")


def mass(ctx):
    """large batches, long lists of ids (repeated and unknown ones among them), everything deleted and filled again"""
    p = ctx.params
    kind, n = p["kind"], p["n"]
    ctx.rnd_seeded = Fixed(1)
    db = database(ctx, kind)
    Err = ctx.mod("valori.exceptions").ValoriError
    m = Model()
    V = [[float(i + 1), 0.5] for i in range(n)]
    ids = db.insert(ctx.np.array(V), [{"t": i} for i in range(n)])
    ctx.check_that(len(ids) == n and len(set(ids)) == n, "one new id per vector", len(ids))
    for i, v in zip(ids, V):
        m.put(i, v, {"t": int(v[0]) - 1})
    ctx.check_that(count(db) == n, "count equals the number of live vectors", count(db))
    if kind == "annoy":
        db.index.build()
    lo = int(ctx.choice("from", [0, 1, n // 3]))
    hi = int(ctx.choice("to", [n // 2, n - 1, n]))
    gone = list(ids[lo:hi])
    odd = ctx.choice("odd", [None, "repeated", "unknown"])
    at = ctx.choice("at", [0, len(gone) // 2, len(gone)])
    x = gone[1] if odd == "repeated" else ctx.str("id", 2, "-0x")
    listed = gone[:at] + ([x] if odd else []) + gone[at:]
    want = True
    for t in listed:
        r = resolve(ctx, m, t, kind)
        if r is None:
            want = False
        else:
            m.drop(r)
    ok, e = attempt(lambda: db.delete(list(listed)), Err)
    ctx.check_that(e is None and bool(ok) == want, "delete succeeds exactly when every id was live", (ok, want))
    ctx.check_that(count(db) == len(m.live), "count equals the number of live vectors", (count(db), len(m.live)))
    ok, e = attempt(lambda: db.delete([gone[-1]]), Err)
    ctx.check_that(e is None and not ok, "a deleted id is unknown")
    ok, e = attempt(lambda: db.update(gone[0], ctx.np.array([0.0, 0.0]), {}), Err)
    ctx.check_that(not ok, "a deleted id cannot be updated")
    new = db.insert(ctx.np.array([[-3.0, 0.5], [-4.0, 0.5]]), [{"t": -3}, {"t": -4}])
    ctx.check_that(all(x not in ids for x in new) or kind not in ("lsh", "annoy"), "ids of deleted vectors are not given again", new)
    for i, v in zip(new, (-3.0, -4.0)):
        m.put(i, [v, 0.5], {"t": int(v)})
    ctx.check_that(count(db) == len(m.live), "count equals the number of live vectors", (count(db), len(m.live)))
    if kind == "annoy" and not db.index.get_stats()["built"]:
        db.index.build()
    k = n + 5
    for v in ([-3.0, 0.5], V[0], V[-1]):
        got = db.search(ctx.np.array(v), k)
        found = [str(r["id"]) for r in got]
        ctx.check_that(len(set(found)) == len(found) and set(found) <= set(m.live), "no search returns a deleted vector")
        ctx.check_that(all(same(r["metadata"], m.live[str(r["id"])][1]) for r in got), "with its latest metadata")
        if kind in ("flat", "annoy"):
            ctx.check_that(set(found) == set(m.live), "every live vector can be found", (len(found), len(m.live)))
    ctx.reach("compared")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, fn="history", expect=["compared"], rnd_small=k.pop("rnd_small", 1),
                        bounds="2 inserted vectors, every history of %(ops)d operations from %(kinds)s; ids: inserted ones and all strings of lengths %(idlens)s over '-019x '" % k, **k))
    for kind in ("flat", "hnsw", "ivf", "lsh", "annoy"):
        r = 1 if T and kind == "hnsw" else 0
        if T or kind in ("flat", "hnsw", "ivf"):
            add(kind, kind=kind, ops=3 if T else 2, kinds=["delete", "update", "insert"], idlens=[1, 2] if not T else [0, 1, 2, 3], rnd_small=r)
        else:
            add(kind, kind=kind, ops=2, kinds=["delete", "update"], idlens=[1], md=["all"])
            add(kind + "-insert", kind=kind, ops=2, kinds=["delete", "insert"], idlens=[1], md=["none"])
            add(kind + "-ids", kind=kind, ops=1, kinds=["delete", "update"], idlens=[0, 2], md=["all", "none"])
        out.append(dict(name=kind + "-mass", fn="mass", kind=kind, n=70 if not T or kind == "hnsw" else 130, rnd_small=0, expect=["compared"], bounds="70 vectors (thorough 130), lists of up to 71 ids with one repeated or arbitrary"))
        add(kind + "-multi", kind=kind, ops=1, kinds=["delete"], dels=[2, 3] if T else [2], idlens=[1], rnd_small=r)
    return out
