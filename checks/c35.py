"""C35  statistics report what is there, and reading them changes nothing"""
from .ix import *  # noqa
from . import st as S
from . import c06

PROPERTY = "C35"
ASSUMPTIONS = ["clustering is any partition (IVF, product, SAQ)", "file sizes are whatever the file system reports"]
BUDGET = {"quick": 90, "thorough": 600}


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(clone(v) for v in x)
    return x.copy() if hasattr(x, "shape") and not isnum(x) else x


def spoil(x):
    """what a careless caller does with a report"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
        x["vector_count"] = -5
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        del x[:]
        x.append(-5)
    elif hasattr(x, "shape") and getattr(x, "size", 0) and len(x.shape) and not isinstance(x, tuple):
        x[0] = -5


def report(ctx, get):
    """the statistics, which nobody can change by reading"""
    a = get()
    keep = clone(a)
    spoil(a)
    b = get()
    ctx.check_that(same(b, keep), "reading or changing a report changes nothing", (sorted(map(str, b)), sorted(map(str, keep))))
    return keep


def size(ctx, path):
    return sum(f.stat().st_size for f in ctx.fs.Path(path).rglob("*") if f.is_file())


def held(ctx, s, model):
    ctx.check_that(s["vector_count"] == len(model), "vector count", (s["vector_count"], len(model)))


def in_memory(ctx, s, model):
    """a store that was only ever given these entries reports the same"""
    held(ctx, s, model)
    ref = S.make(ctx, "memory")
    for i, (v, md) in model.items():
        ref.store_vector(i, ctx.np.array(list(v)), md)
    want = ref.get_stats()["memory_usage_bytes"]
    ctx.check_that(s["memory_usage_bytes"] == want, "memory usage belongs to the entries held", (s["memory_usage_bytes"], want))
    ctx.check_that(want >= 8 * sum(len(v) for v, _ in model.values()) and (want == 0) == (not model), "memory usage covers the vectors", want)
    ctx.check_that(eq(s["memory_usage_mb"] * (1024 * 1024), want), "megabytes", s["memory_usage_mb"])


def on_disk(ctx, s, model, path):
    held(ctx, s, model)
    n = size(ctx, path)
    ctx.check_that(s["disk_usage_bytes"] == n, "bytes on disk", (s["disk_usage_bytes"], n))
    ctx.check_that(eq(s["disk_usage_mb"] * (1024 * 1024), n), "megabytes", s["disk_usage_mb"])
    ctx.check_that(str(s["data_directory"]) == path, "data directory", s["data_directory"])


def stored(ctx):
    p = ctx.params
    kind, limit = p["kind"], p.get("limit", 1)
    path = str(ctx.fs.ROOT) + "/data"
    st = S.make(ctx, kind, limit, init=False)
    ctx.check_that(not st.get_stats().get("vector_count"), "no counts before initialisation", st.get_stats())
    st.initialize()
    model = {}
    crowd = ["doc-%d" % j for j in range(p.get("crowd", 0))]
    for j, i in enumerate(crowd):
        st.store_vector(i, ctx.np.array([float(j), 1.0]), {"j": j} if j % 2 else None)
        model[i] = ([float(j), 1.0], {"j": j} if j % 2 else None)
    for j in range(p["ops"]):
        op = ctx.choice("op", p["kinds"])
        i = ctx.choice("id", p["ids"])
        if op == "delete-many":
            for i in crowd[1:]:
                st.delete_vector(i)
                model.pop(i, None)
        if op in ("store", "update"):
            d = ctx.choice("d", [1, 3])
            v = ctx.vec("v", d, -4, 4)
            md = {"none": None, "text": {"k": "gr\u00fc\u00df" * 2}}[ctx.choice("md", ["none", "text"])]
            (st.store_vector if op == "store" else st.update_vector)(i, v, md)
            if op == "store" or i in model:
                model[i] = (list(v), md)
        elif op == "delete":
            st.delete_vector(i)
            model.pop(i, None)
        elif op == "read":
            st.retrieve_vector(i)
        elif op == "reopen":
            st.close()
            ctx.check_that(not st.get_stats().get("vector_count"), "no counts after closing", st.get_stats())
            st = S.make(ctx, kind, limit)
            if kind == "memory":
                model = {}
        s = report(ctx, st.get_stats)
        ctx.check_that(s["backend_type"] == kind and s["initialized"] is True, "kind and state", s)
        if kind == "memory":
            in_memory(ctx, s, model)
        elif kind == "disk":
            on_disk(ctx, s, model, path)
        else:
            tier = lambda t: {i: (list(v), md) for i in t.list_vectors() for v, md in [t.retrieve_vector(i)]}
            m, d = tier(st.memory_storage), tier(st.disk_storage)
            ctx.check_that(set(m) | set(d) == set(model), "every entry is in a tier", (list(m), list(d)))
            in_memory(ctx, s["memory"], m)
            on_disk(ctx, s["disk"], d, path)
            ctx.check_that(s["memory_limit"] == limit, "memory limit", s["memory_limit"])
    for i in p["ids"]:
        S.check_entry(ctx, st, i, model.get(i), "after reading statistics: ")
    ctx.reach("end")


def saved(ctx):
    """persistence managers"""
    p = ctx.params
    kind = p["kind"]
    m = c06.manager(ctx, kind, init=False)
    Err = ctx.mod("valori.exceptions").ValoriError
    ctx.check_that(not any(v for k, v in m.get_stats().items() if "count" in k), "no counts before initialisation", m.get_stats())
    m.initialize()
    saves = loads = logged = states = 0
    fresh = 0
    known = set()
    x = ctx.real("x", -9, 9)
    before = [p["before"][1][j % len(p["before"][1])] for j in range(ctx.choice("before", p["before"][0]))] if "before" in p else []
    for j in range(len(before) + p["ops"]):
        op = before[j] if j < len(before) else ctx.choice("op", p["kinds"])
        path = ctx.choice("path", p.get("paths", ["a"]))
        if op == "state":
            m.save_state({"x": x}, path + ".s")
            states += 1
            known.add(path + ".s")
        elif op == "index":
            m.save_index({"x": x}, path + ".i")
            known.add(path + ".i")
        elif op == "vectors":
            m.save_vectors(ctx.np.array([[x], [2.0]]), ["u", "v"], path + ".v")
            known.add(path + ".v")
        elif op == "bad":
            r, e = attempt(lambda: m.save_index({"x": lambda: 0}, path + ".b"), Err)
            ctx.check_that(e is not None, "a state that cannot be saved is refused")
        elif op == "restart":
            m.close()
            ctx.check_that(not any(v for k, v in m.get_stats().items() if "count" in k), "no counts after closing", m.get_stats())
            m = c06.manager(ctx, kind)
            saves = loads = 0
        elif op == "load":
            what = ["state", "index", "vectors"][j % 3] if j < len(before) else ctx.choice("what", ["state", "index", "vectors"])
            got = {"state": m.load_state, "index": m.load_index, "vectors": m.load_vectors}[what](path + "." + what[0])
            if got is not None and got[0 if what == "vectors" else "x"] is not None:
                loads += 1
        if op in ("state", "index", "vectors"):
            saves += 1
            logged += 1
        s = report(ctx, m.get_stats)
        d = str(ctx.fs.ROOT) + "/data"
        ctx.check_that(str(s["data_directory"]) == d and s["initialized"] is True, "directory and state", s)
        n = size(ctx, d)
        ctx.check_that(s["disk_usage_bytes"] == n and eq(s["disk_usage_mb"] * (1024 * 1024), n), "bytes on disk", (s["disk_usage_bytes"], n))
        if kind == "incremental":
            ctx.check_that(s["logged_operations"] == logged, "logged operations", (s["logged_operations"], logged))
            ctx.check_that(s["operation_count"] == logged, "operation count", (s["operation_count"], logged))
            ctx.check_that(s["checkpoint_count"] == states, "checkpoints", (s["checkpoint_count"], states))
            ctx.check_that(0 <= s["last_checkpoint"] <= logged, "last checkpoint", s["last_checkpoint"])
            ctx.check_that(s["checkpoint_interval"] == 2, "interval", s["checkpoint_interval"])
        else:
            ctx.check_that(s["save_count"] == saves, "saves", (s["save_count"], saves))
            ctx.check_that(s["load_count"] == loads, "loads", (s["load_count"], loads))
            files = len([f for f in ctx.fs.Path(d).rglob("*") if f.is_file()])
            ctx.check_that(s["file_count"] == files, "files", (s["file_count"], files))
            if not any(f.name.endswith(".tmp") for f in ctx.fs.Path(d).rglob("*")):
                ctx.check_that(files == len(known), "one file for each thing saved", (files, len(known)))
            ctx.check_that(s["compression_enabled"] == (kind == "zip"), "compression", s["compression_enabled"])
    ctx.reach("end")


OPTS = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 16, "ef_construction": 7, "ef_search": 5},
        "ivf": {"metric": "euclidean", "n_clusters": 2, "n_probes": 2},
        "lsh": {"metric": "euclidean", "num_hash_tables": 2, "hash_size": 1, "num_projections": 1, "threshold": 0.0},
        "annoy": {"metric": "euclidean", "num_trees": 3, "search_k": 11}}


def indexed(ctx):
    """indices, alone and through the database"""
    p = ctx.params
    kind = p["kind"]
    mod, cls = MODS[kind]
    st = ctx.mod("valori.storage.memory").MemoryStorage({})
    opts = p.get("ixopts", OPTS[kind])
    if p.get("crowd"):
        ctx.rnd_seeded = Fixed(1)
    ix = getattr(ctx.mod(mod), cls)(dict(opts))
    db = ctx.mod("valori.client").VectorDBClient(st, ix)
    early = ix.get_stats()
    ctx.check_that(not early.get("vector_count") and not early.get("num_vectors") and not early.get("initialized"), "nothing is counted before initialisation", early)
    db.initialize()
    live, n = {}, 0
    for j in range(-1 if p.get("crowd") else 0, p["ops"]):
        op = ctx.choice("op", p["kinds"]) if j >= 0 else "insert"
        if op == "insert":
            k = ctx.choice("howmany", p["many"]) if j >= 0 else p["crowd"]
            V = [[float(n + c), 0.5] for c in range(k)]
            n += k
            live.update(zip(db.insert(ctx.np.array(V), [{"n": c} for c in range(k)]), V))
        elif op == "delete" and live:
            i = sorted(live, key=lambda i: live[i][0])[ctx.choice("which", list(range(len(live))) if len(live) < 5 else [0, len(live) - 1])]
            db.delete([i])
            del live[i]
        elif op == "delete-many" and live:
            gone = sorted(live, key=lambda i: live[i][0])[2:]
            db.delete(gone)
            for i in gone:
                del live[i]
        elif op == "update" and live:
            i = sorted(live, key=lambda i: live[i][0])[-1]
            live[i] = [live[i][0] + 0.25, 1.5]
            db.update(i, ctx.np.array(live[i]), {"u": 1})
        elif op == "build" and kind == "annoy":
            ix.build()
        elif op == "reopen":
            db.close()
            st = ctx.mod("valori.storage.memory").MemoryStorage({})
            db = ctx.mod("valori.client").VectorDBClient(st, ix)
            db.initialize()
            live, n = {}, 0
        whole = report(ctx, db.get_stats)
        s = whole["index"]
        ctx.check_that(s["index_type"] == kind and s["initialized"] is True, "kind and state", s)
        ctx.check_that(s["vector_count" if "vector_count" in s else "num_vectors"] == len(live), "vector count", (s, len(live)))
        for o, v in opts.items():
            ctx.check_that(s.get(o, v) == v, "the configured options", (o, s.get(o), v))
        if kind in ("flat", "hnsw", "ivf"):
            ctx.check_that(whole["storage"]["vector_count"] == len(live), "the storage holds the same number", whole["storage"])
        if kind == "ivf":
            ctx.check_that(not s["trained"] or sum(s["cluster_stats"].values()) == len(live), "cluster sizes add up", s["cluster_stats"])
            ctx.check_that(len(s["cluster_stats"]) <= opts["n_clusters"] and all(c >= 0 for c in s["cluster_stats"].values()), "as many clusters as configured at most", s["cluster_stats"])
        if kind in ("lsh", "annoy"):
            ctx.check_that(len(live) <= s["total_capacity"] <= n, "capacity", (s["total_capacity"], n))
            ctx.check_that(s["dimension"] == (2 if n else s["dimension"]), "dimension", s["dimension"])
        if kind == "lsh":
            ctx.check_that(len(s["hash_table_sizes"]) == opts["num_hash_tables"] and all(t >= (1 if live else 0) for t in s["hash_table_sizes"]), "table sizes", s["hash_table_sizes"])
            ctx.check_that(s["avg_bucket_size"] <= s["max_bucket_size"] <= n and s["max_bucket_size"] >= (1 if live else 0), "bucket sizes", (s["avg_bucket_size"], s["max_bucket_size"]))
            ctx.check_that(eq(s["avg_bucket_size"] * sum(s["hash_table_sizes"]), len(s["hash_table_sizes"]) * len(live)), "every vector is in every table", s)
    if live and (kind != "annoy" or ix.get_stats()["built"]):
        got = {str(r["id"]) for i in live for r in db.search(ctx.np.array(live[i]), len(live))}
        partial = kind in ("annoy", "lsh") or kind == "hnsw" and n > opts["m"] or kind == "ivf" and opts["n_probes"] < opts["n_clusters"]
        ctx.check_that(got == set(map(str, live)) or partial and got <= set(map(str, live)), "the counted vectors are the ones found", (got, set(live)))
    ctx.reach("end")


def quantized(ctx):
    """quantizers"""
    p = ctx.params
    kind = p["kind"]
    cfg = dict(p["cfg"])
    q = {"scalar": lambda: ctx.mod("valori.quantization.scalar").ScalarQuantizer(cfg), "product": lambda: ctx.mod("valori.quantization.product").ProductQuantizer(cfg),
         "saq": lambda: ctx.mod("valori.quantization.saq").SAQQuantizer(cfg)}[kind]()
    ctx.check_that(not q.get_stats().get("trained"), "not trained before initialisation", q.get_stats())
    q.initialize()
    s = report(ctx, q.get_stats)
    ctx.check_that(s["quantizer_type"] == kind and s["trained"] is False and s["initialized"] is True, "kind and state", s)
    for t in range(p.get("trainings", 1)):
        n, d = ctx.choice("n", p["n"]), ctx.choice("d", p["d"])
        T = ctx.mat("t%d" % t, n, d, -4, 4) if p.get("sym", True) else ctx.np.array([[float((3 * i + 5 * j) % 7) for j in range(d)] for i in range(n)])
        q.train(T)
        X = ctx.np.array([list(rows(T)[0])])
        before = q.quantize(X)
        s = report(ctx, q.get_stats)
        ctx.check_that(s["trained"] is True and s["dimensions"] == d, "trained for this dimension", (s["trained"], s["dimensions"], d))
        for k, v in cfg.items():
            if k != "n_segments" and k in s:
                ctx.check_that(s[k] == v, "the configured options", (k, s[k], v))
        if kind == "scalar":
            cols = [[r[c] for r in rows(T)] for c in range(d)]
            lows, highs = [c17min(c)[0] for c in cols], [c17min(c)[1] for c in cols]
            ctx.check_that(AND(eq(s["min_values_range"][0], c17min(lows)[0]), eq(s["min_values_range"][1], c17min(lows)[1])), "range of the smallest values", s["min_values_range"])
            ctx.check_that(AND(eq(s["max_values_range"][0], c17min(highs)[0]), eq(s["max_values_range"][1], c17min(highs)[1])), "range of the largest values", s["max_values_range"])
            ctx.check_that(eq(s["compression_ratio"], 32.0 / cfg["bits"]), "compression ratio", s["compression_ratio"])
        elif kind == "product":
            import math
            k = min(cfg["k"], n)
            ctx.check_that(s["subvector_dimensions"] * cfg["m"] == d and s["effective_k"] == k, "parts and codewords", (s["subvector_dimensions"], s["effective_k"], k))
            ctx.check_that(tuple(s["centroids_shape"]) == (cfg["m"], k, d // cfg["m"]), "shape of the codebook", s["centroids_shape"])
            bits = math.log2(k) if k > 1 else 1.0
            ctx.check_that(eq(s["bits_per_subvector"], bits) and eq(s["total_bits"], cfg["m"] * bits) and eq(s["compression_ratio"], 32 / bits), "bits", s)
        else:
            ctx.check_that(eq(s["compression_ratio"] * cfg["total_bits"], 32.0 * d), "compression ratio", s["compression_ratio"])
            ctx.check_that(len(s["segment_bits"]) == len(s["segment_boundaries"]) == s["n_segments"] <= min(cfg["n_segments"], d), "segments", s)
            ctx.check_that(AND(sum(s["segment_bits"]) <= cfg["total_bits"]), "bits in budget", s["segment_bits"])
        ctx.check_that(bool(AND([AND([a == b for a, b in zip(u, v)]) for u, v in zip(rows(q.quantize(X)), rows(before))])), "encoding is unchanged by reading statistics")
    ctx.reach("end")


def c17min(c):
    lo = hi = c[0]
    for x in c[1:]:
        lo = x if bool(x < lo) else lo
        hi = x if bool(x > hi) else hi
    return lo, hi


def processed(ctx):
    """text processors"""
    p = ctx.params
    kind = p["kind"]
    if kind == "chunking":
        cfg = dict(strategy=p["strategy"], chunk_size=3, chunk_overlap=1, min_chunk_size=p.get("min", 1), max_chunk_size=p.get("max", 50))
        pr = ctx.mod("valori.processors.chunking").ChunkingProcessor(cfg)
    else:
        cfg = dict(remove_html=False, normalize_whitespace=True, lowercase=False, remove_stopwords=False, normalize_unicode=False, remove_special_chars=False)
        pr = ctx.mod("valori.processors.cleaning").CleaningProcessor(cfg)
    s = pr.get_stats()
    ctx.check_that(not s["initialized"], "not initialised", s)
    pr.initialize()
    docs = chunks = before = after = 0
    Err = ctx.mod("valori.exceptions").ValoriError
    for j in range(p["docs"]):
        t = ctx.str("t%d" % j, ctx.choice("len%d" % j, p["lens"]), "a \n")
        keep = t
        if p.get("bad") and ctx.flip("refused"):
            if kind == "chunking":
                r, e = attempt(lambda: pr.process({"title": "x"}), Err)
                ctx.check_that(e is not None, "a document without text is refused")
        else:
            out = pr.process({"text": t})
            docs += 1
            before += len(keep)
            after += len(out["text"])
            chunks += len(out.get("chunks", []))
        s = report(ctx, pr.get_stats)
        ctx.check_that(s["processor_type"] == kind and s["initialized"] is True, "kind and state", s)
        for k, v in cfg.items():
            ctx.check_that(s[k] == v, "the configured options", (k, s[k], v))
        if kind == "chunking":
            ctx.check_that(s["chunks_created"] == chunks, "chunks created", (s["chunks_created"], chunks))
            ctx.check_that(s["total_characters_processed"] == before, "characters processed", (s["total_characters_processed"], before))
            ctx.check_that(eq(s["average_chunk_size"] * max(chunks, 1), before), "average", s["average_chunk_size"])
        else:
            ctx.check_that(s["documents_processed"] == docs, "documents processed", (s["documents_processed"], docs))
            ctx.check_that(s["total_characters_before"] == before and s["total_characters_after"] == after, "characters", (s["total_characters_before"], s["total_characters_after"]))
            ctx.check_that(s["characters_removed"] == before - after, "characters removed", s["characters_removed"])
            ctx.check_that(eq(s["compression_ratio"] * before, after), "ratio", s["compression_ratio"])
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, **k):
        out.append(dict(name=name, fn=fn, expect=["end"], bounds="%s" % k, **k))
    full = ["store", "update", "delete", "reopen", "read"]
    add("memory", "stored", kind="memory", ops=3 if T else 2, kinds=full[:4], ids=["a", "b"])
    add("disk", "stored", kind="disk", ops=3 if T else 2, kinds=full[:4], ids=["a", "a/b"])
    add("hybrid", "stored", kind="hybrid", ops=3 if T else 2, kinds=full, ids=["a", "b"])
    add("hybrid-shift", "stored", kind="hybrid", ops=4 if T else 3, kinds=["store", "delete", "read"], ids=["a", "b"], limit=1)
    saves = ["state", "index", "vectors", "bad", "restart"]
    add("tensor", "saved", kind="tensor", ops=4 if T else 3, kinds=saves + ["load"])
    add("tensor-paths", "saved", kind="zip", ops=3 if T else 2, kinds=saves[:3] + ["load"], paths=["a", "d/b"])
    add("incremental", "saved", kind="incremental", ops=5 if T else 4, kinds=saves)
    add("incremental-long", "saved", kind="incremental", ops=9 if T else 7, kinds=["state", "restart"])
    for kind in MODS:
        add(kind, "indexed", kind=kind, ops=4 if T else 3, kinds=["insert", "delete", "update", "reopen"] + (["build"] if kind == "annoy" else []), many=[1, 3] if kind != "hnsw" else [1, 2])
    add("scalar", "quantized", kind="scalar", cfg={"bits": 4}, n=[1, 2, 3] if T else [2], d=[1, 2], trainings=1)
    add("scalar-again", "quantized", kind="scalar", cfg={"bits": 8}, n=[2, 3], d=[1, 2], trainings=2, sym=False)
    add("product", "quantized", kind="product", cfg={"m": 2, "k": 3}, n=[1, 2, 3, 4] if T else [2, 4], d=[2, 4], trainings=2 if T else 1, sym=False)
    add("product-again", "quantized", kind="product", cfg={"m": 2, "k": 2}, n=[1, 2], d=[2, 4], trainings=2, sym=False)
    add("saq", "quantized", kind="saq", cfg={"total_bits": 5, "n_segments": 2}, n=[2, 3], d=[1, 3], trainings=2, sym=False)
    for s in ("fixed_size", "semantic", "sliding_window"):
        add(s, "processed", kind="chunking", strategy=s, docs=2, lens=[0, 1, 4, 6] if T else [0, 4], bad=True)
        add(s + "-limits", "processed", kind="chunking", strategy=s, docs=2 if T else 1, lens=[5], min=2, max=3)
    big = {"flat": {"metric": "cosine"}, "hnsw": {"metric": "cosine", "m": 3}, "ivf": {"metric": "euclidean", "n_clusters": 12, "n_probes": 3},
           "lsh": {"metric": "euclidean", "num_hash_tables": 11, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {"metric": "angular", "num_trees": 12}}
    for kind in MODS:
        add(kind + "-crowd", "indexed", kind=kind, crowd=26, ops=2, ixopts=big[kind], kinds=["insert", "delete", "delete-many", "update"] + (["build"] if kind == "annoy" else []), many=[1])
    for kind in ("memory", "disk", "hybrid"):
        add(kind + "-crowd", "stored", kind=kind, crowd=26, limit=11, ops=2, kinds=["store", "delete", "delete-many", "reopen", "read"] if kind != "memory" else ["store", "delete", "delete-many"], ids=["doc-0", "doc-12"])
    add("tensor-many", "saved", kind="tensor", before=[[12, 25], ["state", "vectors", "load", "index"]], ops=1, kinds=saves + ["load"], paths=["a"])
    add("incremental-many", "saved", kind="incremental", before=[[12, 25], ["state", "vectors", "index", "restart"]], ops=1, kinds=saves)
    add("incremental-hundred", "saved", kind="incremental", before=[[101 if T else 33], ["state"]], ops=1, kinds=["state", "restart"])
    add("cleaning", "processed", kind="cleaning", docs=2, lens=[0, 1, 3, 4] if T else [0, 3])
    return out
