"""C27  every documented configuration builds the component it names"""
import copy
import types

from .ix import *  # noqa

PROPERTY = "C27"
ASSUMPTIONS = ["sentence_transformers is a stand-in that returns any vectors for the texts"]
INDEX = {"flat": "FlatIndex", "hnsw": "HNSWIndex", "ivf": "IVFIndex", "lsh": "LSHIndex", "annoy": "AnnoyIndex"}
STORE = {"memory": "MemoryStorage", "disk": "DiskStorage", "hybrid": "HybridStorage"}
ALIAS = {"M": "m"}
OPTIONS = {                     # option -> values that differ from the default
    "flat": {"metric": ["euclidean"]},
    "hnsw": {"metric": ["euclidean"], "m": None, "ef_construction": None, "ef_search": None, "M": None},
    "ivf": {"metric": ["euclidean"], "n_clusters": None, "n_probes": None},
    "lsh": {"num_hash_tables": None, "hash_size": None, "num_projections": None, "threshold": [0.25], "metric": ["euclidean"]},
    "annoy": {"metric": ["euclidean", "dot"], "num_trees": None, "search_k": None},
}


class Sentences:
    def __init__(self, ctx): self.ctx = ctx

    def encode(self, texts, **kw):
        self.ctx.vecs = self.ctx.mat("e", len(texts), 2, -4, 4)
        return self.ctx.vecs.copy()

    def to(self, device): return self


def setup(ctx):
    m = types.ModuleType("sentence_transformers")
    m.SentenceTransformer = lambda name: Sentences(ctx)
    ctx.stub("sentence_transformers", m)


def setup_sym(ctx, world):
    setup(ctx)


def setup_conc(ctx):
    setup(ctx)


def storage_config(ctx, kind, limit=3):
    d = ctx.fs.ROOT + "/data"
    return {"memory": {}, "disk": {"data_dir": d}, "hybrid": {"memory_limit": limit, "disk": {"data_dir": d}}}[kind]


def in_effect(ctx, ix, kind, cfg, what):
    """the options are in effect: reported by the statistics or attributes of the component"""
    s = ix.get_stats()
    for k, v in cfg.items():
        n = ALIAS.get(k, k)
        if n in s or hasattr(ix, n):
            ctx.check_that((s[n] if n in s else getattr(ix, n)) == v, what + "the option is in effect", (kind, k))


def works(ctx, db, metric="any"):
    """a database that stores and finds a vector"""
    ids = db.insert(ctx.np.array([[1.0, 2.0], [2.0, 1.5], [-1.0, 0.5]]), [{"n": i} for i in range(3)])
    ctx.check_that(len(ids) == 3, "the database stores vectors")
    if hasattr(db.index, "build"):
        db.index.build()
    return ids


def build(ctx):
    """every type, every option"""
    p = ctx.params
    F = ctx.mod("valori.factory")
    kind = p["kind"]
    store = ctx.choice("storage", list(STORE))
    opts = OPTIONS[kind]
    o = ctx.choice("option", [None] + sorted(opts))
    cfg = {}
    if o is not None:
        cfg[o] = ctx.int("value", 2, 60) if opts[o] is None else ctx.choice("value", opts[o])
    sc = storage_config(ctx, store, ctx.int("limit", 1, 9))
    cfg0, sc0 = dict(cfg), copy.deepcopy({k: v for k, v in sc.items() if k != "memory_limit"})
    kw = {"storage_type": store} if store != "memory" or ctx.flip("name the storage") else {}
    db = F.create_vector_db(index_type=kind, index_config=cfg, storage_config=sc, **kw)
    ctx.check_that(type(db).__name__ == "VectorDBClient" and type(db.index).__name__ == INDEX[kind] and type(db.storage_backend).__name__ == STORE[store],
                   "components of the types named", (kind, store, type(db.index).__name__, type(db.storage_backend).__name__))
    s = db.get_stats()
    ctx.check_that(s["index"]["initialized"] is True and s["storage"]["initialized"] is True, "ready to use")
    in_effect(ctx, db.index, kind, cfg, "")
    ctx.check_that(list(cfg) == list(cfg0) and all(cfg[k] is cfg0[k] for k in cfg), "the options passed in are unchanged")
    ctx.check_that({k: v for k, v in sc.items() if k != "memory_limit"} == sc0, "the storage options passed in are unchanged")
    if store == "hybrid":
        ctx.check_that(s["storage"]["memory_limit"] == sc["memory_limit"], "the storage option is in effect")
    if store != "memory":
        ctx.check_that(any("/data" in x for x in ctx.fs.parents()) or ctx.fs.Path(ctx.fs.ROOT + "/data").exists(), "the data directory is in effect")
    ctx.reach("end")


def refused(ctx):
    F, C = ctx.mod("valori.factory"), ctx.mod("valori.configs")
    E = (ValueError, ctx.mod("valori.exceptions").ValoriError)
    t = ctx.str("name", ctx.params["len"], "flatsh_ ")
    for f, known in ((lambda: F.create_vector_db(index_type=t), INDEX), (lambda: F.create_vector_db(index_type="flat", storage_type=t), STORE),
                     (lambda: F.create_from_template(t), F.TEMPLATES), (lambda: C.get_config("storage", t), C.STORAGE_CONFIGS), (lambda: C.get_config(t, "flat"), {"index": 1}),
                     (lambda: C.list_configs(t), {"index": 1})):
        ok = OR([t == k for k in known]) if len(t) else False
        if bool(ok) or len(t) == 0:
            continue
        ctx.check_that(raises(f, *E) is not None, "an unknown name is refused", t)
    ctx.reach("end")


def recommended(ctx):
    """create_vector_db without a type: any expected size, dimension and use case gives a working database"""
    F, H = ctx.mod("valori.factory"), ctx.mod("valori.utils.helpers")
    n = ctx.int("n", 0, 10 ** 7) if ctx.flip("n given") else None
    d = ctx.int("d", 1, 5000) if ctx.flip("d given") else None
    kw = {}
    u = ctx.choice("use", [None, "speed", "accuracy", "memory", "balanced"])
    if u:
        kw["use_case"] = u
    if ctx.flip("option given"):
        kw["index_config"] = {"metric": "euclidean"}
    db = F.create_vector_db(num_vectors=n, dimension=d, **kw)
    ctx.check_that(type(db.index).__name__ in INDEX.values() and db.get_stats()["index"]["initialized"] is True, "a database")
    if "index_config" in kw:
        ctx.check_that(db.index.metric == "euclidean" and kw["index_config"] == {"metric": "euclidean"}, "an option given is in effect")
    if n is not None and d is not None:
        want = H.get_recommended_index_config(n, d, u or "balanced")
        ctx.check_that(type(db.index).__name__ == INDEX[want["type"]], "the recommended type")
        in_effect(ctx, db.index, want["type"], {k: v for k, v in want["config"].items() if k != "metric"}, "recommended: ")
    if n is None or bool(n < 1000):
        ctx.check_that(type(db.index).__name__ == "FlatIndex", "small or unknown sizes get exact search")
    works(ctx, db) if type(db.index).__name__ in ("FlatIndex", "HNSWIndex") else None
    ctx.reach("end")


def config_recommended(ctx):
    """get_recommended_config: accepted by the factory, options in effect"""
    F, C = ctx.mod("valori.factory"), ctx.mod("valori.configs")
    n, d = ctx.int("n", 0, 10 ** 7), ctx.int("d", 1, 5000)
    u = ctx.choice("use", ["speed", "accuracy", "balanced"])
    st = ctx.choice("storage", ["memory", "disk", "hybrid", "memory_only", "disk_only"])
    r = C.get_recommended_config(n, d, u, st)
    before = copy.deepcopy(C.INDEX_CONFIGS), copy.deepcopy(C.STORAGE_CONFIGS), copy.deepcopy(C.EMBEDDING_CONFIGS)
    t = r["index"]["type"]
    stt = r["storage"]["type"]
    ctx.check_that(stt == st.split("_")[0], "the storage asked for", (st, stt))
    sc = dict(r["storage"]["config"], **({} if stt == "memory" else {"data_dir": ctx.fs.ROOT + "/data"} if stt == "disk" else {"disk": {"data_dir": ctx.fs.ROOT + "/data"}}))
    db = F.create_vector_db(index_type=t, index_config=r["index"]["config"], storage_type=stt, storage_config=sc)
    ctx.check_that(type(db.index).__name__ == INDEX[t] and type(db.storage_backend).__name__ == STORE[stt], "the components recommended")
    in_effect(ctx, db.index, t, r["index"]["config"], "")
    ctx.check_that("model_name" in r["embedding"], "an embedding model is named")
    ctx.check_that(AND(r["metadata"]["num_vectors"] == n, r["metadata"]["dimension"] == d), "for the data described")
    for part in (r["index"]["config"], r["storage"], r["storage"]["config"], r["embedding"]):
        part["spoiled"] = 1
    ctx.check_that(before == (C.INDEX_CONFIGS, C.STORAGE_CONFIGS, C.EMBEDDING_CONFIGS), "the presets are unchanged")
    ctx.reach("end")


def presets(ctx):
    """every listed name resolves; index presets build; results are the caller's own"""
    F, C = ctx.mod("valori.factory"), ctx.mod("valori.configs")
    all_ = C.list_configs()
    cat = ctx.choice("category", sorted(all_))
    names = all_[cat]
    one = C.list_configs(cat)
    ctx.check_that((one == names) if cat == "index" else one == {cat: names}, "listed the same alone", one)
    if cat == "index":
        sub = ctx.choice("sub", sorted(names))
        ctx.check_that(sorted(C.get_config("index", sub)) == sorted(names[sub]), "a group of presets by name")
        name = ctx.choice("name", sorted(names[sub]))
        c = C.get_config("index", name)
        kind = name.split("_")[0]
        db = F.create_vector_db(index_type=kind, index_config=c)
        in_effect(ctx, db.index, kind, c, "preset: ")
    else:
        name = ctx.choice("name", sorted(names))
        c = C.get_config(cat, name)
    ctx.check_that(isinstance(c, dict) and len(c) > 0, "a configuration")
    before = copy.deepcopy(c)

    def spoil(x):
        for k in list(x):
            if isinstance(x[k], dict):
                spoil(x[k])
        x["spoiled"] = 1
    spoil(c)
    ctx.check_that(C.get_config(cat, name) == before, "what a caller does with a configuration does not alter the preset", name)
    ctx.reach("end")


def templates(ctx):
    F = ctx.mod("valori.factory")
    name = ctx.choice("template", sorted(F.TEMPLATES))
    before = copy.deepcopy(F.TEMPLATES)
    T = F.TEMPLATES[name]
    over = {}
    if T["storage_type"] == "disk":
        over["storage_config"] = {"data_dir": ctx.fs.ROOT + "/data"}
    x = ctx.choice("override", ["none", "storage", "options", "type"])
    kind, st = T["index_type"], T["storage_type"]
    cfg = dict(before[name].get("index_config", {}))
    if x == "storage":
        st = over["storage_type"] = "memory"
    elif x == "options":
        cfg = over["index_config"] = {"metric": "euclidean"}
    elif x == "type":
        kind = over["index_type"] = ctx.choice("type", ["flat", "hnsw"])
        if kind != T["index_type"]:
            cfg = {}
    over0 = copy.deepcopy(over)
    db = F.create_from_template(name, **over)
    ctx.check_that(type(db.index).__name__ == INDEX[kind] and type(db.storage_backend).__name__ == STORE[st], "components of the template and the overrides",
                   (name, x, type(db.index).__name__, type(db.storage_backend).__name__))
    in_effect(ctx, db.index, kind, cfg, "template: ")
    if x != "options" and isinstance(getattr(db.index, "config", None), dict):
        db.index.config["spoiled"] = 1
    ctx.check_that(F.TEMPLATES == before and over == over0 or x == "options" and F.TEMPLATES == before, "templates and overrides are unchanged", name)
    if kind in ("flat", "hnsw"):
        ids = works(ctx, db)
        r = db.search(ctx.np.array([1.0, 2.0]), 1)
        ctx.check_that(len(r) == 1 and str(r[0]["id"]) == str(ids[0]), "a database that finds what it stored", r)
    ctx.reach("end")


def corpus(ctx):
    """databases filled from texts can be searched at once and know every text"""
    p = ctx.params
    F = ctx.mod("valori.factory")
    texts = ["one", "two"]
    kw = {}
    if p["kind"] == "semantic":
        if p["index"]:
            kw["index_type"] = p["index"]
        db = F.create_semantic_search_db(list(texts), **kw)
    else:
        docs = [{"text": t, "lang": "en%d" % i} for i, t in enumerate(texts)]
        if p["index"]:
            kw = {"index_type": p["index"], "index_config": {}}
        db = F.create_hybrid_search_db(docs, **kw)
        ctx.check_that(docs == [{"text": t, "lang": "en%d" % i} for i, t in enumerate(texts)], "the documents passed in are unchanged")
    if p["index"]:
        ctx.check_that(type(db.index).__name__ == INDEX[p["index"]], "the index asked for")
    V = ctx.vecs
    for i in range(2):
        ctx.assume(V[i][0] * V[i][0] + V[i][1] * V[i][1] > 0.25)
    res = db.search(V[0], 2)
    ctx.check_that(len(res) == 2, "every text is found", res)
    got = {r["metadata"]["text"]: r["metadata"] for r in res}
    ctx.check_that(set(got) == set(texts), "every text is found once", sorted(got))
    if p["kind"] == "hybrid":
        ctx.check_that(all(got[t]["lang"] == "en%d" % i and got[t]["doc_id"] == i for i, t in enumerate(texts)), "with its own metadata", got)
    ctx.check_that(all(got[t]["text_length"] == 3 and got[t]["embedding_dimension"] == 2 for t in texts), "with its description")
    ctx.reach("end")


def documents(ctx):
    F = ctx.mod("valori.factory")
    kind = ctx.choice("index", ["annoy", "hnsw", "flat", "ivf", "lsh"])
    kw = {}
    if ctx.flip("options"):
        kw["index_config"] = {"metric": "euclidean"}
    size, over = ctx.int("size", 1, 30), ctx.int("overlap", 0, 29)
    ctx.assume(over < size)
    db, pl = F.create_document_db(index_type=kind, chunk_size=size, chunk_overlap=over, **kw)
    ctx.check_that(type(db.index).__name__ == INDEX[kind], "the index asked for")
    if kw:
        ctx.check_that(db.index.metric == "euclidean", "an option given is in effect")
    ch = [q for q in pl.processors if type(q).__name__ == "ChunkingProcessor"]
    ctx.check_that([type(q).__name__ for q in pl.processors] == ["CleaningProcessor", "ChunkingProcessor", "EmbeddingProcessor"] and
                   AND(ch[0].chunk_size == size, ch[0].chunk_overlap == over), "the pipeline's chunk sizes are in effect")
    tp = pl.parser_registry.parsers["text"]
    ctx.check_that(AND(tp.chunk_size == size, tp.chunk_overlap == over), "the parsers' chunk sizes are in effect")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % {a: b for a, b in k.items()}, **k))
    for k in INDEX:
        add("build-" + k, "build", kind=k)
    add("refused", "refused", len=3 if not T else 4)
    add("recommended", "recommended")
    add("config-recommended", "config_recommended")
    add("presets", "presets")
    add("templates", "templates")
    for i in (None, "flat", "annoy", "hnsw"):
        out.append(dict(name="semantic-%s" % i, fn="corpus", expect=["end"], bounds="2 texts, dimension 2", kind="semantic", index=i))
        out.append(dict(name="hybrid-%s" % i, fn="corpus", expect=["end"], bounds="2 documents, dimension 2", kind="hybrid", index=i))
    add("documents", "documents")
    return out
