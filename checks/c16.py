"""C16  lifecycle: nothing works before initialize or after close, and everything works
again after the next initialize"""
from .ix import *  # noqa
from . import st as S
from . import c24, c31

PROPERTY = "C16"
CFG = {"flat": {}, "hnsw": {"m": 8}, "ivf": {"n_clusters": 2, "n_probes": 2},
       "lsh": {"num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": 0.0}, "annoy": {}}


def setup(ctx):
    """document libraries and embedding models"""
    c24.setup(ctx)
    c31.setup(ctx)
    ctx.models = []
    ctx.emb = lambda t: ctx.np.array([float(len(t)), 1.0])
    ctx.doc.pages, ctx.doc.paragraphs, ctx.doc.elements = ["a page"], ["a paragraph"], ["an element"]


setup_sym = lambda ctx, world: setup(ctx)
setup_conc = setup


def client(ctx):
    """every order of initialize, close and operations on a database"""
    p = ctx.params
    kind = p["kind"]
    Err = ctx.mod("valori.exceptions").ValoriError
    mod, cls = MODS[kind]
    st = S.make(ctx, p["store"], 1, init=False)
    ix = getattr(ctx.mod(mod), cls)(dict(CFG[kind], metric="euclidean"))
    extra = {}
    if p.get("extras"):
        extra = dict(quantizer=ctx.mod("valori.quantization.scalar").ScalarQuantizer({"bits": 8}),
                     persistence_manager=ctx.mod("valori.persistence.tensor").TensorPersistence({"data_dir": str(ctx.fs.ROOT) + "/p"}))
    db = ctx.mod("valori.client").VectorDBClient(st, ix, **extra)
    opened = False
    stored = {}                 # what the storage must contain, for storage-backed indices
    v = ctx.np.array([1.0, 2.0])
    cnt = [0]
    held = {}                   # what an index keeping its own vectors holds: since it was last closed
    for j in range(p["ops"]):
        op = ctx.choice("op", ["initialize", "close", "use"])
        if op == "initialize":
            db.initialize()
            opened = True
            if p["store"] == "memory":
                stored.clear()
        elif op == "close":
            db.close()
            opened = False
            held.clear()
        elif not opened:
            for name, f in [("insert", lambda: db.insert(ctx.np.array([[1.0, 2.0]]), None)), ("search", lambda: db.search(v, 1)),
                            ("delete", lambda: db.delete(["x"])), ("update", lambda: db.update("x", v, None)), ("get_stats", lambda: db.get_stats())]:
                ctx.check_that(raises(f, Err) is not None, "a closed database refuses " + name)
            if extra:
                ctx.check_that(all(raises(f, Err) is not None for f in (lambda: db.persistence_manager.load_state("s"), lambda: db.quantizer.train(ctx.np.array([[1.0, 2.0], [0.0, 1.0]])))),
                               "the components of a closed database are closed")
            ctx.reach("refused")
        else:
            cnt[0] += 1
            w = ctx.np.array([float(cnt[0]), 2.0])
            r = db.insert(ctx.np.array([[float(cnt[0]), 2.0]]), [{"n": cnt[0]}])
            ctx.check_that(len(r) == 1, "an open database inserts")
            stored[str(r[0])] = cnt[0]
            if kind == "annoy" and not ix.get_stats()["built"]:
                ix.build()
            res = db.search(w, 1)
            ctx.check_that(len(res) == 1 and str(res[0]["id"]) == str(r[0]) and res[0]["metadata"]["n"] == cnt[0], "an open database finds what it stored", res)
            s = db.get_stats()
            ctx.check_that("storage" in s and "index" in s and ("quantization" in s) == bool(extra) and ("persistence" in s) == bool(extra), "an open database reports on every component")
            held[str(r[0])] = w
            if extra:
                W, pm, qz = ctx.np.array([[0.0, 1.0], [2.0, 3.0]]), db.persistence_manager, db.quantizer
                (r, e) = attempt(lambda: (qz.train(W), qz.dequantize(qz.quantize(W)), pm.save_state({"n": cnt[0]}, "s")), Err)
                ctx.check_that(e is None and pm.load_state("s") == {"n": cnt[0]}, "an open database has working components", str(e))
            if kind in ("lsh", "annoy"):
                ctx.check_that(s["index"]["num_vectors"] == len(held), "the database holds exactly the vectors inserted since it was last closed", s["index"]["num_vectors"])
                for i, u in held.items():
                    ctx.check_that(i in [str(h["id"]) for h in db.search(u, 9)], "every vector it holds is found", i)
            if kind in ("flat", "hnsw", "ivf"):
                ctx.check_that(s["index"]["vector_count"] == len(stored), "the database holds exactly the stored vectors", s["index"]["vector_count"])
            ctx.reach("used")
    if opened and kind in ("flat", "hnsw", "ivf"):
        ctx.check_that(sorted(st.list_vectors()) == sorted(stored), "refused operations changed nothing")
    if opened and kind in ("lsh", "annoy"):
        ctx.check_that(db.get_stats()["index"]["num_vectors"] == len(held), "nothing left over from before it was closed", len(held))
    ctx.observe("opened", opened)
    ctx.reach("end")


def obstacle(ctx):
    """a database one of whose components cannot be initialised stays closed until it can"""
    p = ctx.params
    Err = ctx.mod("valori.exceptions").ValoriError
    st = S.make(ctx, "memory", 1, init=False)
    ix = ctx.mod("valori.indices.flat").FlatIndex({"metric": "euclidean"})
    parts = {"storage": st, "index": ix}
    if ctx.flip("quantizer"):
        parts["quantizer"] = ctx.mod("valori.quantization.scalar").ScalarQuantizer({"bits": 8})
    if ctx.flip("persistence"):
        parts["persistence"] = ctx.mod("valori.persistence.tensor").TensorPersistence({"data_dir": str(ctx.fs.ROOT) + "/p"})
    db = ctx.mod("valori.client").VectorDBClient(st, ix, quantizer=parts.get("quantizer"), persistence_manager=parts.get("persistence"))
    if ctx.flip("used before"):
        db.initialize()
        db.insert(ctx.np.array([[5.0, 5.0]]), None)
        db.close()
    bad = parts[ctx.choice("obstacle", ["storage", "index", "quantizer", "persistence"][:len(parts)] if len(parts) != 3 else list(parts))]

    def refuse(*a):
        raise ctx.mod("valori.exceptions").StorageError("no")
    bad.initialize = refuse
    v = ctx.np.array([1.0, 2.0])
    for _ in range(ctx.choice("attempts", [1, 2])):
        ctx.check_that(raises(db.initialize, Err) is not None, "a database that cannot be initialised says so")
        for name, f in [("insert", lambda: db.insert(ctx.np.array([[1.0, 2.0]]), None)), ("search", lambda: db.search(v, 1)), ("delete", lambda: db.delete(["x"])),
                        ("update", lambda: db.update("x", v, None)), ("get_stats", lambda: db.get_stats())]:
            ctx.check_that(raises(f, Err) is not None, "a database that failed to initialise refuses " + name)
        if ctx.flip("closed"):
            db.close()
    del bad.initialize
    db.initialize()
    r = db.insert(ctx.np.array([[1.0, 2.0]]), [{"n": 1}])
    res = db.search(v, 3)
    ctx.check_that(len(res) == 1 and res[0]["id"] == r[0], "once it can be initialised the database works without leftovers", res)
    ctx.reach("end")


def comp(ctx, name):
    """-> (object, {operation: call}, calls that must work when open)"""
    np, root = ctx.np, str(ctx.fs.ROOT)
    V = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 2.0]])
    v = np.array([1.0, 1.0])
    doc = {"text": "some text. more text.", "metadata": {}}
    if name in MODS:
        mod, cls = MODS[name]
        o = getattr(ctx.mod(mod), cls)(dict(CFG[name], metric="euclidean"))
        init = lambda: o.initialize(memory(ctx))
        ops = {"insert": lambda: o.insert(V, None), "search": lambda: o.search(v, 1), "delete": lambda: o.delete(["9"]), "update": lambda: o.update("9", v, None)}
        if name == "annoy":
            good = [lambda: (o.insert(V, None), o.build(), o.search(v, 1))]
            ops["build"] = lambda: o.build()
        else:
            good = [lambda: (o.insert(V, None), o.search(v, 1))]
        return o, init, ops, good
    if name in ("memory", "disk", "hybrid"):
        o = S.make(ctx, name, 1, init=False)
        ops = {"store": lambda: o.store_vector("a", v, None), "retrieve": lambda: o.retrieve_vector("a"), "delete": lambda: o.delete_vector("zz"),
               "update": lambda: o.update_vector("a", v, None), "list": lambda: o.list_vectors()}
        return o, o.initialize, ops, list(ops.values())
    if name in ("scalar", "product", "saq"):
        cls = {"scalar": "ScalarQuantizer", "product": "ProductQuantizer", "saq": "SAQQuantizer"}[name]
        o = getattr(ctx.mod("valori.quantization." + name), cls)({"bits": 8, "m": 1, "k": 2, "total_bits": 8, "n_segments": 1})
        codes = np.array([[0, 0] if name == "scalar" else [0]])
        learned = {"quantize": lambda: o.quantize(V), "dequantize": lambda: o.dequantize(codes), "distance": lambda: o.compute_distance(V[0], codes[0])}
        if name == "saq":
            learned["search"] = lambda: o.search_with_rescoring(V[0], codes, 1)

        def init():
            """a closed quantizer has forgotten its training"""
            o.initialize()
            if name not in trained:
                for what, f in learned.items():
                    ctx.check_that(attempt(f, ctx.mod("valori.exceptions").ValoriError)[1] is not None, "before training it refuses " + what)
        trained = set()
        o.close = (lambda close: lambda: (close(), trained.clear()))(o.close)
        return o, init, dict(learned, train=lambda: o.train(V)), [lambda: (o.train(V), trained.add(name)), learned["quantize"], learned["dequantize"]]
    if name in ("tensor", "incremental"):
        cls = {"tensor": "TensorPersistence", "incremental": "IncrementalPersistence"}[name]
        o = getattr(ctx.mod("valori.persistence." + name), cls)({"data_dir": root + "/p"})
        ops = {"save_state": lambda: o.save_state({"a": 1}, "s"), "load_state": lambda: o.load_state("s"), "save_vectors": lambda: o.save_vectors(V, ["a", "b", "c"], "v"),
               "load_vectors": lambda: o.load_vectors("v"), "save_index": lambda: o.save_index({"a": 1}, "i"), "load_index": lambda: o.load_index("i")}
        return o, o.initialize, ops, list(ops.values())
    if name in ("chunking", "cleaning", "embedding"):
        cls = {"chunking": "ChunkingProcessor", "cleaning": "CleaningProcessor", "embedding": "EmbeddingProcessor"}[name]
        o = getattr(ctx.mod("valori.processors." + name), cls)({})
        ops = {"process": lambda: o.process(dict(doc))}
        if name == "embedding":
            ops["batch"] = lambda: o.batch_process(["a"])
        return o, o.initialize, ops, list(ops.values())
    if name == "pipeline":
        o = ctx.mod("valori.processors.pipeline").ProcessingPipeline({"parsers": {"text": {}}, "processors": {"cleaning": {}}})
        ctx.fs.write_text(root + "/a.txt", "hello world")
        ops = {"document": lambda: o.process_document(root + "/a.txt"), "text": lambda: o.process_text("abc"), "batch": lambda: o.batch_process_documents([root + "/a.txt"])}
        return o, o.initialize, ops, list(ops.values())
    if name == "registry":
        o = ctx.mod("valori.parsers.registry").ParserRegistry({"parsers": {"text": {}}})
        ctx.fs.write_text(root + "/a.txt", "hello world")
        ops = {"get": lambda: o.get_parser(root + "/a.txt"), "parse": lambda: o.parse_document(root + "/a.txt")}
        return o, o.initialize, ops, list(ops.values())
    mod, cls, fn = {"text": ("text_parser", "TextParser", "a.txt"), "pdf": ("pdf_parser", "PDFParser", "a.pdf"), "office": ("office_parser", "OfficeParser", "a.docx"),
                    "docling": ("docling_parser", "DoclingParser", "a.pdf")}[name]
    o = getattr(ctx.mod("valori.parsers." + mod), cls)({})
    ctx.fs.write_text(root + "/" + fn, "hello world")
    ops = {"parse": lambda: o.parse(root + "/" + fn)}
    return o, o.initialize, ops, list(ops.values())


def component(ctx):
    p = ctx.params
    Err = ctx.mod("valori.exceptions").ValoriError
    o, init, ops, good = comp(ctx, ctx.choice("component", p["which"]))
    opened = False
    for j in range(p["ops"]):
        op = ctx.choice("op", ["use", "initialize", "close"])
        if op == "use":
            if opened:
                for g in good:
                    r, e = attempt(g, Err)
                    ctx.check_that(e is None, "an initialised component works", str(e))
                ctx.reach("used")
            else:
                for name, f in ops.items():
                    r, e = attempt(f, Err)
                    ctx.check_that(e is not None, "an uninitialised component refuses " + name, r)
                ctx.reach("refused")
        elif op == "initialize":
            init()
            opened = True
        else:
            o.close()
            opened = False
    ctx.observe("opened", opened)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for kind in MODS:
        for store in ("memory", "disk") if kind in ("flat", "hnsw", "ivf") else ("memory",):
            out.append(dict(name="client-%s-%s" % (kind, store), fn="client", kind=kind, store=store, ops=5 if not T else 6, rnd_small=0, expect=["end", "refused", "used"],
                            bounds="every sequence of initialize, close and use"))
    out.append(dict(name="client-extras", fn="client", kind="flat", store="memory", extras=True, ops=4, expect=["end", "refused", "used"],
                    bounds="every sequence of initialize, close and use, with quantizer and persistence manager"))
    out.append(dict(name="obstacle", fn="obstacle", expect=["end"], bounds="one of 2..4 components cannot be initialised, once or twice"))
    for which in (["flat", "hnsw", "ivf", "lsh", "annoy"], ["memory", "disk", "hybrid"], ["scalar", "product", "saq"], ["tensor", "incremental"],
                  ["chunking", "cleaning", "embedding"], ["pipeline", "registry"], ["text", "pdf", "office", "docling"]):
        out.append(dict(name="component-" + which[0], fn="component", which=which, ops=5 if T else 4, rnd_small=0, expect=["end", "refused", "used"],
                        bounds="every sequence of initialize, close and use for %s" % which))
    return out
