"""C25  pipelines run every configured stage on every document"""
from .common import *  # noqa
from . import c24, c31

PROPERTY = "C25"
ASSUMPTIONS = c31.ASSUMPTIONS + c24.ASSUMPTIONS
FORMATS = {"text": [".txt", ".md", ".rst", ".log", ".csv"], "pdf": [".pdf"], "office": [".docx", ".xlsx", ".xls", ".pptx"],
           "docling": [".pdf", ".docx", ".pptx", ".html", ".xml", ".txt"]}
PRIORITY = ["docling", "office", "pdf", "text"]


def setup_sym(ctx, world):
    c31.setup(ctx)
    c24.setup(ctx)


setup_conc = lambda ctx: setup_sym(ctx, None)


def err(ctx, name="ProcessingError"):
    return getattr(ctx.mod("valori.exceptions"), name)


LIBS = {"docling": "docling.document_converter", "office": "pptx", "pdf": "PyPDF2"}


def pick(parsers, suffix):
    fit = [p for p in PRIORITY if p in parsers and suffix.lower() in FORMATS[p]]
    return fit[0] if fit else None


def deq(a, b):
    """equality of documents (arrays, nested)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and AND([deq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and AND([deq(x, y) for x, y in zip(a, b)])
    if hasattr(a, "shape") or hasattr(b, "shape"):
        return hasattr(a, "shape") and hasattr(b, "shape") and veq(a, b)
    return a == b


def text_of(d):
    return {k: v for k, v in d.items() if k != "pipeline_metadata"}


def selection(ctx):
    """the parser with the highest priority among the enabled ones that support the extension"""
    parsers = [p for p in PRIORITY if ctx.flip(p)]
    if ctx.flip("reverse"):
        parsers.reverse()
    config = {"parsers": {p: {} for p in parsers}}
    lib = ctx.choice("missing library", [None] + sorted(LIBS)) if ctx.params["missing"] else None
    if lib:
        ctx.absent(LIBS[lib])
        parsers = [p for p in parsers if p != lib]
    ctx.doc.pages, ctx.doc.paragraphs, ctx.doc.elements = ["p"], ["p"], ["p"]
    reg = ctx.mod("valori.parsers.registry").ParserRegistry(config)
    PE = err(ctx, "ParsingError")
    ctx.check_that(raises(lambda: reg.get_parser("x.txt"), PE) is not None and reg.get_supported_formats() == [], "refused before initialisation")
    reg.initialize()
    s = ctx.choice("suffix", ctx.params["suffixes"])
    path = c31.put(ctx, "d.v2" + s)
    want = pick(parsers, s)
    got, e = attempt(lambda: reg.get_parser(path if ctx.flip("str") else ctx.fs.Path(path)), PE)
    if want is None:
        ctx.check_that(e is not None, "an unsupported file is refused")
        ctx.check_that(raises(lambda: reg.parse_document(path), PE) is not None, "an unsupported file is refused")
    else:
        ctx.check_that(e is None and type(got).__name__ == c31.CLS[want], "the best parser that supports the file", (parsers, s, type(got).__name__))
    named = ctx.choice("named", PRIORITY)
    got, e = attempt(lambda: reg.get_parser(path, named), PE)
    ctx.check_that((e is None) == (named in parsers) and (e is not None or type(got).__name__ == c31.CLS[named]), "a parser asked for by name", (named, parsers))
    ctx.check_that(set(reg.get_supported_formats()) == {f for p in parsers for f in FORMATS[p]}, "supported formats are those of the enabled parsers", reg.get_supported_formats())
    info = reg.get_parser_info()["parsers"]
    ctx.check_that({n for n in info if info[n]["available"]} == set(parsers) and set(info) == set(PRIORITY), "information lists the enabled parsers", info)
    ctx.reach("end")


STAGES = ["cleaning", "chunking", "embedding"]
CFG = {"cleaning": {"lowercase": True}, "chunking": {"strategy": "fixed_size", "chunk_size": 3, "chunk_overlap": 1, "min_chunk_size": 1},
       "embedding": {"model_name": "m", "normalize_embeddings": False}}
CLASSES = {"cleaning": "CleaningProcessor", "chunking": "ChunkingProcessor", "embedding": "EmbeddingProcessor"}


def pipe(ctx, stages, parsers={"text": {}}):
    p = ctx.mod("valori.processors.pipeline").ProcessingPipeline({"parsers": dict(parsers), "processors": {s: dict(CFG[s]) for s in stages}})
    p.initialize()
    return p


def by_hand(ctx, stages, doc):
    for s in STAGES:
        if s in stages:
            q = getattr(ctx.mod("valori.processors." + s), CLASSES[s])(dict(CFG[s]))
            q.initialize()
            doc = q.process(doc)
    return doc


def some(ctx):
    st = [s for s in STAGES if ctx.flip(s)]
    return st[::-1] if len(st) > 1 and ctx.flip("reversed") else st


def chain(ctx):
    """parse, clean, chunk, embed: the outcome is that of the enabled stages one after the other"""
    p = ctx.params
    c24.model(ctx)
    stages = some(ctx)
    t = ctx.str("t", p["len"], p["alphabet"])
    if "embedding" in stages:
        t = ctx.choice("text", p["texts"])
    raw = ctx.flip("raw")
    pl = pipe(ctx, stages)
    if raw:
        md = {"k": [1]}
        md2 = md if ctx.flip("metadata") else None
        r = pl.process_text(t, md2)
        want = by_hand(ctx, stages, {"text": t, "metadata": {"k": [1]} if md2 else {}, "structure": {"type": "raw_text"}})
        ctx.check_that(md == {"k": [1]}, "the metadata passed in is unchanged")
    else:
        path = c31.put(ctx, "f.txt", t)
        tp = ctx.mod("valori.parsers.text_parser").TextParser({})
        tp.initialize()
        want = by_hand(ctx, stages, tp.parse(path))
        r = pl.process_document(path)
    ctx.check_that(deq(text_of(r), want), "the outcome is that of the stages in order", (text_of(r), want))
    pm = r["pipeline_metadata"]
    ctx.check_that(pm["processors_used"] == [CLASSES[s] for s in STAGES if s in stages] and pm["processing_complete"] is True, "the stages run are reported", pm)
    if not raw:
        ctx.check_that(pm["file_path"] == path and pm["parser_used"] == "TextParser", "file and parser are reported", pm)
    info = pl.get_pipeline_info()
    ctx.check_that([i["name"] for i in info["processors"]] == [CLASSES[s] for s in STAGES if s in stages], "the stages are listed")
    ctx.reach("end")


KINDS = ["good", "good2", "good3", "missing", "unsupported", "broken"]


def batch(ctx):
    """one outcome per document in order; failures stay with their document"""
    p = ctx.params
    c24.model(ctx)
    stages = ["cleaning", "chunking"]
    PARS = {"text": {}, "pdf": {"max_file_size": 5}}
    pl = pipe(ctx, stages, PARS)
    root = ctx.fs.ROOT
    t = ctx.str("t", 2, "aB ")
    c31.put(ctx, "a.txt", t)
    c31.put(ctx, "b.md", "xY z")
    c31.put(ctx, "c.bin", "q")
    c31.put(ctx, "d.pdf", "more than five bytes")
    ctx.fs.Path(root + "/sub").mkdir()
    c31.put(ctx, "sub/a.txt", "same name, other text")
    path = {"good": root + "/a.txt", "good3": root + "/sub/a.txt", "good2": root + "/b.md", "missing": root + "/no.txt", "unsupported": root + "/c.bin", "broken": root + "/d.pdf"}
    kinds = [ctx.choice("doc%d" % i, KINDS) for i in range(p["n"])]
    out = pl.batch_process_documents([path[k] if ctx.flip("str%d" % i) else ctx.fs.Path(path[k]) for i, k in enumerate(kinds)])
    ctx.check_that(len(out) == len(kinds), "one outcome per document", len(out))
    PE = err(ctx)
    for k, o in zip(kinds, out):
        one, e = attempt(lambda: pipe(ctx, stages, PARS).process_document(path[k]), PE)
        ctx.check_that((e is None) == k.startswith("good"), "single documents fail with a library error", (k, e))
        if e is None:
            ctx.check_that("error" not in o and deq(o, one), "the outcome of a good document is its own", (k, o, one))
        else:
            ctx.check_that("error" in o and o["file_path"] == path[k] and o["pipeline_metadata"]["processing_failed"] is True, "the outcome of a bad document says so", (k, o))
    ctx.reach("end")


def rewritten(ctx):
    """a document that changes between two calls: each call reads what is there"""
    p = ctx.params
    c24.model(ctx)
    pl = pipe(ctx, p["stages"])
    path = c31.put(ctx, "a.txt", "Fi rst")
    c31.put(ctx, "b.txt", "oth er")
    calls = {"one": lambda: pl.process_document(path), "batch": lambda: pl.batch_process_documents([ctx.fs.ROOT + "/b.txt", path])[1]}
    calls[ctx.choice("first", list(calls))]()
    t = ctx.choice("text", ["Se cond", "se cnd", ""]) if ctx.flip("fixed") else ctx.str("t", 2, "aB ")
    c31.put(ctx, "a.txt", t)
    out = calls[ctx.choice("second", list(calls))]()
    want = pipe(ctx, p["stages"]).process_document(path)
    ctx.check_that(deq(out, want) and "error" not in out, "a document that was changed is read again", out)
    ctx.check_that(out["metadata"]["file_path"] == path if "file_path" in out.get("metadata", {}) else True, "the outcome names its document")
    ctx.reach("end")


def crowd(ctx):
    """many documents, a bad one anywhere: every other outcome is that document's own"""
    p = ctx.params
    c24.model(ctx)
    pl = pipe(ctx, ["cleaning", "chunking"])
    n = p["n"]
    t = ctx.str("t", 2, "aB ")
    texts = ["T%d wX" % i for i in range(n)]
    at = ctx.choice("at", p["at"])
    texts[at] = t
    paths = [c31.put(ctx, "F%d x.Txt" % i, x) for i, x in enumerate(texts)]
    bad = {ctx.choice("bad", p["at"]): ctx.choice("how", ["missing", "unsupported"])}
    bad[n - 2] = "missing"
    for i, how in bad.items():
        paths[i] = ctx.fs.ROOT + "/no%d.txt" % i if how == "missing" else c31.put(ctx, "g%d.bin" % i, "q")
    out = pl.batch_process_documents(list(paths))
    ctx.check_that(len(out) == n, "one outcome per document", len(out))
    for i, o in enumerate(out):
        if i in bad:
            ctx.check_that("error" in o and o["file_path"] == paths[i] and o["pipeline_metadata"]["processing_failed"] is True, "the outcome of a bad document says so", (i, o))
        else:
            ctx.check_that("error" not in o and o["pipeline_metadata"]["file_path"] == paths[i], "the outcome of a good document names it", (i, o))
            if i == at or i % 10 == 3:
                one = pipe(ctx, ["cleaning", "chunking"]).process_document(paths[i])
                ctx.check_that(deq(o, one), "the outcome of a good document is its own", (i, o, one))
            else:
                ctx.check_that(o["text"] == texts[i].lower(), "the outcome of a good document is its own", (i, o))
    ctx.reach("end")


def stage_fails(ctx):
    """a failing stage makes that document's outcome an error and nothing else"""
    c24.model(ctx)
    good = ctx.emb
    ctx.calls = 0
    bad = [ctx.flip("call%d fails" % i) for i in range(3)]

    def emb(t):
        i, ctx.calls = ctx.calls, ctx.calls + 1
        if i < 3 and bad[i]:
            raise RuntimeError("model failed")
        return good(t)
    ctx.emb = emb
    pl = pipe(ctx, ["embedding"])
    ps = [c31.put(ctx, "f%d.txt" % i, "abc"[i]) for i in range(3)]
    out = pl.batch_process_documents(ps)
    ctx.check_that(len(out) == 3, "one outcome per document")
    for i, o in enumerate(out):
        if bad[i]:
            ctx.check_that("error" in o and o["file_path"] == ps[i] and "embedding" not in o, "the failing document is reported", (i, o))
        else:
            ctx.check_that("error" not in o and o["text"] == "abc"[i] and veq(o["embedding"], good("abc"[i])), "other documents are not affected", (i, o))
    ctx.reach("end")


def life(ctx):
    """refused before initialisation and after closing; works again after initialising again; custom parsers"""
    c24.model(ctx)
    P = ctx.mod("valori.processors.pipeline").ProcessingPipeline
    pl = P({"parsers": {"text": {}}, "processors": {"cleaning": {"lowercase": True}}})
    path = c31.put(ctx, "f.txt", "A")
    E, PE = err(ctx), err(ctx, "ParsingError")

    def refused():
        return all(raises(f, E) is not None for f in (lambda: pl.process_document(path), lambda: pl.process_text("A"), lambda: pl.batch_process_documents([path])))
    ctx.check_that(refused() and pl.get_supported_formats() == [], "refused before initialisation")
    for i in range(ctx.choice("inits", [1, 2])):
        pl.initialize()
    ctx.check_that(pl.process_text("A")["text"] == "a" and len(pl.get_pipeline_info()["processors"]) == 1, "each stage runs once")
    pl.close()
    ctx.check_that(refused(), "refused after closing")
    pl.initialize()
    ctx.check_that(pl.process_document(path)["text"] == "a", "works again")
    ctx.check_that(raises(lambda: P({"processors": {"chunking": {"chunk_size": 0}}}).initialize(), E) is not None, "a stage that cannot be built is refused")
    B = ctx.mod("valori.parsers.text_parser").TextParser

    class Mine(B):
        def parse(self, f): return {"text": "MINE", "metadata": {}, "chunks": []}
        def get_supported_formats(self): return [".foo", ".txt"]
    reg = pl.parser_registry
    reg.add_parser("mine", Mine, {})
    foo = c31.put(ctx, "f.foo", "B")
    ctx.check_that(pl.process_document(foo)["text"] == "mine" and pl.process_document(path)["text"] == "a" and pl.process_document(path, "mine")["text"] == "mine",
                   "an added parser is used for what no other parser supports or when asked for")
    reg.remove_parser("mine")
    ctx.check_that(raises(lambda: pl.process_document(foo), E) is not None and raises(lambda: pl.process_document(path, "mine"), E) is not None, "a removed parser is gone")
    ctx.check_that(pl.process_document(path)["text"] == "a", "the others are still there")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    add("selection", "selection", missing=False, suffixes=[".txt", ".md", ".PDF", ".docx", ".Xlsx", ".xls", ".html", ".foo", ""])
    add("selection-missing", "selection", missing=True, suffixes=[".txt", ".pdf", ".docx", ".xml"] + ([".csv", ".PPTX", ""] if T else []))
    add("chain", "chain", len=3 if not T else 5, alphabet="aB ", texts=["a", "aB A", "", " b"])
    add("chain-empty", "chain", len=0, alphabet="a", texts=[""])
    add("batch-1", "batch", n=1)
    add("rewritten", "rewritten", stages=["cleaning", "chunking"])
    add("batch-3", "batch", n=2 if not T else 3)
    add("batch-0", "batch", n=0)
    add("crowd", "crowd", n=110 if T else 70, at=[0, 31, 32, 49, 50, 63, 64, 69] if not T else [0, 9, 10, 31, 32, 49, 50, 63, 64, 99, 100, 109])
    add("stage-fails", "stage_fails")
    add("life", "life")
    return out
