"""C24  the embedding cache never changes results"""
import types

from .common import *  # noqa

PROPERTY = "C24"
ASSUMPTIONS = ["the embedding model is any function of the text (stand-ins for sentence_transformers, openai, torch and transformers); md5 has no collisions"]
D = 2
LONG = "x" * 700
POOL = ["a", "a ", "A", LONG + "a", LONG + "b", "b_m_openai", "a\u0301", "test"]
EMPTY = ["", " \n"]


def setup(ctx):
    NS = types.SimpleNamespace

    def m(name, **kw):
        x = types.ModuleType(name)
        for k, v in kw.items():
            setattr(x, k, v)
        ctx.stub(name, x)
        return x

    class Model:
        """sentence_transformers"""
        def __init__(self, name): ctx.models.append(name)
        def to(self, device): return self

        def encode(self, t, **kw):
            if isinstance(t, str):
                return ctx.emb(t)
            return ctx.np.array([[x for x in ctx.emb(u)] for u in t])
    m("sentence_transformers", SentenceTransformer=Model)

    class Embedding:
        @staticmethod
        def create(input, model):
            return {"data": [{"embedding": [x for x in ctx.emb(input)]}]}
    m("openai", Embedding=Embedding)

    class NoGrad:
        def __enter__(self): return self
        def __exit__(self, *a): return False

    class Tok:
        def __init__(self, t): self.t = t
        def to(self, device): return self

    class Hidden:
        def __init__(self, v): self.v = v
        def mean(self, dim=None): return self
        def squeeze(self): return self
        def cpu(self): return self
        def numpy(self): return self.v

    class HF:
        def to(self, device): return self
        def __call__(self, **inputs): return NS(last_hidden_state=Hidden(ctx.emb(inputs["input_ids"].t)))
    m("torch", no_grad=NoGrad, cuda=NS(is_available=lambda: False))
    m("transformers", AutoModel=NS(from_pretrained=lambda n: HF()), AutoTokenizer=NS(from_pretrained=lambda n: lambda t, **kw: {"input_ids": Tok(t)}))


def setup_sym(ctx, world):
    setup(ctx)


def setup_conc(ctx):
    setup(ctx)


def model(ctx):
    """a model: text -> vector, made up as texts are asked for"""
    ctx.models, tab = [], {}

    def emb(t):
        assert isinstance(t, str), t
        if t not in tab:
            tab[t] = ctx.vec("e%d" % (POOL.index(t) if t in POOL else 90 + len(tab)), D, lo=-4, hi=4)
        return tab[t].copy()
    ctx.emb = emb


def make(ctx, **kw):
    model(ctx)
    p = ctx.mod("valori.processors.embedding").EmbeddingProcessor({"model_name": "m", **kw})
    p.initialize()
    return p


def verify(ctx, p, t, v, normalize):
    ctx.check_that(v.shape == (D,), "one vector of the model's dimension", v.shape)
    if not t.strip():
        ctx.check_that(AND([v[i] == 0 for i in range(D)]), "an empty text has the zero vector", v)
        return
    e = ctx.emb(t)
    if not normalize:
        ctx.check_that(veq(v, e), "the vector is the model's vector for this text", (t[:9], v, e))
        return
    n2 = sum(x * x for x in e)
    zero = AND([e[i] == 0 for i in range(D)])
    ctx.check_that(IMP(zero, AND([v[i] == 0 for i in range(D)])), "a zero vector stays zero", (v, e))
    # same direction and unit length:  v parallel to e, v.e >= 0, |v| = 1
    ctx.check_that(IMP(n2 > 0.01, AND(eq(v[0] * v[0] + v[1] * v[1], 1), eq(v[0] * e[1], v[1] * e[0]), v[0] * e[0] + v[1] * e[1] >= 0)),
                   "the vector is the model's vector for this text, at unit length", (t[:9], v, e))


def ask(ctx, p, t, op):
    """one request for t, by any of the ways to ask"""
    if op == "text":
        return [(t, p.process({"text": t})["embedding"])]
    if op == "chunks":
        r = p.process({"text": "b", "chunks": [{"text": t}, {"id": 1}, {"text": "a"}]})
        ctx.check_that(len(r["chunk_embeddings"]) == 2, "one embedding per chunk with text")
        return [("b", r["embedding"]), (t, r["chunk_embeddings"][0]), ("a", r["chunk_embeddings"][1])]
    out = p.batch_process([t, "a", t])
    ctx.check_that(len(out) == 3, "one result per text", len(out))
    return list(zip([t, "a", t], out))


def history(ctx):
    """requests, caller mutations, statistics and cache clearing in any order: every answer is the model's"""
    p = ctx.params
    norm, cache = p["normalize"], ctx.flip("cache")
    pr = make(ctx, model_type=p["type"], normalize_embeddings=norm, cache_embeddings=cache, batch_size=ctx.choice("batch size", p["bs"]))
    for i in range(p["steps"]):
        t = ctx.choice("text%d" % i, p["texts"])
        for u, v in ask(ctx, pr, t, ctx.choice("op%d" % i, p["ops"])):
            verify(ctx, pr, u, v, norm)
            v[0] = 9                                     # the caller may do what it likes with the result
        if i + 1 < p["steps"]:
            x = ctx.choice("between%d" % i, p["between"])
            if x == "clear":
                pr.clear_cache()
            elif x == "stats":
                pr.get_stats()
    ctx.reach("end")


def pairs(ctx):
    """no two different texts share a cache entry"""
    p = ctx.params
    pr = make(ctx, model_type=ctx.choice("type", ["sentence_transformers", "openai", "huggingface"]), normalize_embeddings=False)
    for i in (0, 1):
        t = ctx.choice("text%d" % i, POOL)
        verify(ctx, pr, t, pr.process({"text": t})["embedding"], False)
    ctx.reach("end")


def batch(ctx):
    """batches of any size give the same vectors as single requests, in order"""
    p = ctx.params
    norm = p["normalize"]
    pr = make(ctx, model_type=p["type"], normalize_embeddings=norm, batch_size=ctx.int("batch size", 1, 4))
    ts = [ctx.choice("t%d" % i, p["texts"]) for i in range(p["n"])]
    out = pr.batch_process(list(ts))
    ctx.check_that(len(out) == len(ts), "one result per text", len(out))
    for t, v in zip(ts, out):
        verify(ctx, pr, t, v, norm)
    ctx.check_that(pr.get_embedding_dimension() == D, "the dimension is the model's")
    ctx.reach("end")


def many(ctx):
    """far more texts than one batch holds, of all lengths: same vectors, same order, whatever the cache holds"""
    p = ctx.params
    n, norm, ty = p["n"], p["normalize"], p["type"]
    pr = make(ctx, model_type=ty, normalize_embeddings=norm, cache_embeddings=ctx.flip("cache"), **({} if p["bs"] is None else {"batch_size": p["bs"]}))
    texts = ["%d %s" % (i, "w" * ((i * 7) % 11)) for i in range(n)]
    odd = int(ctx.choice("odd", p["odd"]))
    texts[odd] = ctx.choice("text", ["", "a", texts[1]])
    one = ctx.vec("one", D, -4, 4)
    num = {t: j for j, t in enumerate(texts)}
    ctx.emb = lambda t: (one if t == "a" else ctx.np.array([1.0 + num.get(t, -9), 2.0])).copy()
    if ctx.flip("first alone"):
        verify(ctx, pr, texts[3], pr.process({"text": texts[3]})["embedding"], norm)
    for _ in range(2):
        if p["how"] == "batch":
            got = pr.batch_process(list(texts))
            want = texts
        else:
            r = pr.process({"text": texts[2], "chunks": [{"text": t} for t in texts]})
            got, want = [r["embedding"]] + list(r["chunk_embeddings"]), [texts[2]] + texts
        ctx.check_that(len(got) == len(want), "one result per text", (len(got), len(want)))
        for t, v in zip(want, got):
            verify(ctx, pr, t, v, norm)
        for v in got:
            v[1] = 77.0
    ctx.reach("end")


def document(ctx):
    pr = make(ctx, model_type="sentence_transformers", normalize_embeddings=False)
    E = ctx.mod("valori.exceptions").ProcessingError
    C = ctx.mod("valori.processors.embedding").EmbeddingProcessor
    raw = C({"model_name": "m"})
    ctx.check_that(raises(lambda: raw.process({"text": "a"}), E) is not None and raises(lambda: raw.batch_process(["a"]), E) is not None, "refused before initialisation")
    ctx.check_that(raises(lambda: C({"model_type": "magic"}).initialize(), E) is not None, "unknown model types are refused")
    chunk = {"text": "A", "id": 3}
    data = {"text": "a", "metadata": {"m": [1]}, "chunks": [chunk], "other": 7}
    if ctx.flip("no chunks"):
        del data["chunks"]
    if ctx.flip("no text"):
        del data["text"]
    keys = list(data)
    r = pr.process(data)
    ctx.check_that(list(data) == keys and len(chunk) == 2 and data["metadata"] == {"m": [1]}, "the document passed in is unchanged")
    ctx.check_that(r["metadata"] == {"m": [1]} and r["other"] == 7 and ("chunks" not in data or r["chunks"] == [{"text": "A", "id": 3}]), "other fields are passed on")
    ctx.check_that(("embedding" in r) == ("text" in data) and ("chunk_embeddings" in r) == ("chunks" in data), "exactly the texts there are get embeddings")
    s1 = pr.get_stats()
    s2 = pr.get_stats()
    ctx.check_that(s1 == s2, "looking at the statistics changes nothing", (s1, s2))
    n = ("text" in data) + ("chunks" in data)
    ctx.check_that(s1["texts_processed"] == n and s1["embeddings_generated"] == n and s1["cache_size"] == n and s1["embedding_dimension"] == D, "statistics count the texts", s1)
    pr.batch_process(["a", "b", "A"])
    ctx.check_that(pr.get_stats()["texts_processed"] == n + 3, "a batch counts every text once")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    OPS, BT = ["text", "chunks", "batch"], ["nothing", "clear", "stats"]
    for ty in ("sentence_transformers", "openai", "huggingface"):
        S = ty == "sentence_transformers"
        add("history-" + ty, "history", type=ty, normalize=False, steps=2 if not T else 3, texts=["a", "A", ""] if S else ["a", "A"], ops=OPS, between=BT, bs=[1, 2])
        add("unit-" + ty, "history", type=ty, normalize=True, steps=2, texts=["a", "A"] if T else ["a"], ops=OPS if T or S else OPS[::2], between=BT[:2] if not T else BT, bs=[2])
        add("batch-" + ty, "batch", type=ty, normalize=False, n=3 if not T else 4, texts=["a", "A", " \n"])
    add("batch-unit", "batch", type="sentence_transformers", normalize=True, n=2, texts=["a", "A", ""])
    add("batch-empty", "batch", type="sentence_transformers", normalize=True, n=0, texts=[])
    for ty, how, n, bs in [("sentence_transformers", "batch", 70, None), ("sentence_transformers", "chunks", 40, 16), ("huggingface", "batch", 35, 33), ("openai", "chunks", 35, None),
                           ("sentence_transformers", "batch", 1050, 1000)][:5 if T else 4]:
        add("many-%s-%s-%d" % (ty, how, n), "many", type=ty, how=how, n=n, bs=bs, normalize=False, odd=[0, 31, 32, n - 1])
    add("many-unit", "many", type="sentence_transformers", how="batch", n=34, bs=None, normalize=True, odd=[33])
    add("pairs", "pairs")
    add("document", "document")
    return out
