"""C22  chunking processor covers the text within its size limits"""
from .common import *  # noqa
from .c31 import filler

PROPERTY = "C22"
WS = " \n\t"


def blank(c):
    return OR([c == w for w in WS])


def make(ctx, **cfg):
    p = ctx.mod("valori.processors.chunking").ChunkingProcessor(cfg)
    p.initialize()
    return p


def shared(ctx, t, ps, at, s, overlap):
    """a chunk from ps to at and the next one, from s on, share the overlap; blank stretches may be skipped"""
    want = at - min(overlap, at - ps - 1)
    ctx.check_that(s >= want and (s == want or AND([blank(t[i]) for i in range(want, s)])), "neighbouring chunks share the overlap", (ps, at, s, want))


def broken(ctx, t, s, e, size, seps):
    """a chunk that is not full ends with the text or right after a separator"""
    if e - s < size and e < len(t):
        ctx.check_that(OR([t[max(s, e - len(x)):e] == x for x in seps if x]), "a shorter chunk ends at a separator", (s, e))


def positions(ctx, t, chunks, strategy, size, overlap, seps=("\n\n", "\n", ". ", "! ", "? ", " ")):
    """numbering, positions, covering, progress"""
    before = None
    n = len(t)
    ctx.check_that([c["id"] for c in chunks] == list(range(len(chunks))), "chunks are numbered from 0", [c["id"] for c in chunks])
    at = 0
    for c in chunks:
        s, e = c["start_pos"], c["end_pos"]
        ctx.check_that(0 <= s < e <= n, "positions lie in the text", (s, e, n))
        ctx.check_that(c["text"] == t[s:e].strip(), "the chunk is the text at its position", (s, e))
        ctx.check_that(c["length"] == len(c["text"]) and len(c["text"]) > 0, "not empty, length reported", c["length"])
        ctx.check_that(len(c["text"]) <= size, "no longer than the chunk size", len(c["text"]))
        ctx.check_that(e > at, "every chunk reaches further than the one before", (s, e, at))
        ctx.check_that(AND([blank(t[i]) for i in range(at, s)]), "no text between chunks is left out", (at, s))
        if before is not None:
            shared(ctx, t, before, at, s, overlap)
        broken(ctx, t, s, e, size, () if strategy == "sliding_window" else seps)
        before, at = s, e
    ctx.check_that(AND([blank(t[i]) for i in range(at, n)]), "the end of the text is not left out", at)


def sized(ctx):
    """fixed-size and sliding-window chunking"""
    p = ctx.params
    size = ctx.choice("size", p["sizes"])
    overlap = ctx.choice("overlap", [o for o in p["overlaps"] if o < size])
    cfg = dict(strategy=p["strategy"], chunk_size=size, chunk_overlap=overlap, min_chunk_size=1, max_chunk_size=10 ** 6)
    if p.get("seps") is not None:
        cfg["separators"] = list(ctx.choice("seps", p["seps"]))
    t = ctx.str("t", p["len"], p["alphabet"])
    chunks = make(ctx, **cfg).process({"text": t})["chunks"]
    positions(ctx, t, chunks, p["strategy"], size, overlap, *([cfg["separators"]] if "separators" in cfg else []))
    ctx.reach("end")


def limits(ctx):
    """minimum and maximum size: only fitting chunks are delivered, and all that fit"""
    p = ctx.params
    lo, hi = ctx.choice("min", [1, 2, 4]), ctx.choice("max", [2, 3, 10])
    size = ctx.choice("size", p["sizes"])
    t = ctx.str("t", p["len"], "a \n")
    strategy = p["strategy"]
    base = dict(strategy=strategy, chunk_size=size, chunk_overlap=0)
    got = make(ctx, min_chunk_size=lo, max_chunk_size=hi, **base).process({"text": t})["chunks"]
    ctx.check_that(all(lo <= len(c["text"]) <= hi for c in got), "chunks respect the limits", [len(c["text"]) for c in got])
    if strategy != "fixed_size":
        ref = make(ctx, min_chunk_size=1, max_chunk_size=10 ** 6, **base).process({"text": t})["chunks"]
        want = [c for c in ref if lo <= len(c["text"]) <= hi]
        ctx.check_that([(c["start_pos"], c["end_pos"]) for c in want] == [(c["start_pos"], c["end_pos"]) for c in got], "every chunk within the limits is delivered", (len(want), len(got)))
    ctx.reach("end")


def squeeze(t):
    """non-blank characters"""
    return [c for c in t if not bool(blank(c))]


def semantic(ctx):
    """paragraphs stay whole; chunks in order hold all of them"""
    p = ctx.params
    size = ctx.choice("size", p["sizes"])
    overlap = ctx.choice("overlap", [o for o in p["overlaps"] if o < size])
    t = ctx.str("t", p["len"], p["alphabet"])
    pr = make(ctx, strategy="semantic", chunk_size=size, chunk_overlap=overlap, min_chunk_size=1, max_chunk_size=10 ** 6)
    whole(ctx, t, pr.process({"text": t})["chunks"], size, overlap)
    ctx.reach("end")


def whole(ctx, t, chunks, size, overlap):
    n = len(t)
    ctx.check_that([c["id"] for c in chunks] == list(range(len(chunks))), "chunks are numbered from 0")
    at, before = 0, None
    for c in chunks:
        s, e = c["start_pos"], c["end_pos"]
        ctx.check_that(0 <= s < e <= n, "positions lie in the text", (s, e, n))
        a, b = squeeze(c["text"]), squeeze(t[s:e])
        ctx.check_that(len(a) == len(b) and AND([x == y for x, y in zip(a, b)]), "the chunk is the text at its position", (s, e))
        ctx.check_that(c["length"] == len(c["text"]) and len(a) > 0, "not empty, length reported")
        ctx.check_that(e > at, "every chunk reaches further than the one before", (e, at))
        ctx.check_that(AND([blank(t[i]) for i in range(at, s)]), "no text between chunks is left out", (at, s))
        if before is not None:
            again = overlap if before < at - overlap else 0
            ctx.check_that(s == at - again if again else s >= at, "neighbouring chunks share the overlap", (before, at, s))
        before = s
        ctx.check_that(e == n or bool(AND(t[e] == "\n", OR(e + 1 >= n, True))) or bool(blank(t[e])), "a chunk ends with a paragraph", e)
        # beyond the size: nothing but (overlap and) one paragraph
        if len(c["text"]) > size:
            own = t[max(s, at):e]
            ctx.check_that(not par_break(own), "only a single long paragraph makes a chunk exceed the size", (s, e))
        at = e
    ctx.check_that(AND([blank(t[i]) for i in range(at, n)]), "the end of the text is not left out", at)


def long(ctx):
    """a long text with a few arbitrary characters somewhere"""
    p = ctx.params
    size, overlap = ctx.choice("size and overlap", p["sizes"])
    at = ctx.choice("position", p["at"])
    fill = filler(p["len"], ctx.choice("filler", p["fill"]))
    t = fill[:at] + ctx.str("s", p["arb"], p["alphabet"]) + fill[at:]
    cfg = dict(strategy=p["strategy"], min_chunk_size=1, max_chunk_size=10 ** 6)
    if size is not None:
        cfg.update(chunk_size=size, chunk_overlap=overlap)
    chunks = make(ctx, **cfg).process({"text": t})["chunks"]
    if p["strategy"] == "semantic":
        whole(ctx, t, chunks, size or 1000, overlap if size else 100)
    else:
        positions(ctx, t, chunks, p["strategy"], size or 1000, overlap if size else 100)
    ctx.reach("end")


def par_break(t):
    """is there a paragraph break between two non-blank characters of t?"""
    nb = [i for i in range(len(t)) if not bool(blank(t[i]))]
    if not nb:
        return False
    return any(bool(AND(t[i] == "\n", t[i + 1] == "\n")) for i in range(nb[0], nb[-1]))


def keeps(ctx):
    """chunking replaces the chunks and leaves everything else alone; statistics count"""
    p = ctx.params
    t = ctx.str("t", 3, "a \n")
    strategy = ctx.choice("strategy", ["fixed_size", "sliding_window", "semantic"])
    pr = make(ctx, strategy=strategy, chunk_size=2, chunk_overlap=ctx.choice("overlap", [0, 1]), min_chunk_size=1)
    data = {"text": t, "metadata": {"k": [1]}, "chunks": [{"text": "old"}], "other": 5}
    r = pr.process(data)
    ctx.check_that(data["chunks"] == [{"text": "old"}] and data["metadata"] == {"k": [1]} and data["other"] == 5 and len(data) == 4, "the document passed in is unchanged")
    ctx.check_that(r["metadata"] == {"k": [1]} and r["other"] == 5 and r["text"] == t, "other fields are passed on")
    n = len(r["chunks"])
    again = pr.process({"text": t})["chunks"]
    ctx.check_that(len(again) == n and AND([AND(x["text"] == y["text"], x["start_pos"] == y["start_pos"]) for x, y in zip(again, r["chunks"])]), "the same text gives the same chunks")
    st = pr.get_stats()
    ctx.check_that(st["chunks_created"] == 2 * n and st["total_characters_processed"] == 6, "statistics count chunks and characters", st)
    ctx.reach("end")


def refused(ctx):
    E = ctx.mod("valori.exceptions").ProcessingError
    size, ov = ctx.int("size", -2, 3), ctx.int("overlap", -2, 4)
    C = ctx.mod("valori.processors.chunking").ChunkingProcessor
    pr = C({"chunk_size": size, "chunk_overlap": ov})
    ctx.check_that(raises(lambda: pr.process({"text": "a"}), E) is not None, "refused before initialisation")
    e = raises(pr.initialize, E)
    ctx.check_that(IFF(e is None, AND(size > 0, ov >= 0, ov < size)), "exactly sensible sizes are accepted")
    if e is not None:
        ctx.check_that(raises(lambda: pr.process({"text": "a"}), E) is not None, "refused after a failed initialisation")
    q = C({"strategy": "magic"})
    q.initialize()
    ctx.check_that(raises(lambda: q.process({"text": "a"}), E) is not None, "an unknown strategy is refused")
    ctx.check_that(raises(lambda: q.process({"txt": "a"}), E) is not None, "a document without text is refused")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    A = "a. \n"
    for n in (0, 1, 3, 5) + ((6, 7) if T else ()):
        add("fixed-%d" % n, "sized", strategy="fixed_size", len=n, alphabet=A, sizes=[1, 2, 3, 4], overlaps=[0, 1, 3])
        add("sliding-%d" % n, "sized", strategy="sliding_window", len=n, alphabet="a \n", sizes=[1, 2, 3, 4], overlaps=[0, 1, 2, 3])
        add("semantic-%d" % n, "semantic", len=n, alphabet="a\n" if n > 3 and not T else "a \n", sizes=[1, 2, 3, 5], overlaps=[0, 1, 2])
    add("fixed-long", "sized", strategy="fixed_size", len=9 if not T else 12, alphabet="a ", sizes=[3, 5, 6], overlaps=[0, 2, 4], seps=[[" "]])
    add("fixed-seps", "sized", strategy="fixed_size", len=5, alphabet="ab", sizes=[2, 4], overlaps=[0, 1, 2], seps=[["a"], ["ab", "b"], []])
    add("semantic-long", "semantic", len=8 if not T else 10, alphabet="a\n", sizes=[4, 6], overlaps=[0, 2])
    for s in ("fixed_size", "sliding_window", "semantic"):
        add("limits-" + s, "limits", strategy=s, len=4 if not T else 6, sizes=[2, 3])
    for s in ("fixed_size", "sliding_window", "semantic"):
        add("text-" + s, "long", strategy=s, len=150, arb=2, alphabet="w\n.", at=[0, 18, 37, 70, 150] if not T else list(range(0, 151, 6)), fill=[1] if not T else [1, 3, 5],
            sizes=[(20, 6), (21, 0), (40, 30), (17, 16)])
        add("default-" + s, "long", strategy=s, len=2600, arb=1, alphabet="w\n", at=[600, 999], fill=[3], sizes=[(None, None)])
    add("keeps", "keeps")
    add("refused", "refused")
    return out
