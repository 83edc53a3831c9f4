"""C23  text cleaning delivers what it promises"""
import types

from .common import *  # noqa

PROPERTY = "C23"
ASSUMPTIONS = ["Unicode normalisation and case mapping act character by character on the alphabets used (no sequences that compose or reorder)"]
WS = " \n\t\xa0\u2003"
NFKD = {"\uff1c": "<", "\uff1e": ">", "\xe9": "e\u0301", "\ufb01": "fi", "\xa0": " ", "\u2003": " ", "\uff21": "A"}
OFF = dict(remove_html=False, normalize_whitespace=False, remove_special_chars=False, normalize_unicode=False, remove_extra_spaces=False, lowercase=False,
           remove_stopwords=False)


def make(ctx, **kw):
    p = ctx.mod("valori.processors.cleaning").CleaningProcessor({**OFF, **kw})
    p.initialize()
    return p


def run(p, t):
    return p.process({"text": t})["text"]


def isws(c):
    return OR([c == w for w in WS])


def untag(t):
    """t without tags: from a < that is not directly followed by > up to the next >"""
    out, i, n = "", 0, len(t)
    while i < n:
        if bool(t[i] == "<") and i + 1 < n and not bool(t[i + 1] == ">"):
            j = i + 2
            while j < n and not bool(t[j] == ">"):
                j += 1
            if j < n:
                i = j + 1
                continue
        out = out + t[i]
        i += 1
    return out


def words(t):
    out, cur = [], ""
    for i in range(len(t)):
        if bool(isws(t[i])):
            if len(cur):
                out.append(cur)
            cur = ""
        else:
            cur = cur + t[i]
    return out + ([cur] if len(cur) else [])


def joinwords(ws):
    out = ""
    for w in ws:
        out = out + (" " if len(out) else "") + w
    return out


def no_tag(t):
    """no < that something other than > follows, with a > behind it"""
    n = len(t)
    return AND([NOT(AND(t[i] == "<", t[i + 1] != ">", t[j] == ">")) for i in range(n) for j in range(i + 2, n)])


def tags(ctx):
    p = ctx.params
    t = ctx.str("t", p["len"], p["alphabet"])
    r = run(make(ctx, remove_html=True), t)
    ctx.check_that(r == untag(t), "exactly the tags are removed", (t, r))
    ctx.reach("end")


def entities(ctx):
    """decoded once, and what becomes a tag by decoding or normalising goes, too"""
    p = ctx.params
    toks = [ctx.choice("k%d" % i, p["tokens"]) for i in range(p["n"])]
    tail = ctx.str("t", p["len"], p["alphabet"])
    t = "".join(toks) + tail
    pr = make(ctx, remove_html=True, normalize_unicode=True)
    r = run(pr, t)
    dec = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&#65;": "A", "&nbsp;": "\xa0"}
    full = "".join(dec.get(k, k) for k in toks)
    want = ""
    for c in full:
        want = want + NFKD.get(c, c)
    for i in range(len(tail)):
        c = tail[i]
        hit = [v for k, v in NFKD.items() if k in p["alphabet"] and bool(c == k)]
        want = want + (hit[0] if hit else c)
    ctx.check_that(r == untag(want), "entities are decoded once and the tags removed", (t, r))
    ctx.reach("end")


def white(ctx):
    p = ctx.params
    t = ctx.str("t", p["len"], p["alphabet"])
    pr = make(ctx, normalize_whitespace=True, remove_extra_spaces=ctx.flip("extra"))
    r = run(pr, t)
    ws = words(t)
    want = ""
    for w in ws:
        want = want + (" " if len(want) else "") + w
    ctx.check_that(r == want, "single spaces between the same words", (t, r))
    ctx.reach("end")


def spaces(ctx):
    """only runs of spaces collapse"""
    t = ctx.str("t", ctx.params["len"], "a \n")
    r = run(make(ctx, remove_extra_spaces=True), t)
    want, prev = "", False
    for i in range(len(t)):
        sp = bool(t[i] == " ")
        if not (sp and prev):
            want = want + t[i]
        prev = sp
    ctx.check_that(r == want, "runs of spaces become one space", (t, r))
    ctx.reach("end")


SPECIAL = "#<>\u0301\u20ac&"


def everything(ctx):
    """any set of options: no removed thing is left, nothing is left to do, clean text is left alone"""
    p = ctx.params
    o = {k: ctx.flip(k) for k in ("remove_html", "normalize_whitespace", "remove_special_chars", "normalize_unicode", "lowercase", "remove_extra_spaces")}
    t = ctx.str("t", p["len"], p["alphabet"])
    pr = make(ctx, **o)
    r = run(pr, t)
    n = len(r)
    if o["remove_html"]:
        ctx.check_that(no_tag(r), "no tag is left", (t, r))
    if o["normalize_whitespace"]:
        ctx.check_that(AND([OR(r[i] == " ", NOT(isws(r[i]))) for i in range(n)] + [NOT(AND(r[i] == " ", r[i + 1] == " ")) for i in range(n - 1)] +
                           ([r[0] != " ", r[n - 1] != " "] if n else [])), "no whitespace but single spaces inside", (t, r))
    if o["remove_extra_spaces"]:
        ctx.check_that(AND([NOT(AND(r[i] == " ", r[i + 1] == " ")) for i in range(n - 1)]), "no repeated spaces", (t, r))
    if o["remove_special_chars"]:
        ctx.check_that(AND([r[i] != c for i in range(n) for c in SPECIAL]), "no special characters", (t, r))
    if o["normalize_unicode"]:
        ctx.check_that(AND([r[i] != c for i in range(n) for c in NFKD]), "compatibility characters are normalised", (t, r))
    if o["lowercase"]:
        ctx.check_that(AND([r[i] != c for i in range(n) for c in "ABZ\xc9\uff21"]), "no capital letters", (t, r))
    again = run(make(ctx, **o), r)
    ctx.check_that(again == r, "cleaning again changes nothing", (t, r, again))
    # letters and digits outside tags survive, in order
    src = t
    if o["remove_html"]:
        fw = t
        if o["normalize_unicode"]:
            fw = ""
            for i in range(len(t)):
                fw = fw + ("<" if bool(t[i] == "\uff1c") else ">" if bool(t[i] == "\uff1e") else t[i])
        src = untag(fw)
    low = o["lowercase"]
    keep = lambda s: [s[i] for i in range(len(s)) if bool(OR([s[i] == c for c in "abB"]))]
    a, b = keep(src), keep(r)
    ctx.check_that(len(a) == len(b) and AND([OR(x == y, AND(low, x == "B", y == "b")) for x, y in zip(a, b)]), "other letters are kept in order", (t, r))
    ctx.reach("end")


STOP = ["a", "an", "the", "to", "at"]
BUILTIN = STOP + ["he", "that"]                 # of the built-in list, those over the alphabet used here


def fake_nltk(ctx, mode):
    m, c = types.ModuleType("nltk"), types.ModuleType("nltk.corpus")
    m.corpus = c

    class Corpus:
        def words(self, lang):
            if mode == "no corpus":
                raise LookupError("Resource stopwords not found")
            assert lang == "english"
            return list(STOP)
    if mode != "absent":
        c.stopwords = Corpus()
    ctx.stub("nltk", m)
    ctx.stub("nltk.corpus", c)


def stop(ctx):
    """with stop words off the list and other words kept as they are"""
    p = ctx.params
    fake_nltk(ctx, p["nltk"])
    lo, hi = ctx.choice("limits", [(1, 50), (2, 3)])
    low = ctx.flip("lowercase")
    t = ctx.str("t", p["len"], p["alphabet"])
    pr = make(ctx, remove_stopwords=True, min_word_length=lo, max_word_length=hi, lowercase=low)
    r = run(pr, t)
    want = ""
    for w in words(t):
        v = ""
        for i in range(len(w)):
            v = v + ("a" if bool(w[i] == "A") else "t" if bool(w[i] == "T") else w[i])
        if not bool(OR([v == s for s in (STOP if p["nltk"] == "present" else BUILTIN)])) and lo <= len(w) <= hi:
            want = want + (" " if len(want) else "") + (v if low else w)
    ctx.check_that(r == want, "exactly the stop words and the words outside the length limits are removed", (t, r))
    ctx.check_that(run(pr, r) == r, "cleaning again changes nothing", (t, r))
    ctx.reach("end")


FILL = ["word ", "<b>", "the ", "x\ny ", "<>", "&lt;i", "  ", "to", " <a href='q'>", "At ", "\n\n", "</p>", "12 ", "a ", "> ", "loooooong", ". "]


def page(n):
    """a fixed text of at least n characters with tags, entities, stop words and runs of blanks"""
    out, i = "", 0
    while len(out) < n:
        out, i = out + FILL[(i * 7 + i // 17) % len(FILL)], i + 1
    return out


def long(ctx):
    """a long text with a few arbitrary characters somewhere"""
    p = ctx.params
    fake_nltk(ctx, "present")
    fill = page(p["len"])
    at = ctx.choice("position", p["at"])
    t = fill[:at] + ctx.str("t", p["arb"], p["alphabet"]) + fill[at:]
    what = p["what"]
    if what == "tags":
        r, want = run(make(ctx, remove_html=True), t), untag(t.replace("&lt;", "<"))
    elif what == "white":
        r = run(make(ctx, normalize_whitespace=True, remove_extra_spaces=ctx.flip("extra")), t)
        want = joinwords(words(t))
    elif what == "stop":
        r = run(make(ctx, remove_stopwords=True), t)
        ws = words(t)
        want = joinwords([w for w in ws if len(w) <= 50 and not bool(OR([w == s or w == s.upper() or w == s.capitalize() for s in STOP]))])
    else:
        want = joinwords([w.replace("A", "a") for w in words(untag(t.replace("&lt;", "<")))])
        r = run(make(ctx, remove_html=True, normalize_whitespace=True, normalize_unicode=True, lowercase=True), t)
    ctx.check_that(len(r) == len(want) and r == want, "the whole text is cleaned: " + what, len(r))
    ctx.reach("end")


def document(ctx):
    """process() cleans text and chunks and leaves the document passed in and all other fields alone"""
    p = ctx.params
    t, u, v = ctx.str("t", 2, "a "), ctx.str("u", 2, "a "), "<a>" + ctx.str("v", 1, "a <")
    pr = make(ctx, normalize_whitespace=True, remove_html=True)
    C = ctx.mod("valori.processors.cleaning").CleaningProcessor
    raw = C({})
    E = ctx.mod("valori.exceptions").ProcessingError
    ctx.check_that(raises(lambda: raw.process({"text": "a"}), E) is not None, "refused before initialisation")
    c1, c2, c3 = {"text": u, "id": 0, "metadata": {"p": 1}}, {"id": 1, "k": 2}, {"text": v, "id": 2}
    data = {"text": t, "metadata": {"m": [1]}, "chunks": [c1, c2, c3], "other": 7}
    if ctx.flip("no text"):
        del data["text"]
    want = dict(data)
    r = pr.process(data)
    ctx.check_that(list(data) == list(want) and data["chunks"][0] is c1 and c1["text"] is u and c3["text"] is v and len(c1) == 3 and data["metadata"] == {"m": [1]},
                   "the document passed in is unchanged")
    if "text" in data:
        ctx.check_that(data["text"] is t and r["text"] == run(pr, t), "the text is cleaned")
    else:
        ctx.check_that("text" not in r, "no text is made up")
    ch = r["chunks"]
    ctx.check_that(len(ch) == 3 and [c["id"] for c in ch] == [0, 1, 2] and "text" not in ch[1] and ch[1]["k"] == 2 and ch[0]["metadata"] == {"p": 1},
                   "chunks keep order and fields")
    ctx.check_that(AND(ch[0]["text"] == run(pr, u), ch[2]["text"] == run(pr, v)), "every chunk is cleaned")
    ctx.check_that(r["metadata"] == {"m": [1]} and r["other"] == 7, "other fields are passed on")
    q = make(ctx, normalize_whitespace=True)
    q.process({"text": t})
    q.process({"chunks": []})
    st = q.get_stats()
    ctx.check_that(st["documents_processed"] == 2 and st["total_characters_before"] == 2 and st["total_characters_after"] == len(run(q, t)),
                   "statistics count documents and characters", st)
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for n in (0, 2, 4, 6) + ((7, 8) if T else ()):
        add("tags-%d" % n, "tags", len=n, alphabet="<>a")
    add("tags-newline", "tags", len=5, alphabet="<>\n/")
    TOK = ["&lt;", "&gt;", "&amp;", "<", "a"]
    add("entities", "entities", n=2, tokens=TOK, len=3, alphabet=">a;\uff1e")
    add("fullwidth", "entities", n=1, tokens=["\uff1c", "&#65;", "\ufb01", "&nbsp;"], len=4 if not T else 5, alphabet="<>a\uff1e")
    for n in (0, 3, 4) + ((5, 6, 7) if T else ()):
        add("white-%d" % n, "white", len=n, alphabet="a \n\xa0" if n <= 5 else "a \n")
    add("spaces", "spaces", len=5 if not T else 7)
    add("all-html", "everything", len=3 if not T else 4, alphabet="<>a" if not T else "<>a\uff1c")
    add("all-fullwidth", "everything", len=3, alphabet=">\uff1c")
    add("all-special", "everything", len=3 if not T else 4, alphabet="# B" if not T else "a# \n-B")
    add("all-unicode", "everything", len=3 if not T else 4, alphabet="B\xe9\xa0" if not T else "B\xe9\xa0b\u20ac")
    add("stop", "stop", len=4 if not T else 6, alphabet="atA ", nltk="present")
    add("stop-builtin", "stop", len=4 if not T else 5, alphabet="nthe a", nltk="absent")
    add("stop-nocorpus", "stop", len=3 if not T else 5, alphabet="at \n", nltk="no corpus")
    for what, al in [("tags", "<> "), ("white", "a \n"), ("stop", "a t"), ("all", "<A ")]:
        n = 300 if what != "white" and not T else 1200
        add("long-" + what, "long", what=what, len=n, arb=2, alphabet=al, at=[0, 50, 101, 255, 256] + ([512, 1000, 1023, 1024] if n > 1000 else []))
    add("long-white-4200", "long", what="white", len=4200, arb=1, alphabet="a \n", at=[4095, 4096])
    add("long-tags-2100", "long", what="tags", len=2100, arb=1, alphabet="<> ", at=[2047, 2048])
    add("document", "document")
    return out
