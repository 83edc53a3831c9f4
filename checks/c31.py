"""C31  document parsers split text without loss, overflow or runaway chunks"""
import types

from .common import *  # noqa

PROPERTY = "C31"
ASSUMPTIONS = ["chardet reports utf-8 for generated files (replays use the real one)",
               "PyPDF2, python-docx, openpyxl, python-pptx and docling are stand-ins that hand over the generated pages, paragraphs, cells, shapes and elements"]
WS = " \n\t"


def setup(ctx):
    """document libraries that return what the harness put into DOC"""
    doc = ctx.doc = types.SimpleNamespace(pages=[], paragraphs=[], tables=[], sheets=[], slides=[], elements=[], meta=None, images={}, kinds={})
    NS = types.SimpleNamespace

    def m(name, **kw):
        x = types.ModuleType(name)
        for k, v in kw.items():
            setattr(x, k, v)
        ctx.stub(name, x)
        return x

    class Page:
        def __init__(self, t, images):
            self.t = t
            if images is not None:
                self.get_images = lambda: list(range(images))

        def extract_text(self):
            if self.t is None:
                raise ValueError("broken page")
            return self.t
    m("PyPDF2", PdfReader=lambda f: NS(pages=[Page(t, doc.images.get(i)) for i, t in enumerate(doc.pages)], metadata=doc.meta))
    m("docx", Document=lambda f: NS(paragraphs=[NS(text=t, style=NS(name="Style %d" % i) if i % 2 else None) for i, t in enumerate(doc.paragraphs)],
                                    tables=[NS(rows=[NS(cells=[NS(text=c) for c in r]) for r in t]) for t in doc.tables]))

    class Sheet:
        def __init__(self, rows):
            self.rows = rows
            self.max_row, self.max_column = len(rows), max([len(r) for r in rows] or [0])

        def iter_rows(self, values_only=False): return iter(self.rows)

    class Book:
        def __init__(self, sheets):
            self.d = dict(sheets)
            self.sheetnames = [n for n, _ in sheets]

        def __getitem__(self, n): return self.d[n]
    m("openpyxl", load_workbook=lambda f, data_only=False: Book([(n, Sheet(r)) for n, r in doc.sheets]))
    m("pptx", Presentation=lambda f: NS(slides=[NS(shapes=[NS(text=t) if t is not None else NS() for t in s]) for s in doc.slides]))

    class Converter:
        def convert(self, f):
            return NS(iterate_items=lambda: iter([doc.kinds.get(i) or NS(label="text") if t is None else NS(text=t, **vars(doc.kinds.get(i, NS(label="text")))) for i, t in enumerate(doc.elements)]))
    dl = m("docling")
    dm = m("docling.datamodel")
    dl.datamodel = dm
    dl.document_converter = m("docling.document_converter", DocumentConverter=Converter)
    dm.base_models = m("docling.datamodel.base_models", InputFormat=object)


def setup_sym(ctx, world):
    setup(ctx)


def setup_conc(ctx):
    setup(ctx)


def blank(c):
    return OR([c == w for w in WS])


CLS = {"text": "TextParser", "pdf": "PDFParser", "office": "OfficeParser", "docling": "DoclingParser"}


def parser(ctx, kind, **cfg):
    p = getattr(ctx.mod("valori.parsers.%s_parser" % kind), CLS[kind])(cfg)
    p.initialize()
    return p


def put(ctx, name, text="x"):
    path = ctx.fs.ROOT + "/" + name
    ctx.fs.write_text(path, text)
    return path


def covered(ctx, t, chunks, size, overlap, always, seps):
    """numbering, sizes, positions, covering, progress, breaks"""
    before = None
    n = len(t)
    ctx.check_that([c["id"] for c in chunks] == list(range(len(chunks))), "chunks are numbered from 0", [c["id"] for c in chunks])
    if not always and n <= size:
        ctx.check_that(chunks == [], "a text that fits in one chunk is not split")
        return
    at = 0
    for c in chunks:
        s, e = c["start_pos"], c["end_pos"]
        ctx.check_that(0 <= s < e <= n, "positions lie in the text", (s, e, n))
        ctx.check_that(c["text"] == t[s:e].strip() and len(c["text"]) > 0, "the chunk is the text at its position, not empty", (s, e))
        ctx.check_that(len(c["text"]) <= size, "no longer than the chunk size", len(c["text"]))
        ctx.check_that(e > at, "every chunk reaches further than the one before", (s, e, at))
        ctx.check_that(AND([blank(t[i]) for i in range(at, s)]), "no text between chunks is left out", (at, s))
        if before is not None:
            want = at - min(overlap, at - before - 1)
            ctx.check_that(s >= want and (s == want or AND([blank(t[i]) for i in range(want, s)])), "neighbouring chunks share the overlap", (before, at, s, want))
        if e - s < size and e < n:
            ctx.check_that(OR([t[max(s, e - len(x)):e] == x for x in seps]), "a shorter chunk ends at a break", (s, e))
        before, at = s, e
    ctx.check_that(AND([blank(t[i]) for i in range(at, n)]), "the end of the text is not left out", at)


BREAKS = {"text": [".", "\n"], "pdf": ["\n\n"], "office": ["\n"]}     # where a parser may end a chunk early


def opts(ctx):
    p = ctx.params
    return ctx.choice("size", p["sizes"]), ctx.choice("overlap", p["overlaps"])


def text(ctx):
    p = ctx.params
    size, overlap = opts(ctx)
    t = ctx.str("t", p["len"], p["alphabet"])
    path = put(ctx, p.get("file", "doc.txt"), t)
    r = parser(ctx, "text", chunk_size=size, chunk_overlap=overlap, **p.get("cfg", {})).parse(path)
    ctx.check_that(len(r["text"]) == len(t) and r["text"] == t, "the text is the file's text")
    covered(ctx, t, r["chunks"], size, overlap, False, BREAKS["text"])
    brk = 0
    i = 0
    while i + 1 < len(t):
        if bool(AND(t[i] == "\n", t[i + 1] == "\n")):
            brk, i = brk + 1, i + 2
        else:
            i += 1
    ctx.check_that(r["structure"]["paragraphs"] == brk + 1, "paragraphs counted", r["structure"]["paragraphs"])
    ctx.check_that(r["metadata"]["file_size"] == p["len"] and r["metadata"]["file_name"] == p.get("file", "doc.txt"), "file name and size reported", r["metadata"])
    ctx.reach("end")


def joined(parts, sep):
    out = []
    for i, x in enumerate(parts):
        if i:
            out += list(sep)
        out += [x[j] for j in range(len(x))]
    return out


def equal(ctx, t, chars, label):
    ctx.check_that(len(t) == len(chars) and AND([t[i] == c for i, c in enumerate(chars)]), label, len(t))


def pdf(ctx):
    p = ctx.params
    size, overlap = opts(ctx)
    pages = []
    for n in ctx.choice("layout", p["layouts"]):
        pages.append(n if n is None or isinstance(n, str) else ctx.str("page", n, p["alphabet"]))
    ctx.doc.pages = pages
    ctx.doc.images = {0: 2, 1: 0} if len(pages) > 1 and ctx.flip("images") else {}
    ctx.doc.meta = ctx.choice("meta", p.get("meta", [{"/Title": "T"}]))
    r = parser(ctx, "pdf", chunk_size=size, chunk_overlap=overlap).parse(put(ctx, "doc.pdf"))
    keep = [(i + 1, t) for i, t in enumerate(pages) if t is not None and not bool(AND([blank(t[j]) for j in range(len(t))]))]
    t = r["text"]
    equal(ctx, t, joined([x for _, x in keep], "\n\n"), "the text is the pages' text in order")
    covered(ctx, t, r["chunks"], size, overlap, False, BREAKS["pdf"])
    spans, at = [], 0
    for num, x in keep:
        spans.append((num, at, at + len(x)))
        at += len(x) + 2
    for c in r["chunks"]:
        s = c["start_pos"]
        ok = [num for num, a, b in spans if a - 2 <= s < b + 2]
        ctx.check_that(c["page_number"] in ok and c["metadata"]["source_page"] == c["page_number"], "a chunk names the page it starts on", (s, c["page_number"], spans))
    md = r["metadata"]
    ctx.check_that(md["num_pages"] == len(pages) and md["num_pages_with_text"] == len(keep) and [x["page_number"] for x in md["page_metadata"]] == [n for n, _ in keep], "pages counted", md)
    ctx.check_that([(x["text_length"], x["has_images"]) for x in md["page_metadata"]] == [(len(x), ctx.doc.images.get(n - 1, 0) > 0) for n, x in keep], "every page has its own metadata", md["page_metadata"])
    ctx.check_that(md["title"] == ("T" if ctx.doc.meta else ""), "title reported")
    ctx.reach("end")


def strip(ctx, t):
    return t.strip()


def office(ctx):
    p = ctx.params
    size, overlap = opts(ctx)
    kind = p["kind"]
    lay = ctx.choice("layout", p["layouts"])
    S = lambda n: n if isinstance(n, str) else ctx.str("s", n, p["alphabet"])
    if kind == "docx":
        ps = [S(n) for n in lay]
        ctx.doc.paragraphs = ps
        ctx.doc.tables = [[["c1 ", "c2"], ["", "c4"]]] if ctx.flip("table") else []
        want = joined([x for x in [y.strip() for y in ps] if len(x)], "\n")
    elif kind == "xlsx":
        rows = [[None if n is None else n if not isinstance(n, int) or isinstance(n, bool) else S(n) if n else 7 for n in r] for r in lay]
        ctx.doc.sheets = [("S1", rows), ("empty", []), ("S2", [["z"]])]
        lines = [joined(cs, " | ") for cs in [[c if not isinstance(c, (bool, int, float)) else str(c) for c in r if c is not None] for r in rows] if cs]
        want = []
        if lines:
            want = joined(["Sheet: S1"] + lines, "\n") + list("\n\n")
        want = want + list("Sheet: S2\nz")
    else:
        slides = [[None if n is None else S(n) for n in s] for s in lay]
        ctx.doc.slides = slides
        parts, info = [], []
        for i, s in enumerate(slides):
            tx = [x for x in [y.strip() for y in s if y is not None] if len(x)]
            if tx:
                parts.append(joined(["Slide %d: " % (i + 1)], "") + joined(tx, "\n"))
                info.append((i + 1, sum(len(x) for x in tx) + len(tx) - 1, len(tx)))
        want = joined(parts, "\n\n")
    r = parser(ctx, "office", chunk_size=size, chunk_overlap=overlap).parse(put(ctx, "doc." + kind))
    t = r["text"]
    equal(ctx, t, want, "the text holds every part in order")
    covered(ctx, t, r["chunks"], size, overlap, True, BREAKS["office"])
    md = r["metadata"]
    if kind == "docx":
        info = [(i, x.strip()) for i, x in enumerate(ps)]
        info = [(i + 1, len(x), "Style %d" % i if i % 2 else "Normal") for i, x in info if len(x)]
        n = len(info)
        ctx.check_that([(x["paragraph_number"], x["text_length"], x["style"]) for x in md["paragraphs_info"]] == info, "every paragraph has its own metadata", md["paragraphs_info"])
        ctx.check_that(md["num_paragraphs"] == n and md["num_tables"] == len(ctx.doc.tables), "parts counted", md)
        if ctx.doc.tables:
            ctx.check_that(md["tables_info"][0]["data"] == [["c1", "c2"], ["", "c4"]], "tables reported", md["tables_info"])
    elif kind == "xlsx":
        info = ([("S1", len(rows), max(len(r) for r in rows), sum(len(x) for x in lines) + len(lines) - 1)] if lines else []) + [("S2", 1, 1, 1)]
        ctx.check_that([(x["sheet_name"], x["max_row"], x["max_column"], x["text_length"]) for x in md["sheets_info"]] == info, "every sheet has its own metadata", (md["sheets_info"], info))
        ctx.check_that(md["num_sheets"] == 3 and md["sheet_names"] == ["S1", "empty", "S2"], "parts counted", md)
    else:
        ctx.check_that([(x["slide_number"], x["text_length"], x["shapes_with_text"]) for x in md["slides_info"]] == info, "every slide has its own metadata", md["slides_info"])
        ctx.check_that(md["num_slides"] == len(slides), "parts counted", md)
    ctx.reach("end")


def docling(ctx):
    """elements stay whole and in order; a chunk ends as soon as it reaches the chunk size"""
    p = ctx.params
    size = ctx.choice("size", p["sizes"])
    els = [n if isinstance(n, str) else ctx.str("e", n, p["alphabet"]) for n in ctx.choice("layout", p["layouts"])]
    NS = types.SimpleNamespace
    ctx.doc.elements = list(els)
    kinds = ctx.doc.kinds = {}
    tab, fig = [], []
    want_tab, want_fig = True, True
    if p.get("extras") and len(els) > 1:
        want_tab, want_fig = ctx.flip("extract tables"), ctx.flip("extract figures")
        kinds[0] = NS(label="Table", id="t0", rows=2, columns=1, data=[["a"], ["b"]])
        kinds[1] = NS(label="figure", id="f1", caption="cap", type="chart")
        kinds[len(els)], kinds[len(els) + 1] = NS(label="table_of_contents", id="t9"), NS(label="Sub-Figure")
        ctx.doc.elements += [None, None]
        tab = [{"table_id": "t0", "rows": 2, "columns": 1, "data": [["a"], ["b"]]}, {"table_id": "t9", "rows": 0, "columns": 0, "data": []}]
        fig = [{"figure_id": "f1", "caption": "cap", "type": "chart"}, {"figure_id": "unknown", "caption": "", "type": "unknown"}]
    r = parser(ctx, "docling", chunk_size=size, extract_tables=want_tab, extract_figures=want_fig).parse(put(ctx, "doc.pdf"))
    keep = [x for x in [y.strip() for y in els] if len(x)]
    equal(ctx, r["text"], joined(keep, "\n"), "the text is the elements' text in order")
    md = r["metadata"]
    ctx.check_that(md["tables"] == (tab if want_tab else []) and md["figures"] == (fig if want_fig else []) and (md["num_text_elements"], md["num_tables"], md["num_figures"]) ==
                   (len(keep), len(md["tables"]), len(md["figures"])), "tables and figures keep their order and data", md)
    at = 0
    chunks = r["chunks"]
    ctx.check_that([c["id"] for c in chunks] == list(range(len(chunks))), "chunks are numbered from 0")
    for i, c in enumerate(chunks):
        a, b = c["start_element"], c["end_element"]
        ctx.check_that(a == at and a <= b < len(keep), "a chunk continues where the one before ended", (a, b, at))
        equal(ctx, c["text"], joined(keep[a:b + 1], "\n"), "the chunk is the text of its elements")
        ctx.check_that(b == a or sum(len(x) + 1 for x in keep[a:b]) < size, "a chunk ends when it reaches the chunk size", (a, b))
        at = b + 1
    ctx.check_that(at == len(keep), "the end of the text is not left out", (at, len(keep)))
    ctx.reach("end")


def refused(ctx):
    E = ctx.mod("valori.exceptions").ParsingError
    kind = ctx.choice("kind", sorted(CLS))
    own = {"text": ".md", "pdf": ".pdf", "office": ".docx", "docling": ".html"}[kind]
    q = getattr(ctx.mod("valori.parsers.%s_parser" % kind), CLS[kind])({"max_file_size": 4})
    good = put(ctx, "g" + own, "abcd")
    ctx.check_that(raises(lambda: q.parse(good), E) is not None, "refused before initialisation: " + kind)
    q.initialize()
    what = ctx.choice("what", ["missing", "suffix", "no suffix", "large", "upper", "closed", "path"])
    f = {"missing": lambda: q.parse(ctx.fs.ROOT + "/none" + own), "suffix": lambda: q.parse(put(ctx, "f.xyz", "a")), "no suffix": lambda: q.parse(put(ctx, "f", "a")),
         "large": lambda: q.parse(put(ctx, "l" + own, "abcde")), "upper": lambda: q.parse(put(ctx, "u" + own.upper(), "abcd")), "path": lambda: q.parse(ctx.fs.Path(good)),
         "closed": lambda: (q.close(), q.parse(good))}[what]
    r, e = attempt(f, E)
    ctx.check_that((e is None) == (what in ("upper", "path")), "%s: %s" % (kind, what), e)
    ctx.reach("end")


def filler(n, k):
    """a fixed text: words, sentences, line and paragraph breaks of uneven length"""
    out, i = "", 0
    while len(out) < n:
        i += 1
        out += "w" * (1 + (i * i * k) % 9) + [" ", ". ", " ", "\n", ", ", " ", "\n\n", "! "][(i * k) % 8]
    return out[:n]


def long(ctx):
    """a long document with a few arbitrary characters somewhere"""
    p = ctx.params
    n, kind = p["len"], p["kind"]
    cfg = {}
    size, overlap = ctx.choice("size and overlap", p["sizes"])
    if size is not None:
        cfg = {"chunk_size": size, "chunk_overlap": overlap}
    at = ctx.choice("position", p["at"])
    s = ctx.str("s", p["arb"], p["alphabet"])
    fill = filler(n, ctx.choice("filler", p["fill"]))
    t = fill[:at] + s + fill[at:]
    if kind == "text":
        r = parser(ctx, "text", encoding="utf-8", **cfg).parse(put(ctx, "doc.txt", t))
    elif kind == "pdf":
        cut = [0, n // 3, n // 2, len(t)]
        ctx.doc.pages = ["p" + t[a:b] + "q" for a, b in zip(cut, cut[1:])]
        t = ctx.doc.pages[0] + "\n\n" + ctx.doc.pages[1] + "\n\n" + ctx.doc.pages[2]
        r = parser(ctx, "pdf", **cfg).parse(put(ctx, "doc.pdf"))
    else:
        t = "p" + t + "q"
        ctx.doc.sheets = [("S", [[t]])]
        t = "Sheet: S\n" + t
        r = parser(ctx, "office", **cfg).parse(put(ctx, "doc.xlsx"))
    ctx.check_that(len(r["text"]) == len(t) and r["text"] == t, "the text is the document's text", len(r["text"]))
    covered(ctx, t, r["chunks"], size or 1000, overlap if size else 100, kind == "office", BREAKS[kind])
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    U = {"encoding": "utf-8"}
    for n in (0, 1, 4, 5) + ((6, 7, 8) if T else ()):
        add("text-%d" % n, "text", len=n, alphabet="a.\n", sizes=[1, 2, 3, 4], overlaps=[0, 1, 2, 4], cfg=U)
    add("text-long", "text", len=8 if not T else 11, alphabet="a\n", sizes=[4, 7] if not T else [4, 5, 7], overlaps=[0, 3], cfg=U)
    add("text-blank", "text", len=4, alphabet="a \n", sizes=[2, 3], overlaps=[0, 1, 3], file="r\u00e9sum\u00e9 x.MD")
    L = [[3, 2], [2, None, 3], [1, 1, 2]] + ([[3, 3, 3], [4, 0, 2]] if T else [])
    add("pdf", "pdf", layouts=L, alphabet="a\n", sizes=[2, 3, 4], overlaps=[0, 1, 4])
    add("pdf-pages", "pdf", layouts=[[], [None], [0, 3], [6, 6, 5], [2] * 6], alphabet="ab", sizes=[1, 3, 5], overlaps=[0, 2], meta=[None, {}, {"/Title": "T"}])
    add("docx", "office", kind="docx", layouts=[[3, 2], [1, 0, 2], [], [4]], alphabet="a \n", sizes=[2, 3, 5], overlaps=[0, 1, 5])
    add("xlsx", "office", kind="xlsx", layouts=[[[1, 0], [None, 2]], [], [[None], [0, 1]], [[0.0, False, 1], ["", True]], [[False]]], alphabet="a\n", sizes=[4, 9], overlaps=[0, 3, 9])
    add("pptx", "office", kind="pptx", layouts=[[[2, None], [1]], [[], [1, 1]], [[0]]], alphabet="a ", sizes=[4, 9], overlaps=[0, 3])
    add("docling", "docling", layouts=[[], [2, 1, 3], [1, 1, 1, 1], [0, 2, 4]], alphabet="a ", sizes=[1, 2, 3, 5, 7])
    add("docling-extras", "docling", layouts=[[2, 1, 3], [1, 0]], alphabet="a ", sizes=[2, 5], extras=True)
    many = lambda n, at: [("t%d " % i) * (1 + i % 3) if i != at else 2 for i in range(n)]
    add("many-pages", "pdf", layouts=[many(n, at) for n in (13, 105 if T else 31) for at in (0, 9, 10)], alphabet="a ", sizes=[10, 1000], overlaps=[3])
    add("many-paragraphs", "office", kind="docx", layouts=[many(n, at) for n in (13, 70) for at in (0, 9, 12)], alphabet="a ", sizes=[10, 1000], overlaps=[3])
    add("many-rows", "office", kind="xlsx", layouts=[[[x, i + 0.5] if isinstance(x, str) else [x] for i, x in enumerate(many(n, at))] for n in (13, 120) for at in (0, 9, 12)], alphabet="ab", sizes=[10, 1000], overlaps=[3])
    add("many-slides", "office", kind="pptx", layouts=[[[x, "s"] for x in many(n, at)] for n in (13, 70) for at in (0, 9, 12)], alphabet="a ", sizes=[10, 1000], overlaps=[3])
    add("many-elements", "docling", layouts=[many(n, at) for n in (13, 70) for at in (0, 9, 12)], alphabet="a ", sizes=[10, 1000])
    for kind in ("text", "pdf", "office"):
        add("long-" + kind, "long", kind=kind, len=150, arb=2, alphabet="w\n.", at=[0, 18, 37, 70, 150] if not T else list(range(0, 151, 6)), fill=[1] if not T else [1, 3, 5],
            sizes=[(20, 6), (21, 0), (40, 30), (17, 16)] + ([(16, 20), (64, 1)] if T else []))
        add("default-" + kind, "long", kind=kind, len=2600, arb=1, alphabet="w\n", at=[600, 999], fill=[3], sizes=[(None, None)])
    add("refused", "refused")
    return out
