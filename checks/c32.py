"""C32  vector statistics and monitoring report true values"""
from .mon import *  # noqa
from . import ix as IX
from . import ints

PROPERTY = "C32"
ASSUMPTIONS = ["the clock and the process readings are supplied by the harness", "the monitor thread runs to completion when it is started (its samples are taken at the points where it sleeps)"]


def setup(ctx):
    th = types.ModuleType("threading")
    import threading as real
    for n in dir(real):
        if not n.startswith("__"):
            setattr(th, n, getattr(real, n))

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.job = (target, args, kwargs or {})

        def start(self):
            t, a, k = self.job
            t(*a, **k)

        def join(self, timeout=None): pass
        def is_alive(self): return False
    th.Thread = Thread
    from engine import envs
    th.Lock, th.RLock = envs.DummyLock, envs.DummyRLock
    ctx.stub("threading", th)


def setup_sym(ctx, world): setup(ctx)
def setup_conc(ctx): setup(ctx)


def D(ctx): return ctx.mod("valori.utils.debugging")
def B(ctx): return ctx.mod("valori.utils.batch_manager")


def mean(xs):
    xs = list(xs)
    return sum(xs[1:], start=xs[0]) / len(xs)


def std(xs):
    xs = list(xs)
    m = mean(xs)
    return sqrt(mean([(x - m) * (x - m) for x in xs]))


def least(ctx, xs, v, label):
    """v is the smallest of xs"""
    ctx.check_that(AND(AND([le(v, x, 1e-5) for x in xs]), OR([eq(v, x, 1e-5) for x in xs])), label, v)


def most(ctx, xs, v, label):
    ctx.check_that(AND(AND([le(x, v, 1e-5) for x in xs]), OR([eq(v, x, 1e-5) for x in xs])), label, v)


def spread(ctx, xs, s, what, keys=("mean", "std", "min", "max")):
    ctx.check_that(eq(s["mean"], mean(xs)), what + " mean", s)
    ctx.check_that(eq(s["std"], std(xs)), what + " standard deviation", s)
    least(ctx, xs, s["min"], what + " minimum")
    most(ctx, xs, s["max"], what + " maximum")


def matrix(ctx, n, d):
    """any matrix; whole rows may be zero or copies of the first"""
    V = [[ctx.real("v%d%d" % (i, j), -3, 3) for j in range(d)] for i in range(n)]
    how = []
    for i in range(n):
        h = to_int(ctx.int("row%d" % i, 0, (2 if i else 1) if ctx.params.get("special") else 0))
        if h == 1:
            V[i] = [0.0] * d
        elif h == 2:
            V[i] = list(V[0])
        how.append(h)
    return V, ctx.np.array(V)


def section(ctx, A, key, part):
    """one section of the analysis; computed alone where the analyzer can"""
    an = D(ctx).VectorAnalyzer()
    if ctx.params.get("whole") or not hasattr(an, part):
        return an.analyze_vectors(A)[key]
    return getattr(an, part)(A)


def basic(ctx):
    """count, dimension, mean, extremes, sparsity, norms, quality"""
    n, d = ctx.params["n"], ctx.params["d"]
    V, A = matrix(ctx, n, d)
    b = section(ctx, A, "basic_stats", "_basic_statistics")
    flat = [x for v in V for x in v]
    ctx.check_that(b["count"] == n and b["dimension"] == d, "count and dimension", (b["count"], b["dimension"]))
    ctx.check_that(eq(b["memory_size_mb"], n * d * 8 / 1024 / 1024, 1e-9), "memory size", b["memory_size_mb"])
    spread(ctx, flat, b, "overall")
    zeros = sum(1 for x in flat if bool(x == 0))
    ctx.check_that(eq(b["sparsity"], zeros / (n * d), 1e-6), "sparsity is the fraction of zeros", (b["sparsity"], zeros))
    q = section(ctx, A, "quality", "_quality_analysis")
    const = sum(1 for v in V if bool(AND([x == v[0] for x in v])))
    zero = sum(1 for v in V if bool(AND([x == 0 for x in v])))
    ctx.check_that(q["constant_vectors"] == const and q["zero_vectors"] == zero, "constant and zero vectors counted", (q, const, zero))
    ctx.check_that(q["nan_values"] == 0 and q["inf_values"] == 0, "no bad values", q)
    s = 1 - 0.3 * const / n - 0.2 * zero / n
    ctx.check_that(eq(q["quality_score"], max(0.0, s), 1e-6) and 0 <= q["quality_score"] <= 1, "quality score", (q["quality_score"], s))
    ctx.check_that(veq([x for v in rows(A) for x in v], flat), "vectors not changed")
    ctx.reach("end")


def distribution(ctx):
    """norms and per-dimension statistics"""
    n, d = ctx.params["n"], ctx.params["d"]
    V, A = matrix(ctx, n, d)
    r = section(ctx, A, "distribution", "_distribution_analysis")
    norms = [sqrt(sum((x * x for x in v[1:]), start=v[0] * v[0])) for v in V]
    ctx.check_that(eq(r["norms"]["mean"], mean(norms)), "norm mean", r["norms"])
    least(ctx, norms, r["norms"]["min"], "norm minimum")
    most(ctx, norms, r["norms"]["max"], "norm maximum")
    dm = [mean([v[j] for v in V]) for j in range(d)]
    s = r["dimension_stats"]
    ctx.check_that(eq(s["mean_of_means"], mean(dm)), "mean of the dimensions' means", s)
    ctx.check_that(eq(s["std_of_means"], std(dm)), "spread of the dimensions' means", s)
    ctx.check_that(eq(s["mean_of_stds"], mean([std([v[j] for v in V]) for j in range(d)])), "mean of the dimensions' spreads", s)
    if d == 1:
        ctx.check_that(eq(s["std_of_stds"], 0), "spread of the spreads", s)
    ctx.reach("end")


def pairs(ctx):
    """every pair of vectors counted once; finite also for zero and single vectors"""
    n, d = ctx.params["n"], ctx.params["d"]
    V, A = matrix(ctx, n, d)
    r = section(ctx, A, "similarity", "_similarity_analysis")
    sims = [1 - dist("cosine", V[i], V[j]) for i in range(n) for j in range(i)]
    st = r["similarity_stats"]
    ctx.check_that(all(isnum(st[k]) for k in ("mean", "std", "min", "max")), "similarity statistics are finite", st)
    hi, lo = r["high_similarity_pairs"], r["low_similarity_pairs"]
    if not sims:
        ctx.check_that(hi == 0 and lo == 0, "a single vector has no pairs", r)
    else:
        ctx.check_that(eq(st["mean"], mean(sims)), "mean similarity", st)
        least(ctx, sims, st["min"], "least similarity")
        most(ctx, sims, st["max"], "greatest similarity")
        ctx.check_that(sum(1 for x in sims if bool(x > 0.951)) <= hi <= sum(1 for x in sims if bool(x > 0.949)), "similar pairs counted once", (hi, sims))
        ctx.check_that(sum(1 for x in sims if bool(x < -0.501)) <= lo <= sum(1 for x in sims if bool(x < -0.499)), "dissimilar pairs counted once", (lo, sims))
    ctx.reach("end")


def bad_values(ctx):
    """NaN and infinite entries are counted; empty sets are reported"""
    n, d = ctx.params["n"], ctx.params["d"]
    V = [[ctx.real("v%d%d" % (i, j), -3, 3) for j in range(d)] for i in range(n)]
    nan = inf = 0
    for i in range(n):
        for j in range(d):
            h = to_int(ctx.int("bad%d%d" % (i, j), 0, 3))
            if h:
                V[i][j] = [float("nan"), float("inf"), float("-inf")][h - 1]
                nan, inf = nan + (h == 1), inf + (h > 1)
    an = D(ctx).VectorAnalyzer()
    A = ctx.np.array(V)
    r = an.analyze_vectors(A)
    ctx.check_that(r["basic_stats"]["count"] == n and r["basic_stats"]["dimension"] == d, "count and dimension")
    ctx.check_that(r["quality"]["nan_values"] == nan and r["quality"]["inf_values"] == inf, "NaN and infinite entries counted", (r["quality"], nan, inf))
    ctx.check_that(0 <= r["quality"]["quality_score"] <= 1, "quality between 0 and 1", r["quality"])
    e = an.analyze_vectors(ctx.np.zeros((0, d)))
    ctx.check_that("error" in e, "an empty set is reported", list(e))
    ctx.reach("end")


def queries(ctx):
    """single queries and their history"""
    p = ctx.params
    qa = D(ctx).QueryAnalyzer()
    ctx.check_that("error" in qa.analyze_query_patterns(), "an empty history is reported")
    times, counts = [], []
    for i in range(p["queries"]):
        q = [ctx.real("q%d%d" % (i, j), -3, 3) for j in range(2)]
        n = to_int(ctx.int("results%d" % i, 0, p["results"] if not i else 1))
        ds = [ctx.real("d%d%d" % (i, j), 0, 5) for j in range(n)]
        t, k = ctx.real("t%d" % i, 0, 5), to_int(ctx.int("k%d" % i, 1, 2))
        a = qa.analyze_query(ctx.np.array(q), [{"id": "r%d" % j, "distance": x, "metadata": {}} for j, x in enumerate(ds)], k, t)
        s = a["query_stats"]
        ctx.check_that(AND(eq(s["vector_norm"], sqrt(q[0] * q[0] + q[1] * q[1])), eq(s["vector_mean"], mean(q)), eq(s["vector_std"], std(q))), "query statistics", s)
        s = a["result_stats"]
        ctx.check_that(s["count"] == n and s["expected_count"] == k and eq(s["search_time"], t), "result statistics", s)
        if n:
            spread(ctx, ds, {m: s["distance_" + m] for m in ("mean", "std", "min", "max")}, "distance")
        times.append(t)
        counts.append(n)
    r = qa.analyze_query_patterns()
    ctx.check_that(r["total_queries"] == p["queries"], "every query counted", r["total_queries"])
    spread(ctx, times, r["search_time"], "search time")
    spread(ctx, counts, r["result_count"], "result count")
    ctx.reach("end")


def profile(ctx):
    """totals of measured blocks, also failing ones"""
    p = ctx.params
    mon = Monitor(ctx, psutil=p["psutil"])
    prof = D(ctx).PerformanceProfiler()
    ctx.check_that(prof.get_summary() == {}, "empty summary")
    rec = {}
    for i in range(p["n"]):
        name = "ab"[to_int(ctx.int("name%d" % i, 0, 1))]
        dt, dm = ctx.real("dt%d" % i, 0, 5), ctx.real("dm%d" % i, -8, 8)
        bad = ctx.flip("fails%d" % i)
        mon.t += ctx.real("pause%d" % i, 0, 3)

        def go():
            with prof.measure(name):
                mon.t += dt
                mon.mem += dm
                if bad:
                    raise ValueError("x")
        _, e = attempt(go, ValueError)
        ctx.check_that((e is not None) == bad, "errors pass")
        rec.setdefault(name, []).append((dt, dm if p["psutil"] else 0.0))
    s = prof.get_summary()
    ctx.check_that(set(s) == set(rec), "every operation is reported", (list(s), list(rec)))
    for name, xs in rec.items():
        r = s[name]
        ctx.check_that(r["count"] == len(xs), "number of measurements", (r["count"], len(xs)))
        for j, key in enumerate(("duration", "memory")):
            v = [x[j] for x in xs]
            least(ctx, v, r[key]["min"], key + " minimum")
            most(ctx, v, r[key]["max"], key + " maximum")
            ctx.check_that(eq(r[key]["avg"], mean(v)), key + " average", r[key])
            ctx.check_that(eq(r[key]["total"], mean(v) * len(v)), key + " total", r[key])
    f = ctx.fs.ROOT + "/report.json"
    prof.save_report(f)
    back = load(ctx, open_file(ctx, f))
    ctx.check_that(set(back["summary"]) == set(rec), "the report holds every operation", list(back["summary"]))
    for name, xs in rec.items():
        ctx.check_that(back["summary"][name]["count"] == len(xs) and len(back["raw_data"][name]) == len(xs), "the report holds every measurement")
        ctx.check_that(eq(back["summary"][name]["duration"]["total"], mean([x[0] for x in xs]) * len(xs)), "the report holds the totals")
    prof.print_summary()
    ctx.reach("end")


def open_file(ctx, f):
    return ctx.fs.open(f, "r") if hasattr(ctx.fs, "open") and not hasattr(ctx.fs, "root") else open(f)


def load(ctx, h):
    if hasattr(ctx, "world"):
        return ctx.world.env["json"].load(h)
    import json
    return json.load(h)


def progress(ctx):
    """a tracker counts what it is told and never fails"""
    p = ctx.params
    mon = Monitor(ctx)
    total = ctx.choice("total", range(p["total"] + 1))
    t = B(ctx).ProgressTracker(total, "x")
    done = 0
    for i in range(p["n"]):
        inc = ctx.choice("increment%d" % i, range(p["total"] + 1))
        mon.t += ctx.real("dt%d" % i, 0, 3)
        if ctx.flip("default%d" % i):
            t.update()
            inc = 1
        else:
            t.update(inc)
        done += inc
        ctx.check_that(t.current == done, "progress is the sum of the updates", (t.current, done))
    t.finish()
    ctx.check_that(t.current == total and t.total == total, "finished", (t.current, total))
    ctx.reach("end")


def resources(ctx):
    """a monitor's summary is that of its samples"""
    p = ctx.params
    mon = Monitor(ctx, psutil=p["psutil"])
    rm = B(ctx).ResourceMonitor()
    ctx.check_that(rm.get_summary() == {}, "empty summary")
    n = to_int(ctx.int("samples", 1, p["n"]))
    fail = to_int(ctx.int("unreadable", 0, p["n"])) if p["fails"] else -1
    mem = [ctx.real("mem%d" % i, 1, 500) for i in range(n)]
    cpu = [ctx.real("cpu%d" % i, 0, 100) for i in range(n)]
    dt = [ctx.real("dt%d" % i, 0, 5) for i in range(n)]
    st = {"i": 0}
    mon.mem = mem[0]

    def read():
        if st["i"] == fail:
            raise RuntimeError("process is gone")
        return cpu[st["i"]]
    mon.read_cpu = read

    def tick(s):
        mon.t += dt[st["i"]]
        st["i"] += 1
        if st["i"] == n:
            rm.stop_monitoring()
        else:
            mon.mem = mem[st["i"]]
    mon.on_sleep = tick
    rm.start_monitoring(interval=0.5)
    rm.stop_monitoring()
    got = 0 if not p["psutil"] else min(n, fail) if fail >= 0 else n
    s = rm.get_summary()
    if got == 0:
        ctx.check_that(s == {}, "nothing was recorded", s)
    else:
        for key, v in (("memory", mem[:got]), ("cpu", cpu[:got])):
            least(ctx, v, s[key]["min"], key + " minimum")
            most(ctx, v, s[key]["max"], key + " maximum")
            ctx.check_that(eq(s[key]["avg"], mean(v)), key + " average", s[key])
        ctx.check_that(eq(s["duration"], sum(dt[1:got - 1], start=dt[0]) if got > 1 else 0), "duration", s["duration"])
    f = ctx.fs.ROOT + "/report.json"
    rm.save_report(f)
    back = load(ctx, open_file(ctx, f))
    ctx.check_that(len(back["data"]) == got and AND([eq(x["memory_mb"], y) for x, y in zip(back["data"], mem)]), "the report holds every sample", len(back["data"]))
    ctx.check_that(same(back["summary"], s), "the report holds the summary")
    ctx.reach("end")


def inspecting(ctx):
    """the inspector agrees with the index"""
    p = ctx.params
    n, kind = p["n"], p["kind"]
    x, st = IX.index(ctx, kind, p["cfg"])
    model = IX.Model()
    insp = D(ctx).IndexInspector(x)
    info = insp.inspect_index()
    ctx.check_that(info["initialized"] and info["type"] == IX.MODS[kind][1], "type and state", info["type"])
    ids = IX.insert(ctx, x, model, "v", n, 2, -3, 3)
    for i in range(n):
        if ctx.flip("delete%d" % i):
            ctx.check_that(x.delete([ids[i]]), "deleted")
            model.drop(ids[i])
    info = insp.inspect_index()
    live = [v for v, _ in model.live.values()]
    vi = info.get("vector_info")
    if p["vectors"]:
        ctx.check_that(vi is not None and vi["count"] == len(live), "number of vectors", (vi, len(live)))
        if live:
            ctx.check_that(vi["dimension"] == 2, "dimension", vi)
            fl = [c for v in live for c in v]
            ctx.check_that(eq(vi["sample_stats"]["mean"], mean(fl)), "mean", vi)
            ctx.check_that(eq(vi["sample_stats"]["std"], std(fl)), "standard deviation", vi)
    if kind == "lsh":
        h = info["hash_info"]
        ctx.check_that(h["table_count"] == p["cfg"]["num_hash_tables"] and h["total_entries"] == len(live) * p["cfg"]["num_hash_tables"], "every live vector once in every table", (h, len(live)))
        ctx.check_that(h["avg_entries_per_bucket"] == h["total_entries"] / max(h["total_buckets"], 1), "average bucket", h)
    ctx.check_that(all(k in info["stats"] and info["stats"][k] == v for k, v in x.get_stats().items() if isinstance(v, (int, str)) and not isinstance(v, bool)), "the index's own statistics", info["stats"])
    insp.print_inspection()
    ctx.reach("end")


def performance(ctx):
    """measuring an index: times are those that passed"""
    p = ctx.params
    mon = Monitor(ctx)
    H = ctx.mod("valori.utils.helpers")
    n, m = to_int(ctx.int("vectors", 1, 2)), to_int(ctx.int("queries", 0, 2))
    ti, ts = ctx.real("ti", 0, 4), [ctx.real("ts%d" % i, 0, 4) for i in range(2)]
    calls = {"insert": 0, "search": 0, "build": 0}

    class Plain:
        def _put(self, v, md):
            calls["insert"] += 1
            mon.t += ti
            return ["i%d" % i for i in range(len(v))]

        def search(self, q, k=10):
            ctx.check_that(k == 3, "asked for k results", k)
            mon.t += ts[calls["search"]]
            calls["search"] += 1
            return []

        def get_stats(self): return {"vector_count": n}
    if p["kind"] == "add":
        Plain.add = Plain._put
    else:
        Plain.insert = Plain._put
    if p["kind"] == "build":
        Plain.build = lambda self: calls.__setitem__("build", calls["build"] + 1)
    V, Q = ctx.mat("v", n, 2, -3, 3), ctx.mat("q", m, 2, -3, 3)
    r, e = attempt(lambda: H.validate_index_performance(Plain(), V, Q, k=3), *([AttributeError] if p["kind"] == "add" else [core.StopHarness]))
    ctx.check_that(e is None, "measuring works", e)
    ctx.check_that(calls["insert"] == 1 and calls["search"] == m and calls["build"] == (p["kind"] == "build"), "one insertion, one search per query", calls)
    ctx.check_that(eq(r["add_time"], ti) and r["index_stats"] == {"vector_count": n}, "insertion time", r["add_time"])
    if m:
        ctx.check_that(eq(r["avg_search_time"], mean(ts[:m])), "average search time", r["avg_search_time"])
        tot = mean(ts[:m]) * m
        if bool(tot > 0.01):
            ctx.check_that(eq(r["search_throughput"] * tot, m), "throughput", r["search_throughput"])
    if bool(ti > 0.01):
        ctx.check_that(eq(r["add_throughput"] * ti, n), "insertion throughput", r["add_throughput"])
    ctx.reach("end")


def files(ctx):
    """no processable file gives an empty set"""
    x = types.ModuleType("sentence_transformers")

    class Model:
        def __init__(self, name): pass
        def to(self, device): return self
        def encode(self, t, **kw): return ctx.np.array([1.0, 2.0])
    x.SentenceTransformer = Model
    ctx.stub("sentence_transformers", x)
    H = ctx.mod("valori.utils.helpers")
    v, m = H.create_vectors_from_files([ctx.fs.ROOT + "/missing%d.txt" % i for i in range(to_int(ctx.int("files", 0, 2)))])
    ctx.check_that(len(v) == 0 and len(m) == 0, "empty result", (len(v), len(m)))
    ctx.reach("end")


def integers(ctx):
    """integer vectors have the statistics of their numbers"""
    p = ctx.params
    dt, R, F = ints.pick(ctx, p["n"], p["d"], free=False)
    got, want = [D(ctx).VectorAnalyzer().analyze_vectors(ctx.np.array(M, dtype=t)) for M, t in ((R, dt), (F, "float64"))]
    for part in want:
        g, w = dict(got[part]), dict(want[part])
        for k in ("memory_size_mb", "dtype"):
            g.pop(k, None), w.pop(k, None)
        ctx.check_that(ints.close(g, w), part + " of integers is that of the numbers", (dt, g, w))
    ctx.reach("end")


def scenarios(tier):
    th = tier != "quick"
    out = []

    def add(name, fn, bounds="", **kw):
        out.append(dict({"name": name, "fn": fn, "expect": ["end"], "bounds": bounds, "opts": {"minmax": "aux"}}, **kw))
    for n, d in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(3, 2), (3, 1), (2, 3)] if th else []):
        add("statistics %dx%d" % (n, d), "basic", "%d vectors of %d" % (n, d), n=n, d=d, whole=n * d <= 2)
        add("distribution %dx%d" % (n, d), "distribution", "%d vectors of %d" % (n, d), n=n, d=d, whole=n * d <= 2)
    for n, d in [(1, 2), (2, 1), (2, 2), (3, 1)] + ([(3, 2), (4, 1), (2, 3)] if th else []):
        add("pairs %dx%d" % (n, d), "pairs", "%d vectors of %d, also zero and repeated" % (n, d), n=n, d=d, special=n * d <= 2 or th, whole=n * d <= 2)
    add("bad values", "bad_values", "entries NaN or infinite", n=2, d=2 if th else 1)
    add("bad values wide", "bad_values", "entries NaN or infinite", n=1, d=2)
    add("queries", "queries", "up to 2 queries of up to 2 results", queries=2, results=2 if not th else 3)
    for ps in (True, False):
        add("profile" + ("" if ps else " without psutil"), "profile", "3 measurements of 2 operations", n=3 if th else 2, psutil=ps)
        add("resources" + ("" if ps else " without psutil"), "resources", "up to 3 samples", n=3, psutil=ps, fails=ps)
    add("progress", "progress", "totals and increments up to 2", n=3 if th else 2, total=2)
    for kind, cfg, vec in (("flat", {"metric": "euclidean"}, False), ("hnsw", {"metric": "euclidean", "m": 2, "ef_construction": 4, "ef_search": 4}, True),
                           ("ivf", {"metric": "euclidean", "n_clusters": 1, "n_probe": 1}, False),
                           ("lsh", {"metric": "euclidean", "num_hash_tables": 2, "hash_size": 1, "num_projections": 2}, True),
                           ("annoy", {"metric": "euclidean", "num_trees": 1}, True)):
        add("inspect " + kind, "inspecting", "2 vectors, any subset deleted", n=2, kind=kind, cfg=cfg, vectors=vec)
    for k in ("add", "insert", "build"):
        add("performance " + k, "performance", "up to 2 vectors and 2 queries", kind=k)
    add("no files", "files", "up to 2 missing files")
    out.append(dict(name="integers", fn="integers", n=3, d=2, expect=["end"], bounds="3 vectors of 2 integers of several widths"))
    return out
