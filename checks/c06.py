"""C06  what the persistence managers save is what they load"""
from .common import *  # noqa

PROPERTY = "C06"
ASSUMPTIONS = ["a crash keeps every earlier completed file-system step; the step it hits may be lost or, for a write, torn",
               "identifiers are strings or integers"]


def manager(ctx, kind, init=True):
    mod, cls = {"tensor": ("tensor", "TensorPersistence"), "zip": ("tensor", "TensorPersistence"),
                "incremental": ("incremental", "IncrementalPersistence")}[kind]
    m = getattr(ctx.mod("valori.persistence." + mod), cls)({"data_dir": str(ctx.fs.ROOT) + "/data", "compression": kind == "zip", "checkpoint_interval": 2})
    if init:
        m.initialize()
    return m


def thing(ctx, p, name):
    """an arbitrary nested state"""
    s = {"kind": name, "x": ctx.real(name + ".x", -9, 9), "arr": ctx.vec(name + ".arr", 2, -9, 9),
         "nest": {"l": [1, ctx.str(name + ".s", 2, "ab\n\u00e9"), None], "t": (True, 2.5), 7: {}}, "e": []}
    if p.get("vary"):
        sh = ctx.choice(name + ".shape", ["nested", "empty", "list", "none-values"])
        return {"nested": s, "empty": {}, "list": {"items": [s["x"], [s["x"]]]}, "none-values": {"a": None, "b": ""}}[sh]
    return s


def copyof(x):
    if isinstance(x, dict):
        return {k: copyof(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copyof(v) for v in x)
    return x.copy() if hasattr(x, "shape") else x


def again(ctx, m, kind):
    """the same manager, a second one, or one opened after closing the first"""
    how = ctx.choice("load with", ["same", "fresh", "closed"])
    if how == "same":
        return m
    if how == "closed":
        m.close()
    return manager(ctx, kind)


def objects(ctx):
    """save_state / save_index round trip, overwriting, unknown paths"""
    p = ctx.params
    kind, what = p["kind"], p["what"]
    m = manager(ctx, kind)
    save = lambda m, o, path: (m.save_state if what == "state" else m.save_index)(o, path)
    load = lambda m, path: (m.load_state if what == "state" else m.load_index)(path)
    ctx.check_that(load(m, "never") is None, "nothing is loaded from a path that was never saved")
    saved = {}
    for j in range(p["saves"]):
        path = ctx.choice("path", p["paths"])
        o = thing(ctx, p, "o%d" % j)
        keep = copyof(o)
        ctx.check_that(bool(save(m, o, path)), "save succeeds")
        o["later"] = 1                       # the saved copy is independent
        saved[path] = keep
        last = keep
        if p.get("hop"):
            m = again(ctx, m, kind)
    m = again(ctx, m, kind)
    for path in p["paths"]:
        want = saved.get(path)
        if kind == "incremental" and what == "state":
            want = last                      # one state per directory
        got = load(m, path)
        if want is None:
            ctx.check_that(got is None, "nothing is loaded from a path that was never saved")
        else:
            ctx.check_that(got is not None and same(got, want), "the loaded object equals the saved one", got)
            got["scratch"] = 1
            ctx.check_that(same(load(m, path), want), "loading twice gives the same object")
    ctx.reach("end")


def vectors(ctx):
    p = ctx.params
    kind, n, d = p["kind"], p["n"], p["d"]
    m = manager(ctx, kind)
    path = ctx.choice("path", p["paths"]) if "paths" in p else ctx.str("path", p["plen"], "a.npz")
    dt = ctx.choice("dtype", p.get("dtypes", ["float64"]))
    V = ctx.mat("v", n, d, -9, 9, dt)
    want = rows(V)
    if p["ids"] == "int":
        ids = [int(ctx.int("id%d" % i, -2, 2)) for i in range(n)]
    elif p["ids"] == "npint":
        ids = [ctx.np.int64(5 + i) for i in range(n)]
    else:
        ids = [ctx.str("id%d" % i, ctx.choice("len%d" % i, p["idlens"]), "aB-\n\u00e9 ") for i in range(n)]
    r = m.load_vectors(path)
    ctx.check_that(r is None or (r[0] is None and r[1] is None), "nothing is loaded from a path that was never saved")
    if p.get("overwrite"):
        m.save_vectors(ctx.mat("o", n + 1, d, -9, 9), ["o%d" % i for i in range(n + 1)], path)
    ctx.check_that(bool(m.save_vectors(V, ids, path)), "save succeeds")
    if n:
        V[0, 0] = 55.0
    m = again(ctx, m, kind)
    got = m.load_vectors(path)
    ctx.check_that(got is not None and got[0] is not None, "saved vectors are found under the path they were saved to", str(path))
    gv, gi = got
    ctx.check_that(tuple(gv.shape) == (n, d), "the loaded array has the saved shape", gv.shape)
    ctx.check_that(meq(gv, want), "the loaded vectors equal the saved ones")
    ctx.check_that(len(gi) == n and all(bool(a == b) for a, b in zip(gi, ids)), "the loaded ids equal the saved ones, in order", list(gi))
    ctx.check_that(str(gv.dtype) == dt, "the loaded array has the saved type", str(gv.dtype))
    ctx.reach("end")


LISTS = [["a\0"], ["", "\0"], [2 ** 70], ["a", 1], [1, "1"], [2 ** 63, -1], [2 ** 40, 2 ** 31 + 5], [-(2 ** 63), 2 ** 63 - 1], [2 ** 64 - 1],
         ["x" * 40, "x" * 300], ["\u00e9", "e\u0301", "\U0001f600"], ["007", "7", "7.0", "1e3"], ["nan", "None", "[1, 2]", "null"], [" a", "a ", "a\n"],
         ["id-%d" % i for i in range(130)], list(range(1000, 700, -1)), ["dup", "dup"], [0, -0, 10 ** 18, 10 ** 19]]


def idlists(ctx):
    """identifiers of every kind come back as they were, one by one with their vectors"""
    p = ctx.params
    kind = p["kind"]
    m = manager(ctx, kind)
    ids = ctx.choice("ids", LISTS)
    if ctx.flip("numpy scalars"):
        ids = [ctx.np.int64(i) if isinstance(i, int) and abs(i) < 2 ** 62 else i for i in ids]
    n = len(ids)
    V = ctx.np.array([[float(i), 0.5] for i in range(n)])
    V[n - 1] = ctx.vec("last", 2, -9, 9)
    want = rows(V)
    given = list(ids)
    ctx.check_that(bool(m.save_vectors(V, given, "v")), "save succeeds")
    ctx.check_that(given == ids and [type(a) for a in given] == [type(a) for a in ids], "saving leaves the list of ids alone")
    gv, gi = again(ctx, m, kind).load_vectors("v")
    ctx.check_that(tuple(gv.shape) == (n, 2) and meq(gv, want), "the loaded vectors equal the saved ones")
    ctx.check_that(len(gi) == n and all(bool(a == b) and isinstance(a, str) == isinstance(b, str) for a, b in zip(gi, ids)),
                   "the loaded ids equal the saved ones, in order", [a for a, b in zip(gi, ids) if a != b][:3])
    ctx.reach("end")


def turns(ctx):
    """loads between saves, by managers that live side by side: each load sees the last save"""
    p = ctx.params
    kind, what = p["kind"], p["what"]
    ms = [manager(ctx, kind), manager(ctx, kind)] if p["two"] else [manager(ctx, kind)]
    path = "d/x"
    sizes = [1, 1, 2]
    for j in range(p["saves"]):
        m = ctx.choice("saver", ms)
        if what == "vectors":
            V = ctx.mat("v%d" % j, sizes[j], 1, 1, 9)
            ids = ["i%d-%d" % (j, i) for i in range(sizes[j])]
            want = rows(V)
            m.save_vectors(V, ids, path)
        else:
            o = {"n": j, "x": ctx.vec("x%d" % j, sizes[j], 1, 9)}
            keep = copyof(o)
            (m.save_state if what == "state" else m.save_index)(o, path)
        for r in ms if ctx.flip("loaded") or j == p["saves"] - 1 else []:
            if what == "vectors":
                gv, gi = r.load_vectors(path)
                ctx.check_that(tuple(gv.shape) == (sizes[j], 1) and meq(gv, want) and list(gi) == ids, "the loaded vectors are the last ones saved", list(gi))
            else:
                got = (r.load_state if what == "state" else r.load_index)(path)
                ctx.check_that(same(got, keep), "the loaded object is the last one saved", got)
    ctx.reach("end")


def mixed(ctx):
    """saving one thing leaves the others as they were; failed saves too"""
    p = ctx.params
    kind = p["kind"]
    E = ctx.mod("valori.exceptions").PersistenceError
    m = manager(ctx, kind)
    have = {}
    for j in range(p["ops"]):
        op = ctx.choice("op", ["state", "index", "vectors", "bad"])
        if op == "state":
            o = {"n": ctx.real("x", -9, 9)}
            m.save_state(dict(o), "s.pkl")
            have["state"] = o
        elif op == "index":
            o = {"i": ctx.real("x", -9, 9)}
            m.save_index(dict(o), "i/x.pkl")
            have["index"] = o
        elif op == "vectors":
            V = ctx.mat("v", 1, 1, -9, 9)
            m.save_vectors(V, ["id%d" % j], "vec")
            have["vectors"] = (rows(V), "id%d" % j)
        else:
            bad = {"f": lambda: 0}
            w = ctx.choice("where", ["state", "index"])
            ctx.check_that(raises((lambda: m.save_state(bad, "s.pkl")) if w == "state" else (lambda: m.save_index(bad, "i/x.pkl")), E) is not None,
                           "an object that cannot be saved is refused")
            ctx.reach("refused")
    m = again(ctx, m, kind)
    s, i, v = m.load_state("s.pkl"), m.load_index("i/x.pkl"), m.load_vectors("vec")
    ctx.check_that(same(s, have["state"]) if "state" in have else s is None, "the state is the last one saved", s)
    ctx.check_that(same(i, have["index"]) if "index" in have else i is None, "the index is the last one saved", i)
    if "vectors" in have:
        ctx.check_that(v[0] is not None and meq(v[0], have["vectors"][0]) and list(v[1]) == [have["vectors"][1]], "the vectors are the last ones saved")
    else:
        ctx.check_that(v is None or v[0] is None, "no vectors appear that were not saved")
    if kind == "incremental":
        ctx.check_that(m.get_stats()["logged_operations"] >= len([k for k in have]), "every save is logged")
    ctx.reach("end")


def crash(ctx):
    """a save that dies half way leaves the old or the new content under its path"""
    p = ctx.params
    kind, what = p["kind"], p["what"]
    m = manager(ctx, kind)
    path = "d/x.npz" if what == "vectors" else "d/x.pkl"

    def save(m, x):
        if what == "vectors":
            return m.save_vectors(ctx.np.array([[x]]), ["i"], path)
        return (m.save_state if what == "state" else m.save_index)({"x": x}, path)

    def load(m):
        if what == "vectors":
            r = m.load_vectors(path)
            return None if r is None or r[0] is None else r[0][0, 0]
        r = (m.load_state if what == "state" else m.load_index)(path)
        return None if r is None else r["x"]
    a, b, c = ctx.real("old", -9, 9), ctx.real("new", -9, 9), ctx.real("third", -9, 9)
    old = ctx.flip("old exists")
    if old:
        save(m, a)
    ctx.fs.arm(p.get("steps", 8))
    done = ctx.fs.run(lambda: save(m, b))
    m = manager(ctx, kind)
    got = load(m)
    if got is None:
        ctx.check_that(not old and not done, "saved data is not lost by an interrupted save")
    else:
        ctx.check_that(OR([eq(got, b)] + ([eq(got, a)] if old and not done else [])), "the content is the old or the new one", got)
    save(m, c)
    ctx.check_that(eq(load(manager(ctx, kind)), c), "the next save is the one that is loaded")
    if not done:
        ctx.reach("crashed")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    for kind in ("tensor", "incremental"):
        for what in ("state", "index"):
            add("%s-%s" % (kind, what), "objects", kind=kind, what=what, saves=2, paths=["a", "sub/b.pkl"])
            add("%s-%s-shapes" % (kind, what), "objects", kind=kind, what=what, saves=1, paths=["a"], vary=True)
            add("%s-%s-hops" % (kind, what), "objects", kind=kind, what=what, saves=3, paths=["a"], hop=True)
            add("%s-%s-crash" % (kind, what), "crash", ["end", "crashed"], kind=kind, what=what)
        for what in ("state", "index", "vectors"):
            # incremental states are numbered per manager (C07): one manager at a time there
            add("%s-%s-turns" % (kind, what), "turns", kind=kind, what=what, saves=3, two=not (kind == "incremental" and what == "state"))
        add(kind + "-vectors-crash", "crash", ["end", "crashed"], kind=kind, what="vectors")
        add(kind + "-mixed", "mixed", ["end", "refused"], kind=kind, ops=4 if T else 3)
    for kind in ("tensor", "zip", "incremental"):
        P = ["v", "v.npz", "v.npy", "npz", ".npz", "sub/v", "a.b/v.x", "v.npz.bak"]
        add(kind + "-vectors-paths", "vectors", kind=kind, n=1, d=2, ids="str", idlens=[2], paths=P, dtypes=["float64", "float32"])
        add(kind + "-vectors-names", "vectors", kind=kind, n=1, d=1, ids="str", idlens=[1], plen=3)
        add(kind + "-vectors-ids", "vectors", kind=kind, n=2, d=1, ids="str", idlens=[0, 1, 3], paths=["v"], overwrite=True)
        add(kind + "-vectors-int", "vectors", kind=kind, n=2, d=1, ids="int", paths=["v.npz"])
        add(kind + "-vectors-npint", "vectors", kind=kind, n=2, d=1, ids="npint", paths=["v.npz"])
        add(kind + "-vectors-lists", "idlists", kind=kind)
        add(kind + "-vectors-none", "vectors", kind=kind, n=0, d=2, ids="str", idlens=[1], paths=["v"])
        if T:
            add(kind + "-vectors-long", "vectors", kind=kind, n=1, d=1, ids="str", idlens=[1], plen=5)
            add(kind + "-vectors-three", "vectors", kind=kind, n=3, d=2, ids="str", idlens=[0, 2], paths=["v", "v.npz"])
    return out
