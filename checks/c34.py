"""C34  a database shared by threads behaves as if they took turns"""
from .c30 import orders
from .ix import *  # noqa
from .st import make

PROPERTY = "C34"
BUDGET = {"quick": 180, "thorough": 500}
ASSUMPTIONS = ["threads switch between statements and between the elements of a comprehension of the client, index and storage modules, and while waiting for locks; library calls inside one statement are atomic",
               "the oracle is the same real database used by one thread, in every order of the operations that the threads' programs allow; random draws are the same in every order"]
CFG = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 2, "ef_construction": 4, "ef_search": 4}, "ivf": {"metric": "euclidean", "n_clusters": 1, "n_probe": 1},
       "lsh": {"metric": "euclidean", "num_hash_tables": 1, "hash_size": 1, "num_projections": 1, "threshold": -100.0}, "annoy": {"metric": "euclidean", "num_trees": 1}}
OPS = ("insert two", "search", "delete x", "update x", "close", "stats", "delete both")
MANY = 130


class Constant(Fixed):
    """draws do not depend on who drew before"""

    def __init__(self): pass
    def random(self): return 0.75


class Op:
    def __init__(self, ctx, name, tag, at):
        self.ctx, self.name, self.tag = ctx, name, tag
        n = {"insert": 1, "insert two": 2, "update x": 1}.get(name, 0)
        self.v = [ctx.real("%s.v%d" % (tag, i), at + 2 * i, at + 2 * i + 1) for i in range(n)]

    def go(self, db, before):
        np, VE = self.ctx.np, self.ctx.VE
        tick = lambda: getattr(getattr(self.ctx, "sched", None), "tick", 0)
        self.begin = tick()
        try:
            if self.name in ("insert", "insert two"):
                return "ids", db.insert(np.array([[x] for x in self.v]), [{"n": "%s.%d" % (self.tag, i)} for i in range(len(self.v))])
            if self.name == "search":
                return "hits", [(str(r["id"]), r["distance"], dict(r["metadata"])) for r in db.search(np.array([0.0]), k=2)]
            if self.name == "insert many":
                return "ids", db.insert(np.array([[100.0 + i] for i in range(MANY)]), [{"n": "%s.%d" % (self.tag, i)} for i in range(MANY)])
            if self.name == "delete many":
                return "done", bool(db.delete(list(before.values())))
            if self.name == "search all":
                return "hits", [(str(r["id"]), r["distance"], dict(r["metadata"])) for r in db.search(np.array([0.0]), k=3 * MANY)]
            if self.name == "delete both":
                return "done", bool(db.delete([before["y"], before["x"]]))
            if self.name == "delete x":
                return "done", bool(db.delete([before["x"]]))
            if self.name == "update x":
                return "done", bool(db.update(before["x"], np.array(self.v), {"n": "updated by " + self.tag}))
            if self.name == "stats":
                s = db.get_stats()
                held = s["storage"]["disk"] if "disk" in s["storage"] else s["storage"]
                return "stats", [s["index"].get("vector_count", s["index"].get("num_vectors")), held["vector_count"]]
            if self.name == "initialize":
                return "open", db.initialize()
            return "closed", db.close()
        except VE as e:
            return "refused", None
        finally:
            self.end = tick()


class Run:
    """one database, its operations' results and its content afterwards"""

    def __init__(self, ctx, kind, storage, progs):
        self.ctx, self.kind, self.progs = ctx, kind, progs
        ctx.dbs = getattr(ctx, "dbs", 0) + 1
        st = make(ctx, storage, limit=1, sub="db%d" % ctx.dbs, init=False)
        self.db = ctx.mod("valori.client").VectorDBClient(st, getattr(ctx.mod(MODS[kind][0]), MODS[kind][1])(dict(CFG[kind])))
        self.db.initialize()
        names = ["x", "y"] + ["z%d" % i for i in range(len(ctx.start) - 2)]
        ids = self.db.insert(ctx.np.array([[x] for x in ctx.start]), [{"n": n} for n in names])
        self.before = dict(zip(names, ids))
        self.res = {}

    def task(self, ops):
        def f():
            for o in ops:
                self.res[o] = o.go(self.db, self.before)
        return f

    def finish(self):
        """content afterwards, and ids named after what they stand for"""
        name = {str(i): n for n, i in self.before.items()}
        for o, (what, r) in self.res.items():
            if what == "ids":
                name.update({str(i): "%s.%d" % (o.tag, j) for j, i in enumerate(r)})
        self.closed = not self.db._initialized
        if self.closed:
            self.db.initialize()
        if self.kind == "annoy":
            attempt(self.db.index.build, self.ctx.VE)
        hits, e = attempt(lambda: self.db.search(self.ctx.np.array([0.0]), k=3 * MANY), self.ctx.VE)
        final = ("hits", [(str(r["id"]), r["distance"], dict(r["metadata"])) for r in hits]) if e is None else ("refused", None)
        self.res["final"] = final
        self.res["count"] = Op(self.ctx, "stats", "", 0).go(self.db, {})
        for o, (what, r) in list(self.res.items()):
            if what == "hits":
                self.res[o] = what, [(name.get(i, i), d, m) for i, d, m in r]
            elif what == "ids":
                self.res[o] = what, [name[str(i)] for i in r]
        return self

    def agrees(self, other):
        c = [self.closed == other.closed]
        for o, (what, r) in self.res.items():
            w2, r2 = other.res[o]
            if what == "hits" and w2 == "hits":
                c.append(len(r) == len(r2) and AND([AND(a[0] == b[0], eq(a[1], b[1]), a[2] == b[2]) for a, b in zip(r, r2)]))
            else:
                c.append(what == w2 and r == r2)
        return AND(c)


def shared(ctx):
    """results and content are those of some order of the operations"""
    p = ctx.params
    ctx.rnd_seeded = Constant()
    ctx.VE = ctx.mod("valori.exceptions").ValoriError
    ctx.start = [ctx.real("x", 1, 2), ctx.real("y", 3, 4)] + [10.0 + i for i in range(p.get("crowd", 0))]
    progs = []
    for t, k in enumerate(p["threads"]):
        names = p["ops"]
        if t and p["threads"] == (1, 1):
            names = names[names.index(progs[0][0].name):]       # the threads are interchangeable
        progs.append([Op(ctx, ctx.choice("op%d%d" % (t, j), names), "t%d%d" % (t, j), 5 + 10 * t + 4 * j) for j in range(k)])
    run = Run(ctx, p["kind"], p["storage"], progs)
    tasks = ctx.threads([run.task(ops) for ops in progs], p["bound"])
    for t in tasks:
        ctx.check_that(t.error is None, "every operation completes or is refused with a library error", "%s: %s" % (type(t.error).__name__, t.error))
    spans = {o: (o.begin, o.end) for ops in progs for o in ops}
    run.finish()
    good = []
    for order in orders([list(x) for x in progs]):
        if any(spans[order[j]][1] < spans[order[i]][0] for i in range(len(order)) for j in range(i + 1, len(order))):
            continue
        one = Run(ctx, p["kind"], p["storage"], progs)
        for o in order:
            one.task([o])()
        good.append(run.agrees(one.finish()))
    ctx.check_that(OR(good), "results are those of some order of the operations", [(o if isinstance(o, str) else o.name, str(r)) for o, r in run.res.items()])
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(kind, storage, name="pairs", **kw):
        b, th = kw.get("bound", 1), kw.get("threads", (1, 1))
        out.append(dict({"name": "%s %s %s" % (kind, storage, name), "fn": "shared", "kind": kind, "storage": storage, "threads": (1, 1), "bound": 1, "ops": OPS, "expect": ["end"],
                         "yields": ("valori.client", MODS[kind][0]) + (("valori.storage." + storage,) if storage != "memory" and T else ()),
                         "bounds": "%s index on %s storage holding %d vectors, %d threads with %s operations, at most %d preemption(s), any statement of %s" % (kind, storage, 2 + kw.get("crowd", 0), len(th), th, b, "the client" if "crowd" in kw else "client, index and storage")}, **kw))
    for kind in MODS:
        add(kind, "memory", ops=OPS if T or kind == "flat" else OPS[:5])
    for kind in MODS if T else ("flat",):
        add(kind, "memory", "crowd", crowd=MANY, ops=("insert many", "search all", "delete many", "stats"), yields=("valori.client",), opts={"path_timeout": 90})
    add("flat", "hybrid", ops=OPS[:5])
    for kind in MODS if T else ("flat",):
        add(kind, "memory", "lifecycle", ops=("initialize", "insert two", "search", "stats", "close"))
    if T:
        for kind in MODS:
            add(kind, "memory", "pairs 2 preemptions", bound=2)
            add(kind, "hybrid", "two against one", threads=(2, 1), ops=("insert", "search", "delete x", "update x", "close"))
        add("flat", "memory", "three threads", threads=(1, 1, 1), ops=("insert", "search", "delete x", "update x"))
        add("flat", "disk")
    return out
