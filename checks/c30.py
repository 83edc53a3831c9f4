"""C30  storage operations are linearizable under threads"""
from .st import *  # noqa

PROPERTY = "C30"
ASSUMPTIONS = ["threads switch between statements and between the elements of a comprehension of the storage modules, and while waiting for locks; library calls inside one statement are atomic"]
YIELDS = ("valori.storage.memory", "valori.storage.disk", "valori.storage.hybrid")
OPS = ("store a", "store b", "retrieve a", "delete a", "update a", "list", "retrieve b")


class Op:
    def __init__(self, ctx, st, kind, name, tag):
        self.ctx, self.st, self.kind, self.name = ctx, st, kind, name
        self.what, _, self.id = name.partition(" ")
        self.tag = tag
        self.v = self.md = None
        if self.what in ("store", "update"):
            self.v = [ctx.real(tag + ".v", -4, 4)]
            self.md = {"by": tag} if ctx.params.get("allmd") or not ctx.flip(tag + " without metadata") else None

    def go(self):
        s = self.st
        self.begin = self.ctx.sched.tick
        try:
            if self.what == "store":
                return s.store_vector(self.id, self.ctx.np.array(self.v), dict(self.md) if self.md else None)
            if self.what == "update":
                return s.update_vector(self.id, self.ctx.np.array(self.v), dict(self.md) if self.md else None)
            if self.what == "retrieve":
                r = s.retrieve_vector(self.id)
                return None if r is None else (list(r[0]), r[1])
            if self.what == "delete":
                return s.delete_vector(self.id)
            return list(s.list_vectors())
        finally:
            self.end = self.ctx.sched.tick

    def model(self, m):
        """sequential result; changes m"""
        if self.what == "store" or self.what == "update" and self.id in m:
            m[self.id] = (self.v, self.md)
            return True
        if self.what == "update":
            return False
        if self.what == "retrieve":
            return m.get(self.id)
        if self.what == "delete":
            return m.pop(self.id, None) is not None
        return sorted(m)

    def agrees(self, got, want):
        if self.what == "retrieve":
            if got is None or want is None:
                return got is None and want is None
            return AND(veq(got[0], want[0]), (got[1] or None) == want[1])
        if self.what == "list":
            return sorted(got) == want
        return bool(got) == want


def orders(progs):
    """all interleavings of the threads' programs"""
    if all(not p for p in progs):
        yield []
        return
    for i, p in enumerate(progs):
        if p:
            for r in orders(progs[:i] + [p[1:]] + progs[i + 1:]):
                yield [p[0]] + r


def threads(ctx):
    """results of concurrent operations are those of some sequential order"""
    p = ctx.params
    kind = p["kind"]
    st = make(ctx, kind, limit=p.get("limit", 1))
    start = {}
    for i in p["before"]:
        v, md = [ctx.real("start." + i, -4, 4)], {"by": "start " + i}
        ctx.check_that(bool(st.store_vector(i, ctx.np.array(v), dict(md))), "stored")
        start[i] = (v, md)
    if kind == "hybrid" and p.get("cold"):
        st.memory_storage.initialize()
    progs = []
    for t, k in enumerate(p["threads"]):
        names = p["ops"]
        if t and p["threads"] == (1, 1):
            names = names[names.index(progs[0][0].name):]       # the threads are interchangeable
        progs.append([Op(ctx, st, kind, ctx.choice("op%d%d" % (t, j), names), "t%d%d" % (t, j)) for j in range(k)])
    res = {}

    def body(ops):
        def f():
            for o in ops:
                res[o] = o.go()
        return f
    tasks = ctx.threads([body(ops) for ops in progs], p["bound"])
    for t in tasks:
        ctx.check_that(t.error is None, "every operation completes without error", "%s: %s" % (type(t.error).__name__, t.error))
    all_ops = [o for ops in progs for o in ops]
    look = lambda s: ({i: (lambda r: None if r is None else (list(r[0]), r[1]))(s.retrieve_vector(i)) for i in ("a", "b")}, sorted(s.list_vectors()), counted(s, kind))
    final, listed, n = look(st)
    ends = [final]
    if kind != "memory":            # what another process would find
        again, l2, n2 = look(make(ctx, kind, limit=p.get("limit", 1)))
        ctx.check_that(l2 == listed and n2 == n, "reopening finds the same ids", (l2, listed, n2, n))
        ends.append(again)
    good = []
    for order in orders([list(x) for x in progs]):
        if any(order[j].end < order[i].begin for i in range(len(order)) for j in range(i + 1, len(order))):
            continue        # contradicts the order of operations that did not overlap
        m = dict(start)
        c = [o.agrees(res[o], o.model(m)) for o in order]
        for i, f in [x for e in ends for x in e.items()]:
            w = m.get(i)
            c.append(AND(veq(f[0], w[0]), (f[1] or None) == w[1]) if f is not None and w is not None else f is None and w is None)
        c.append(listed == sorted(m) and n == len(m))
        good.append(AND(c))
    ctx.check_that(OR(good), "results are those of some sequential order",
                   [(o.name, str(res[o])) for o in all_ops] + [str(ends), listed, n])
    ctx.reach("end")


def scenarios(tier):
    th = tier != "quick"
    out = []

    def add(name, kind, **kw):
        b = kw.get("bound", 1)
        out.append(dict({"name": kind + " " + name, "fn": "threads", "kind": kind, "threads": (1, 1), "bound": 1, "ops": OPS, "before": ("a",), "yields": YIELDS, "expect": ["end"],
                         "bounds": "%s threads with %s operations, at most %d preemption(s), any statement" % (len(kw.get("threads", (1, 1))), kw.get("threads", (1, 1)), b)}, **kw))
    for kind in ("memory", "disk", "hybrid"):
        add("pairs", kind)
    add("cold pairs", "hybrid", cold=True, ops=("retrieve a", "update a", "delete a", "store a", "store b"))
    if th:
        for kind in ("memory", "disk", "hybrid"):
            add("pairs 2 preemptions", kind, bound=2)
            add("two against one", kind, threads=(2, 1), allmd=True)
            add("three threads", kind, threads=(1, 1, 1), ops=("store a", "retrieve a", "delete a", "list"), allmd=True)
    return out
