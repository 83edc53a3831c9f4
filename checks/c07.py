"""C07  incremental persistence recovers the latest complete state after restarts and
crashes"""
from .common import *  # noqa

PROPERTY = "C07"
ASSUMPTIONS = ["a crash keeps every earlier completed file-system step; the step it hits may be lost or, for a write, torn",
               "time stamps are arbitrary"]


def manager(ctx, interval):
    m = ctx.mod("valori.persistence.incremental").IncrementalPersistence({"data_dir": str(ctx.fs.ROOT) + "/inc", "checkpoint_interval": interval})
    m.initialize()
    return m


def history(ctx):
    p = ctx.params
    m = manager(ctx, ctx.choice("interval", p["intervals"]))
    allowed = [None]                # states that loading may return
    for j in range(p["ops"]):
        op = ctx.choice("op", p["kinds"])
        if op in ("save", "crash-save"):
            x = ctx.real("x", -9, 9)
            if op == "save":
                ctx.check_that(bool(m.save_state({"x": x}, "s%d" % j)), "save succeeds")
                allowed = [x]
            else:
                ctx.fs.arm(p.get("steps", 12))
                done = ctx.fs.run(lambda: m.save_state({"x": x}, "s"))
                allowed = [x] if done else allowed + [x]
                m = manager(ctx, p["intervals"][0])
                if not done:
                    ctx.reach("crashed")
        elif op == "vectors":
            m.save_vectors(ctx.np.array([[1.0]]), ["a"], "v.npz")
        elif op == "index":
            m.save_index({"i": j}, "i.pkl")
        elif op == "crash-other":
            ctx.fs.arm(p.get("steps", 12))
            ctx.fs.run(lambda: m.save_index({"i": j}, "i.pkl") if p.get("other", "index") == "index" else m.save_vectors(ctx.np.array([[1.0]]), ["a"], "v.npz"))
            m = manager(ctx, p["intervals"][0])
        elif op == "restart":
            if ctx.flip("closed"):
                m.close()
            m = manager(ctx, ctx.choice("interval", p["intervals"]))
        elif op == "crash-restart":
            ctx.fs.arm(4)
            ctx.fs.run(lambda: manager(ctx, p["intervals"][0]))
            m = manager(ctx, p["intervals"][0])
        if p.get("each"):
            allowed = recovered(ctx, m, allowed)
    if p.get("end"):
        m = manager(ctx, p["intervals"][0])
    recovered(ctx, m, allowed)
    ctx.reach("end")


def many(ctx):
    """the same after a number of saves"""
    p = ctx.params
    m = manager(ctx, p["interval"])
    n = ctx.choice("saves", p["saves"])
    for j in range(n):
        m.save_state({"x": -1.0 - j}, "s")
    if ctx.flip("restart"):
        m = manager(ctx, p["interval"])
    allowed = [-float(n)]
    if p["last"] == "save":
        x = ctx.real("x", 0, 9)
        m.save_state({"x": x}, "s")
        allowed = [x]
    elif p["last"] == "crash":
        x = ctx.real("x", 0, 9)
        ctx.fs.arm(12)
        done = ctx.fs.run(lambda: m.save_state({"x": x}, "s"))
        allowed = [x] if done else allowed + [x]
        m = manager(ctx, p["interval"])
    got = m.load_state("s")
    ctx.check_that(got is not None, "a saved state is recovered")
    ctx.check_that(OR([eq(got["x"], a) for a in allowed]), "the recovered state is the latest complete one", got)
    m = manager(ctx, p["interval"])
    y = ctx.real("y", 0, 9)
    m.save_state({"x": y}, "s")
    ctx.check_that(eq(m.load_state("s")["x"], y), "a later save is recovered")
    ctx.reach("end")


def recovered(ctx, m, allowed):
    got = m.load_state("s")
    if got is None:
        ctx.check_that(None in allowed, "a saved state is recovered")
        return [None]
    ctx.check_that(OR([eq(got["x"], a) for a in allowed if a is not None]), "the recovered state is the latest complete one", got)
    return allowed


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, expect=("end",), fn="history", **k):
        out.append(dict(name=name, fn=fn, expect=list(expect), bounds="%s" % k, **k))
    full = ["save", "vectors", "index", "restart"]
    c = ["end", "crashed"]
    add("histories", ops=5 if T else 4, kinds=full, intervals=[2], end=True)
    add("intervals", ops=3, kinds=full, intervals=[1, 2, 100], each=True)
    add("one-crash", c, ops=3, kinds=["save", "crash-save", "restart"], intervals=[2], each=False, end=True)
    add("crash-other", ops=3, kinds=["save", "crash-other"], intervals=[2], end=True)
    add("crash-vectors", ops=3, kinds=["save", "crash-other"], intervals=[1], other="vectors", end=True)
    add("restarts", ops=4, kinds=["save", "restart", "crash-restart"], intervals=[1], each=True)
    add("many", fn="many", saves=[1, 2, 5, 9, 10, 11, 12, 16, 17, 31, 33, 65], interval=100, last="none")
    add("many-crash", fn="many", saves=[9, 10, 11, 15, 16, 17], interval=3, last="crash")
    if T:
        add("hundred", fn="many", saves=[98, 99, 100, 101], interval=100, last="save")
        add("two-crashes", c, ops=4, kinds=["save", "crash-save", "index"], intervals=[1], end=True)
        add("all", c, ops=4, kinds=full + ["crash-save"], intervals=[1], end=True)
    return out
