"""C04  hybrid storage: one coherent map with a bounded memory tier"""
from .st import *  # noqa

PROPERTY = "C04"


def history(ctx):
    p = ctx.params
    st = make(ctx, "hybrid", p["limit"])
    model, ids = {}, p["ids"]
    for j in range(p["ops"]):
        apply(ctx, st, "hybrid", model, ids, ctx.choice("op", p["kinds"]), p["d"], mds=p.get("mds"), dts=p.get("dts"))
    check_all(ctx, st, "hybrid", model, ids, order=ids if ctx.flip("forward") else ids[::-1])
    n = st.get_stats()["memory"]["vector_count"]
    ctx.check_that(n <= max(0, p["limit"]), "memory tier within its limit after reads", n)
    mem = st.memory_storage.list_vectors()
    ctx.check_that(all(i in model for i in mem), "nothing deleted is left in memory", mem)
    check_all(ctx, st, "hybrid", model, ids, "second read: ")
    for i in ids:
        got = st.retrieve_vector(i)
        if got is not None:
            scramble(ctx, got[0], got[1])
    check_all(ctx, st, "hybrid", model, ids, "after mutating results: ")
    ctx.observe("list", sorted(st.list_vectors()))
    ctx.reach("end")
    if len(model) > p["limit"]:
        ctx.reach("overflow")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("d", 1)
        k.setdefault("ids", ["a", "b"])
        k.setdefault("expect", ["end", "overflow"])
        out.append(dict(name=name, fn="history", bounds="%s" % {a: b for a, b in k.items() if a not in ("expect", "mds")}, **k))
    full = ["store", "update", "delete", "retrieve"]
    add("limit-1", limit=1, ops=3, kinds=full, mds=["flat"])
    add("limit-1-meta", limit=1, ops=2, kinds=full)
    add("limit-0", limit=0, ops=2, kinds=full, mds=["none", "nested"])
    add("limit-2", limit=2, ops=3, ids=["a", "b", "c"], kinds=["store", "retrieve"], mds=["flat"])
    add("limit-2-del", limit=2, ops=4, ids=["a", "b"], kinds=["store", "delete"], mds=["flat"], expect=["end"])
    add("limit-1-long", limit=1, ops=4, kinds=["store", "delete", "retrieve"], mds=["flat"])
    add("refused", limit=1, ops=3, ids=["a"], expect=["end"], kinds=["store", "refused", "retrieve"], mds=["none", "flat"])
    add("limit-negative", limit=-1, ops=2, kinds=full, mds=["flat"])
    add("types", limit=1, ops=2, ids=["a"], kinds=["store", "update"], mds=["none"], dts=["float64", "float32", "int64"], expect=["end"])
    out.append(dict(name="twins", fn="twins", kind="hybrid", then=["delete", "update"], expect=["end"], bounds="pairs of %d confusable ids" % len(TWINS)))
    for lim in (7, 10, 60):
        out.append(dict(name="crowd-%d" % lim, fn="crowd", kind="hybrid", n=64, limit=lim, where=[0, 63], expect=["end"], ops=[["read"], ["store", "read"], ["delete-many", "read", "update"], ["delete", "store"]],
                        bounds="64 entries, one arbitrary, memory limit %d" % lim))
    if T:
        add("limit-1-4", limit=1, ops=4, kinds=full, mds=["none", "flat"])
        add("limit-2-4", limit=2, ops=4, ids=["a", "b", "c"], kinds=["store", "update", "retrieve", "delete"], mds=["flat"])
        add("limit-1-5", limit=1, ops=5, kinds=["store", "delete", "retrieve"], mds=["flat"])
    return out
