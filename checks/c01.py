"""C01  memory storage: an isolated map"""
from .st import *  # noqa

PROPERTY = "C01"


def history(ctx):
    p = ctx.params
    st = make(ctx, "memory")
    model, ids = {}, p["ids"]
    for j in range(p["ops"]):
        apply(ctx, st, "memory", model, ids, ctx.choice("op", p["kinds"]), p["d"], mds=p.get("mds"), dts=p.get("dts"))
    check_all(ctx, st, "memory", model, ids)
    for i in ids:                     # handed-out data is not the stored data
        got = st.retrieve_vector(i)
        if got is not None:
            scramble(ctx, got[0], got[1])
    check_all(ctx, st, "memory", model, ids, "after mutating results: ")
    if model:
        ctx.reach("entries")
    ctx.observe("list", st.list_vectors())
    ctx.reach("end")


def guards(ctx):
    """nothing works before initialize and after close; close and initialize empty it"""
    E = ctx.mod("valori.exceptions").StorageError
    st = make(ctx, "memory", init=False)
    v = ctx.vec("v", 2, -4, 4)
    opened = ctx.flip("opened")
    if opened:
        st.initialize()
        ctx.check_that(bool(st.store_vector("a", v, {"k": 1})), "store succeeds")
        st.close()
    for name, f in [("store", lambda: st.store_vector("a", v, None)), ("retrieve", lambda: st.retrieve_vector("a")),
                    ("delete", lambda: st.delete_vector("a")), ("update", lambda: st.update_vector("a", v, None)),
                    ("list", lambda: st.list_vectors())]:
        ctx.check_that(raises(f, E) is not None, "uninitialised storage refuses " + name)
    st.initialize()
    check_all(ctx, st, "memory", {}, ["a"], "after initialize: ")
    ctx.check_that(not st.store_vector("", v, None), "an empty id is refused")
    ctx.check_that(st.list_vectors() == [], "a refused id is not stored")
    st.store_vector("a", v, None)
    check_all(ctx, st, "memory", {"a": (list(v), None)}, ["a", "b"], "reopened: ")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn="history", **k):
        k.setdefault("d", 1)
        k.setdefault("ids", ["a", "b"])
        k.setdefault("kinds", ["store", "update", "delete", "retrieve"])
        k.setdefault("expect", ["end", "entries"])
        out.append(dict(name=name, fn=fn, bounds="%s" % {a: b for a, b in k.items() if a not in ("expect", "mds")}, **k))
    add("two-ops", ops=2, d=2)
    add("three-ops", ops=3, mds=["none", "nested"])
    add("four-writes", ops=4 , kinds=["store", "delete"], mds=["none", "nested"])
    add("one-id", ops=4, ids=["a"], mds=["none", "nested"])
    add("guards", "guards", expect=["end"])
    add("types", ops=2, ids=["a"], kinds=["store", "update"], mds=["none"], dts=["float64", "float32", "int64"], d=1)
    add("refused", ops=3, kinds=["store", "refused", "retrieve"], mds=["none", "flat"], expect=["end"])
    add("metadata", ops=1, ids=["a"], kinds=["store"], d=1)
    add("twins", "twins", kind="memory", expect=["end"])
    add("crowd", "crowd", kind="memory", n=130, where=[0, 60, 129], ops=[[], ["store"], ["update"], ["delete"], ["delete", "store"], ["delete-many", "update"]], expect=["end"])
    add("crowd-1030", "crowd", kind="memory", n=1030, where=[1029], ops=[["update"]], opts={"path_timeout": 90}, expect=["end"])
    if T:
        add("four-ops", ops=4, mds=["none", "nested"])
        add("three-ids", ops=4, ids=["a", "b", "c"], kinds=["store", "update", "delete"], mds=["none", "flat"])
        add("six-writes", ops=6, ids=["a", "b"], kinds=["store", "delete"], mds=["nested"])
    return out
