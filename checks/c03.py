"""C03  disk and hybrid storage survive close and reopen"""
from .st import *  # noqa

PROPERTY = "C03"


def history(ctx):
    p = ctx.params
    kind = p["kind"]
    st = make(ctx, kind, p.get("limit", 1))
    model, ids = {}, p["ids"]
    for j in range(p["ops"]):
        op = ctx.choice("op", p["kinds"])
        if op == "reopen":
            how = ctx.choice("how", ["close+new", "new", "close+same"])
            if how.startswith("close"):
                st.close()
            if how == "close+same":
                st.initialize()
            else:
                st = make(ctx, kind, p.get("limit", 1))
            ctx.check_that(counted(st, kind) == len(model), "reopened storage counts its entries", counted(st, kind))
            ctx.reach("reopened")
        else:
            apply(ctx, st, kind, model, ids, op, p["d"], mds=p.get("mds"), dts=p.get("dts"))
    st.close()
    st = make(ctx, kind, p.get("limit", 1))
    check_all(ctx, st, kind, model, ids, "reopened: ")
    st.close()
    st = make(ctx, p.get("other", kind), 2)
    check_all(ctx, st, p.get("other", kind), model, ids, "reopened again: ")
    ctx.observe("list", sorted(st.list_vectors()))
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        k.setdefault("d", 1)
        k.setdefault("ids", ["a", "b"])
        k.setdefault("expect", ["end", "reopened"] if "reopen" in k["kinds"] else ["end"])
        out.append(dict(name=name, fn="history", bounds="%s" % {a: b for a, b in k.items() if a not in ("expect", "mds")}, **k))
    full = ["store", "update", "delete", "retrieve", "reopen"]
    for kind in ("disk", "hybrid"):
        add(kind + "-metadata", kind=kind, ops=2, kinds=["store", "reopen"], d=2)
        add(kind, kind=kind, ops=3, kinds=full, mds=["none", "nested"])
        add(kind + "-long", kind=kind, ops=5, ids=["a"], kinds=["store", "delete", "reopen"], mds=["flat"])
    add("hybrid-zero", kind="hybrid", limit=0, ops=2, kinds=full, mds=["none", "nested"])
    add("disk-as-hybrid", kind="disk", other="hybrid", ops=2, kinds=full, mds=["none", "flat"])
    add("hybrid-as-disk", kind="hybrid", other="disk", ops=2, kinds=full, mds=["none", "flat"])
    for kind in ("disk", "hybrid"):
        add(kind + "-types", kind=kind, ops=1, ids=["a"], kinds=["store"], mds=["none", "odd"], dts=["float64", "float32", "int64"])
        out.append(dict(name=kind + "-twins", fn="twins", kind=kind, then=["none"], reopen=True, expect=["end"], bounds="pairs of %d confusable ids" % len(TWINS)))
        out.append(dict(name=kind + "-crowd", fn="crowd", kind=kind, n=110, limit=10, where=[0, 109], expect=["end"], ops=[["reopen"], ["update", "reopen"], ["delete-many", "reopen", "store"]],
                        bounds="110 entries, one arbitrary, reopened"))
    if T:
        for kind in ("disk", "hybrid"):
            add(kind + "-4", kind=kind, ops=4, kinds=full, mds=["none", "nested"])
            add(kind + "-3ids", kind=kind, ops=4, ids=["a", "b/c", "b_c"], kinds=["store", "delete", "reopen"], mds=["none", "flat"], limit=2)
    return out
