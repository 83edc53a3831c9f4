"""C05  disk storage survives a crash at any write"""
from .st import *  # noqa

PROPERTY = "C05"
ASSUMPTIONS = ["a crash keeps every earlier completed file-system step (no reordering, no lost directory entries); the step it hits may be lost or, for a write, torn"]


def crash(ctx):
    p = ctx.params
    kind = p["kind"]
    st = make(ctx, kind, 1)
    model = {}
    other = "b"
    if ctx.flip("other exists"):
        v = ctx.vec("b", 1, -4, 4)
        md = {"b": [1]} if ctx.flip("b md") else None
        st.store_vector(other, v, md)
        model[other] = (list(v), md)
    old = None
    if ctx.flip("target exists"):
        v = ctx.vec("old", 1, -4, 4)
        md = {"m": "old"} if ctx.flip("old md") else None
        st.store_vector("a", v, md)
        old = (list(v), md)
    new = None
    op = ctx.choice("op", p["kinds"])
    v = ctx.vec("new", 1, -4, 4)
    md = {"m": "new"} if op != "delete" and ctx.flip("new md") else None
    new = (list(v), md)
    ctx.fs.arm(p.get("steps", 9))
    done = ctx.fs.run(lambda: st.store_vector("a", v, md) if op == "store" else st.update_vector("a", v, md) if op == "update" else st.delete_vector("a"))
    st = make(ctx, kind, 1)
    for rnd in range(2):
        check_entry(ctx, st, other, model.get(other), "uninvolved id: ")
        got = st.retrieve_vector("a")
        listed = st.list_vectors()
        ctx.check_that(len(listed) == len(set(listed)) and set(listed) <= {"a", "b"}, "list has only real ids", listed)
        ctx.check_that(("a" in listed) == (got is not None) and ("b" in listed) == (other in model), "listed ids are the retrievable ones", listed)
        ctx.check_that(counted(st, kind) == len(listed), "count agrees with the list")
        if op == "delete":
            allowed = [old] + ([None] if True else [])
        elif op == "update" and old is None:
            allowed = [None]
        else:
            allowed = [old, new]
        if done:
            allowed = [None] if op == "delete" else [new] if op == "store" or old is not None else [None]
        if got is None:
            ctx.check_that(None in allowed, "an entry is not lost by an interrupted operation")
        else:
            cand = [x for x in allowed if x is not None]
            ctx.check_that(OR([veq(got[0], x[0]) for x in cand]), "the vector is one that was stored under the id", list(got[0]))
            if old is None or done:
                ctx.check_that(same(got[1], new[1]) if (got[1] is not None and new[1] is not None) else (got[1] is None) == (new[1] is None),
                               "a new entry is complete with its metadata", got[1])
            else:
                ctx.check_that(OR([got[1] is None and x[1] is None or got[1] is not None and x[1] is not None and same(got[1], x[1]) for x in cand] + [op == "delete" and False]),
                               "the metadata is one that was stored under the id", got[1])
    if not done:
        ctx.reach("crashed")
    # the storage is fully usable afterwards
    w = ctx.vec("w", 1, -4, 4)
    md2 = {"m": "again"} if ctx.flip("again md") else None
    ctx.check_that(bool(st.store_vector("a", w, md2)), "store succeeds after recovery")
    model["a"] = (list(w), md2)
    check_all(ctx, st, kind, model, ["a", "b"], "after recovery: ")
    st.delete_vector("a")
    del model["a"]
    check_all(ctx, st, kind, model, ["a", "b"], "after recovery and delete: ")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for kind in ("disk", "hybrid"):
        for op in ("store", "update", "delete"):
            out.append(dict(name="%s-%s" % (kind, op), fn="crash", kind=kind, kinds=[op], expect=["end", "crashed"],
                            bounds="two ids; crash at each of the first 9 file-system steps of one operation, torn or not"))
    return out
