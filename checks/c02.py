"""C02  disk storage: a map for arbitrary identifiers, confined to its directory"""
from .st import *  # noqa

PROPERTY = "C02"
ALPHA = "a_./%~ 2F:\\\u00e9\u2028"


def confined(ctx):
    for parent in ctx.fs.parents():
        ctx.check_that(len(parent) == 2 and bool(parent[0] == "data") and (bool(parent[1] == "vectors") or bool(parent[1] == "metadata")),
                       "files stay inside the data directory", [str(x) for x in parent])


def lookup(model, i):
    for j, (k, v) in enumerate(model):
        if bool(k == i):
            return j
    return None


def distinct(ctx):
    """any two identifiers are independent entries"""
    p = ctx.params
    st = make(ctx, "disk")
    ids = [ctx.str("id%d" % j, n, p["alpha"]) for j, n in enumerate(p["lens"])]
    model = []
    for j, i in enumerate(ids):
        v = ctx.vec("v", 1, -4, 4)
        md = {"from": j} if ctx.flip("md") else None
        ctx.check_that(bool(st.store_vector(i, v, md)), "store succeeds")
        at = lookup(model, i)
        if at is not None:
            model[at] = (i, (list(v), md))
        else:
            model.append((i, (list(v), md)))
    if p.get("then"):
        op = ctx.choice("op", p["then"])
        i = ctx.choice("target", ids)
        at = lookup(model, i)
        if op == "delete":
            ctx.check_that(bool(st.delete_vector(i)), "delete succeeds")
            del model[at]
            ctx.check_that(not st.delete_vector(i), "delete of a deleted id reports failure")
        elif op == "update":
            v = ctx.vec("u", 1, -4, 4)
            ctx.check_that(bool(st.update_vector(i, v, None)), "update succeeds")
            model[at] = (model[at][0], (list(v), None))
    if p.get("reopen"):
        st.close()
        st = make(ctx, "disk")
    for i in ids:
        at = lookup(model, i)
        check_entry(ctx, st, i, None if at is None else model[at][1], "")
    got = st.list_vectors()
    ctx.check_that(len(got) == len(model), "one listed id per stored id", len(got))
    for k, _ in model:
        ctx.check_that(any(bool(g == k) for g in got), "every stored id is listed as it was given")
    ctx.check_that(counted(st, "disk") == len(model), "count is the number of stored ids")
    confined(ctx)
    ctx.reach("end")
    if len(model) > 1:
        ctx.reach("distinct")


def unknown(ctx):
    """an identifier that was not stored is not found, updated or deleted"""
    p = ctx.params
    st = make(ctx, "disk")
    a, b = ctx.str("a", p["lens"][0], p["alpha"]), ctx.str("b", p["lens"][1], p["alpha"])
    ctx.assume(not bool(a == b))
    v = ctx.vec("v", 1, -4, 4)
    st.store_vector(a, v, {"k": 1})
    ctx.check_that(st.retrieve_vector(b) is None, "an id that was never stored is not found")
    ctx.check_that(not st.update_vector(b, ctx.vec("w", 1, -4, 4), None), "an id that was never stored is not updated")
    ctx.check_that(not st.delete_vector(b), "an id that was never stored is not deleted")
    check_entry(ctx, st, a, (list(v), {"k": 1}), "after operations on another id: ")
    ctx.check_that(counted(st, "disk") == 1 and len(st.list_vectors()) == 1, "count unchanged")
    confined(ctx)
    ctx.reach("end")


def history(ctx):
    p = ctx.params
    st = make(ctx, "disk")
    model, ids = {}, p["ids"]
    for j in range(p["ops"]):
        apply(ctx, st, "disk", model, ids, ctx.choice("op", p["kinds"]), p["d"], mds=p.get("mds"), dts=p.get("dts"))
    check_all(ctx, st, "disk", model, ids)
    ctx.observe("list", sorted(st.list_vectors()))
    ctx.reach("end")


def aliases(ctx):
    """what callers do with the objects they get changes nothing on disk"""
    st = make(ctx, "disk")
    v = ctx.vec("v", 2, -4, 4)
    md = {"n": {"x": [1]}}
    st.store_vector("a", v, md)
    model = {"a": (list(v), {"n": {"x": [1]}})}
    scramble(ctx, v, md)
    got = check_entry(ctx, st, "a", model["a"], "")
    scramble(ctx, got[0], got[1])
    check_all(ctx, st, "disk", model, ["a"], "after changing a result: ")
    st.close()
    st = make(ctx, "disk")
    check_all(ctx, st, "disk", model, ["a"], "reopened: ")
    ctx.reach("end")


def guards(ctx):
    E = ctx.mod("valori.exceptions").StorageError
    st = make(ctx, "disk", init=False)
    v = ctx.vec("v", 2, -4, 4)
    if ctx.flip("opened"):
        st.initialize()
        st.store_vector("a", v, {"k": 1})
        st.close()
        model = {"a": (list(v), {"k": 1})}
    else:
        model = {}
    for name, f in [("store", lambda: st.store_vector("b", v, None)), ("retrieve", lambda: st.retrieve_vector("a")),
                    ("delete", lambda: st.delete_vector("a")), ("update", lambda: st.update_vector("a", v, None)),
                    ("list", lambda: st.list_vectors())]:
        ctx.check_that(raises(f, E) is not None, "uninitialised storage refuses " + name)
    st.initialize()
    ctx.check_that(not st.store_vector("", v, None), "an empty id is refused")
    check_all(ctx, st, "disk", model, ["a", "b"], "after initialize: ")
    ctx.reach("end")


def scenarios(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("end",), alpha="a_./%:", **k):
        out.append(dict(name=name, fn=fn, alpha=alpha, expect=list(expect), bounds="ids over %r; %s" % (alpha, k), **k))
    add("ids-1-1", "distinct", ["end", "distinct"], lens=[1, 1], alpha=ALPHA)
    add("ids-1-1-then", "distinct", ["end", "distinct"], lens=[1, 1], then=["delete", "update"], alpha="a./_")
    add("ids-2-2", "distinct", ["end", "distinct"], lens=[2, 2], reopen=True, alpha="a./%")
    add("ids-1-3", "distinct", ["end", "distinct"], lens=[1, 3], alpha="/%2F")
    add("ids-3", "distinct", lens=[3], alpha="a./\\:")
    add("ids-1-2-then", "distinct", ["end", "distinct"], lens=[1, 2], then=["delete", "update"], alpha="a.*[")
    add("ids-1-3-dot", "distinct", ["end"], lens=[1, 3], then=["delete"], alpha="a.n")
    add("unknown-1-2", "unknown", lens=[1, 2], alpha="a.-*?[")
    add("unknown-1-1", "unknown", lens=[1, 1], alpha=ALPHA)
    add("unknown-2-2", "unknown", lens=[2, 2], alpha="a./_")
    add("unknown-1-3-dot", "unknown", lens=[1, 3], alpha="a./")
    add("history", "history", ops=3, d=1, ids=["a/b", "a_b"], kinds=["store", "update", "delete", "retrieve"], mds=["none", "nested"])
    add("types", "history", ops=2, d=1, ids=["a"], kinds=["store", "update"], mds=["none"], dts=["float64", "float32", "int64"])
    add("refused", "history", ops=3, d=1, ids=["a"], kinds=["store", "refused", "delete"], mds=["none", "flat"])
    add("metadata", "history", ops=2, d=1, ids=["a"], kinds=["store"])
    add("aliases", "aliases")
    add("twins", "twins", kind="disk")
    add("crowd", "crowd", kind="disk", n=130, where=[0, 129], ops=[[], ["store"], ["delete-many", "update"]])
    add("guards", "guards")
    if T:
        add("ids-3-3", "distinct", ["end", "distinct"], lens=[3, 3], alpha="/%2F")
        add("ids-1-1-1", "distinct", ["end", "distinct"], lens=[1, 1, 1], then=["delete", "update"], reopen=True)
        add("ids-2-2-del", "distinct", ["end", "distinct"], lens=[2, 2], then=["delete", "update"], reopen=True, alpha="a./_")
        add("ids-2-2-all", "distinct", ["end", "distinct"], lens=[2, 2], alpha=ALPHA)
        add("unknown-1-3", "unknown", lens=[1, 3], alpha="/%2F")
        add("unknown-2-2-all", "unknown", lens=[2, 2], alpha=ALPHA)
        add("unknown-2-4", "unknown", lens=[2, 4], alpha="./")
        add("history-4", "history", ops=4, d=1, ids=["..", "a%"], kinds=["store", "update", "delete"], mds=["none", "nested"])
    return out
