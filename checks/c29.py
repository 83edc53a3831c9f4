"""C29  decorators do not change what they wrap"""
from .mon import *  # noqa

PROPERTY = "C29"
ASSUMPTIONS = ["the clock and the process readings are supplied by the harness; readings themselves do not fail"]


class Odd(Exception):
    """an error that is false and compares unequal to everything"""
    def __bool__(self): return False
    def __eq__(self, o): return False
    __hash__ = Exception.__hash__


class Mum(Exception):
    """an error that cannot be shown"""
    def __str__(self): raise RuntimeError("not to be shown")


class Stop(BaseException):
    pass


ERRORS = [ValueError("v"), ImportError("psutil"), ModuleNotFoundError("No module named 'psutil'", name="psutil"), KeyError("k"), TypeError("f() takes 1 positional argument"),
          AttributeError("__name__"), StopIteration(7), KeyboardInterrupt(), SystemExit(3), GeneratorExit(), Stop("s"), Mum(), Odd("o"), RuntimeError(), NameError("psutil"),
          OSError(2, "x"), MemoryError(), AssertionError("a"), NotImplementedError(), UnicodeDecodeError("utf-8", b"x", 0, 1, "r"), ZeroDivisionError("d")]


class Falsy:
    def __bool__(self): return False


class Mute:
    """a value that cannot be looked at"""
    shape = dtype = property(lambda self: self.no())
    def no(self, *a): raise RuntimeError("not to be looked at")
    __str__ = __repr__ = __len__ = __bool__ = __eq__ = __iter__ = __getitem__ = __format__ = __sizeof__ = __copy__ = __deepcopy__ = __reduce_ex__ = no
    __hash__ = None


MUTE, LONG, BIG, ITER = Mute(), "y" * 30000, {i: list(range(40)) for i in range(100)}, iter([1, 2])


def results(ctx, x):
    return [MUTE, LONG, BIG, ITER, b"z" * 5000, [[1.0] * 600] * 3, ctx.np.zeros((40, 30)), ctx.np.array([]), float("nan"), Mute, None, 0, "", [], Falsy(), ctx.np.zeros((2, 2)), ctx.np.array([x, x]), {"a": x}, x, (1, None), ValueError("returned"), True]


def decorators(ctx):
    h = ctx.mod("valori.utils.helpers")
    d = ctx.mod("valori.utils.debugging")

    def profiled(f, name="op"):
        prof = d.PerformanceProfiler()

        def wrapped(*a, **k):
            with prof.measure(name):
                return f(*a, **k)
        wrapped.__name__, wrapped.__doc__ = f.__name__, f.__doc__
        return wrapped
    return {"timing": h.timing_decorator, "memory": h.memory_usage_decorator, "debug": d.debug_function, "profiler": profiled}


def names(w):
    """every name the wrapper itself could take out of its keyword arguments"""
    code = getattr(w, "__code__", None)
    if code is None:
        return []
    texts = [c for c in code.co_consts if isinstance(c, str) and c.isidentifier()]
    return list(dict.fromkeys(list(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]) + texts))[:40]


def wrapping(ctx):
    """called once, same arguments, same result, same error"""
    p = ctx.params
    mon = Monitor(ctx, psutil=p["psutil"])
    D = decorators(ctx)
    w, calls, x = None, [], ctx.real("x", -3, 3)
    limit = ctx.real("limit", -3, 3)
    R = results(ctx, x)
    plan = []

    def target(*a, **k):
        """what it does"""
        calls.append((a, k))
        mon.t += plan[0][2]
        mon.mem += plan[0][3]
        kind, n = plan[0][:2]
        if kind == "depends":
            if a[0] > limit:
                raise n
            return R[18]
        if kind == "raise":
            raise n
        return n
    w = target
    for n in p["stack"]:
        w = D[n](w)
    ctx.check_that(w.__name__ == "target" and w.__doc__ == target.__doc__, "name and documentation kept", (w.__name__, w.__doc__))
    args = [ctx.real("a", -3, 3), [1], MUTE]
    for j in range(p["calls"]):
        o = to_int(ctx.int("outcome%d" % j, 0, len(ERRORS) + len(R)))
        step = (ctx.real("time%d" % j, -1, 5), ctx.real("mem%d" % j, -8, 8))
        plan[:] = [(("raise", ERRORS[o]) if o < len(ERRORS) else ("depends", ERRORS[0]) if o == len(ERRORS) else ("return", R[o - len(ERRORS) - 1])) + step]
        na = to_int(ctx.int("arguments%d" % j, 1 if o == len(ERRORS) else 0, 3)) if p["argvar"] else 1
        kw = {"func": x, "self": args[1], "k": limit, "m": MUTE, "arr": ctx.np.zeros((3, 2))} if p["argvar"] and ctx.flip("keywords%d" % j) else {}
        if kw:
            kw.update((n, x) for n in names(w) if n not in kw)
        del calls[:]
        res, exc = attempt(lambda: w(*args[:na], **kw), *[type(e) for e in ERRORS])
        ctx.check_that(len(calls) == 1, "called exactly once", len(calls))
        a, k = calls[0]
        ctx.check_that(len(a) == na and all(u is v for u, v in zip(a, args)), "same positional arguments", (len(a), na))
        ctx.check_that(list(k) == list(kw) and all(k[n] is kw[n] for n in kw), "same keyword arguments", list(k))
        kind, n = plan[0][:2]
        if kind == "depends":
            bad = a[0] > limit
            ctx.check_that(IFF(bad, exc is not None), "fails exactly when the function fails", exc)
            kind, n = ("raise", n) if exc is not None else ("return", R[18])
        if kind == "raise":
            ctx.check_that(exc is n, "same error", (type(exc), type(n)))
        else:
            ctx.check_that(exc is None and res is n, "same result", (type(exc), str(type(res))))
    ctx.reach("end")


def recursion(ctx):
    """a wrapped function that calls itself through its wrapper"""
    p = ctx.params
    mon = Monitor(ctx, psutil=p["psutil"])
    D = decorators(ctx)
    depth = to_int(ctx.int("depth", 0, p["depth"]))
    fail = to_int(ctx.int("fails at", 0, p["depth"] + 1))
    e = ERRORS[to_int(ctx.int("error", 0, len(ERRORS) - 1))] if fail <= depth else None
    calls = []

    def target(n, add=0):
        calls.append(n)
        mon.t += add
        if n == fail:
            raise e
        return add if n == depth else w(n + 1, add=add) + 1
    w = D[p["deco"]](target)
    x = ctx.real("x", -3, 3)
    res, exc = attempt(lambda: w(0, add=x), *[type(q) for q in ERRORS])
    ctx.check_that(calls == list(range(min(fail, depth) + 1)), "every level runs once", calls)
    if e is not None:
        ctx.check_that(exc is e, "same error", type(exc))
    else:
        ctx.check_that(exc is None, "same result", type(exc))
        ctx.check_that(eq(res, x + depth), "same result", res)
    ctx.reach("end")


def block(ctx):
    """a measured block: errors pass, and also nested, re-used and re-raised"""
    p = ctx.params
    mon = Monitor(ctx, psutil=p["psutil"])
    prof = ctx.mod("valori.utils.debugging").PerformanceProfiler()
    log = []
    i, j = to_int(ctx.int("inner", 0, len(ERRORS))), to_int(ctx.int("outer", 0, len(ERRORS))) if p["outer"] else len(ERRORS)
    swallow = ctx.flip("inner error handled")

    def body():
        with prof.measure("a"):
            log.append(1)
            try:
                with prof.measure("a" if ctx.flip("same name") else "b"):
                    log.append(2)
                    mon.t += ctx.real("t", 0, 4)
                    if i < len(ERRORS):
                        raise ERRORS[i]
            except type(ERRORS[i]) if i < len(ERRORS) else ():
                log.append(3)
                if not swallow:
                    raise
            log.append(4)
            if j < len(ERRORS):
                raise ERRORS[j]
        return 5
    res, exc = attempt(body, *[type(e) for e in ERRORS])
    inner = i < len(ERRORS)
    ctx.check_that(log == ([1, 2] + [3] * inner + ([4] if swallow or not inner else [])), "every statement of the block runs once", log)
    if inner and not swallow:
        ctx.check_that(exc is ERRORS[i], "same error", type(exc))
    elif j < len(ERRORS):
        ctx.check_that(exc is ERRORS[j], "same error", type(exc))
    else:
        ctx.check_that(exc is None and res == 5, "same result", type(exc))
    ctx.reach("end")


def scenarios(tier):
    out = []
    th = tier != "quick"
    def wrap(s, ps, calls, argvar, q):
        out.append({"name": "+".join(s) + q, "fn": "wrapping", "stack": s, "psutil": ps, "calls": calls, "argvar": argvar, "expect": ["end"],
                    "bounds": "%d call(s), every one of %d results and %d errors incl. BaseExceptions%s" % (calls, 23, len(ERRORS), ", 0..3 positional and 0/all keyword arguments" if argvar else "")})
    for ps in (True, False):
        q = "" if ps else " without psutil"
        for s in (["timing"], ["memory"], ["debug"], ["profiler"], ["timing", "memory"], ["debug", "profiler"], ["memory", "debug"]) if ps else (["memory"], ["profiler"], ["memory", "timing"]):
            wrap(s, ps, 1, th or len(s) == 1, q)
            if len(s) == 1:
                wrap(s, ps, 2, False, q + " twice")
        for d in ("timing", "memory", "debug", "profiler") if ps else ("memory", "profiler"):
            out.append({"name": "recursion " + d + q, "fn": "recursion", "deco": d, "psutil": ps, "depth": 3 if th else 2, "expect": ["end"], "bounds": "depth <= %d" % (3 if th else 2)})
        out.append({"name": "block" + q, "fn": "block", "psutil": ps, "outer": th or ps, "expect": ["end"], "bounds": "two nested blocks, every error at both"})
    return out
