"""Concrete replays under the interpreter the project is installed in."""
import builtins
import importlib
import io
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)

from engine import conc, core  # noqa


class Hang(BaseException):
    pass


def run_job(mod, scen, inputs, cpu=25, wall=45):
    """a run counts as hanging when it has used that much processor time, or (sleeping, deadlocked) that much wall
    time; run.py runs such a job once more, alone and with larger limits, before it believes it"""
    for n in [n for n in sys.modules if n == "valori" or n.startswith("valori.")]:
        del sys.modules[n]
    ctx = conc.ConcCtx(scen, inputs, scen.get("opts", {}))
    core.set_ctx(ctx)
    ctx.mod = importlib.import_module
    ctx.stub = lambda name, obj: sys.modules.__setitem__(name, obj) if obj is not None else None
    ctx.absent = lambda name: sys.modules.__setitem__(name, None)
    saved = conc.install_env(ctx, getattr(mod, "ENV", {}))
    fs = conc.RealFS(ctx)
    fs.install()
    ctx.fs = fs
    out = io.StringIO()
    so = sys.stdout
    sys.stdout = out
    mods0 = dict(sys.modules)

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        if scen.get("yields"):
            from engine import sched, yields
            sched.install(ctx)
            builtins.__rt_yield__ = sched.point
            sys.meta_path.insert(0, yields.Finder(scen["yields"]))
        if hasattr(mod, "setup_conc"):
            mod.setup_conc(ctx)
        getattr(mod, scen["fn"])(ctx)
        r = {"status": "ok"}
    except conc.ConcViolation as v:
        r = {"status": "violation", "label": v.label, "detail": str(v.detail)[:600]}
    except core.Infeasible:
        r = {"status": "infeasible"}
    except core.PathEnd:
        r = {"status": "ok"}
    except conc.Crash:
        r = {"status": "crash-escaped"}
    except Hang:
        r = {"status": "hang", "label": "hang", "detail": "no result within %ds of processor time or %ds" % (cpu, wall)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/valori/" in f.filename]
        # a harness that cannot use what it was given (None for a list, a missing key) has seen a wrong result
        useless = isinstance(e, (TypeError, KeyError, IndexError, ValueError)) or (
            isinstance(e, AttributeError) and type(e.obj).__module__ == "builtins")
        st = "exception" if (where or useless or getattr(e, "_from_sut", False)) else "harness-exception"
        r = {"status": st, "label": "exception:" + type(e).__name__,
             "detail": "%s @ %s" % (str(e)[:300], "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "%s:%d" % (tb[-1].filename, tb[-1].lineno))}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = so
        sys.meta_path[:] = [f for f in sys.meta_path if type(f).__module__ != "engine.yields"]
        fs.remove()
        for o, n, v in reversed(saved):
            setattr(o, n, v)
        for n in list(sys.modules):
            if n not in mods0 and not n.startswith("valori") and not n.startswith(("sklearn", "numpy", "scipy", "joblib")):
                pass
        for n, m in mods0.items():
            if sys.modules.get(n) is not m:
                sys.modules[n] = m
    r["obs"] = ctx.obs
    r["missing"] = ctx.missing
    r["labels"] = ctx.labels
    return r


def main():
    job = json.load(open(sys.argv[1]))
    for m in ("numpy", "scipy.stats", "sklearn.metrics.pairwise", "sklearn.cluster", "sklearn.preprocessing", "sklearn.decomposition",
              "concurrent.futures.thread", "uuid", "tempfile"):
        importlib.import_module(m)
    mod = importlib.import_module("checks." + job["check"].lower())
    scens = mod.scenarios(job["tier"])
    with open(sys.argv[2], "w") as f:
        hangs = 0
        lim = job.get("limits") or [25, 45]
        for j in job["jobs"]:
            # after two of them the rest is only given a short time: all are run again anyway
            r = run_job(mod, scens[j["scenario"]], j["inputs"], *(lim if hangs < 2 else [8, 15]))
            hangs += r["status"] == "hang"
            try:
                line = json.dumps(r)
            except (TypeError, ValueError):
                line = json.dumps(json.loads(json.dumps(r, default=str)))
            f.write(line + "\n")
            f.flush()


if __name__ == "__main__":
    main()
