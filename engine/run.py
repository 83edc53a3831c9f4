"""Check driver:  python3-vt engine/run.py C08 [--tier quick|thorough] [--scenario name]
                  python3-vt engine/run.py --replay FILE
"""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
SRC = os.environ.get("VALORI_SRC", "/repo/src")
REPLAY_PY = os.environ.get("VALORI_PY", "/opt/venv/bin/python")


def load_check(cid):
    return importlib.import_module("checks." + cid.lower())


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------
class PathTimeout(Exception):
    pass


def evaluate(v, m, ctx):
    """concrete value of an observation under model m"""
    import z3
    from engine import core, nparr, symstr, symfs
    if isinstance(v, core.SymReal):
        return core.z3num(m.eval(v.z, model_completion=True))
    if isinstance(v, core.SymInt):
        return m.eval(v.z, model_completion=True).as_long()
    if isinstance(v, core.SymBool):
        return z3.is_true(m.eval(v.z, model_completion=True))
    if isinstance(v, symstr.SymStr):
        return "".join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()) for c in v.c)
    if isinstance(v, core.Sym):
        return "<*>"
    import numpy as np
    if isinstance(v, np.ndarray):
        return [evaluate(x, m, ctx) for x in v.tolist()]
    if isinstance(v, np.generic):
        return evaluate(v.item(), m, ctx)
    if isinstance(v, (list, tuple)):
        return [evaluate(x, m, ctx) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((evaluate(x, m, ctx) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(evaluate(k, m, ctx)): evaluate(x, m, ctx) for k, x in v.items()}
    if isinstance(v, symfs.SymPath):
        return "<*>"
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    return "<%s>" % type(v).__name__


def touch(v):
    from engine import core
    import numpy as np
    if isinstance(v, core.SymReal):
        v.z
    elif isinstance(v, np.ndarray):
        for x in v.reshape(-1).tolist():
            touch(x)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            touch(x)
    elif isinstance(v, dict):
        for x in v.values():
            touch(x)


def fn_names(frame_codes):
    return sorted(frame_codes)


def run_path(mod, scen, prefix, stats, want_trace, profile, opts):
    from engine import core, loader, symfs
    core._SNAP  # noqa
    ctx = core.SymCtx(prefix, scen, stats, opts)
    core.set_ctx(ctx)
    codes = set()

    def alarm(*a):
        raise core.Unsupported("path time limit")
    signal.signal(signal.SIGALRM, alarm)
    res = {"status": "done", "label": None}
    err = None
    signal.setitimer(signal.ITIMER_REAL, opts.get("path_timeout", 20))
    try:
        world = loader.World(ctx, yields=scen.get("yields", ()), overrides=None)
        ctx.world = world
        ctx.mod = world.load
        ctx.stub = lambda name, obj: world.env.__setitem__(name, obj)
        ctx.absent = lambda name: world.env.__setitem__(name, None)
        if scen.get("yields"):
            from engine import sched
            sched.install(ctx)
        if hasattr(mod, "setup_sym"):
            mod.setup_sym(ctx, world)
        if profile:
            def prof(fr, ev, arg):
                if ev == "call" and fr.f_code.co_filename.startswith(SRC):
                    codes.add(os.path.relpath(fr.f_code.co_filename, SRC) + ":" + fr.f_code.co_qualname)
            sys.setprofile(prof)
        try:
            getattr(mod, scen["fn"])(ctx)
        finally:
            sys.setprofile(None)
    except core.Violation as v:
        res["status"], res["label"], res["detail"] = "violation", v.label, repr(v.detail[0])[:300]
        res["inputs"] = v.detail[1]
    except core.Infeasible:
        res["status"] = "infeasible"
    except core.PathEnd:
        pass
    except core.Unsupported as e:
        res["status"], res["why"] = "unsupported", str(e)
        if opts.get("debug"):
            traceback.print_exc()
    except symfs.Crash:
        res["status"], res["why"] = "unsupported", "crash escaped the harness"
    except RecursionError as e:
        res["status"], res["why"] = "unsupported", "recursion"
    except Exception as e:
        err = e
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if SRC in f.filename]
        res["status"] = "violation"
        res["label"] = "exception:" + type(e).__name__
        res["detail"] = (str(e) if not isinstance(e, KeyError) else repr(e))[:200] + " @ " + (
            "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "harness:%d %s" % (tb[-1].lineno, tb[-1].filename))
        if opts.get("debug"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        signal.setitimer(signal.ITIMER_REAL, 30)
        if err is not None:
            m = ctx.full_model()
            if isinstance(m, dict):
                res["inputs"] = m
            elif m == "unsat":
                res["status"] = "infeasible"
            else:
                res["status"], res["why"] = "unsupported", "no model for an exception path (%s)" % res["label"]
        elif res["status"] == "unsupported":
            m = ctx.full_model(timeout=1500)
            if isinstance(m, dict):
                res["inputs"] = m
            elif m == "unsat":
                res["status"] = "infeasible"
        elif res["status"] == "done" and want_trace:
            for _, v in ctx.obs:
                touch(v)
            m = ctx.full_model(timeout=2500)
            if isinstance(m, dict):
                res["inputs"] = m
                res["obs"] = [(l, evaluate(v, ctx.last_model, ctx)) for l, v in ctx.obs]
            elif m == "unsat":
                res["status"] = "infeasible"
    except core.Unsupported:
        pass
    except Exception as e:
        if opts.get("debug"):
            traceback.print_exc()
        res.pop("obs", None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["labels"] = ctx.labels if res["status"] != "infeasible" else {}
    res["inc"] = ctx.inconclusive
    res["alts"] = ctx.alternatives
    res["branches"] = len(ctx.decisions)
    res["notes"] = ctx.notes
    res["codes"] = fn_names(codes)
    core.set_ctx(None)
    return res


def explore(task):
    cid, si, tier, stack, chunk_s, trace_left, first, opts = task
    mod = load_check(cid)
    scen = mod.scenarios(tier)[si]
    opts = dict(opts, **scen.get("opts", {}))
    stats = collections.Counter()
    out = {"si": si, "paths": 0, "feasible": 0, "viol": [], "unsup": collections.Counter(), "unsup_in": [], "traces": [],
           "labels": collections.Counter(), "inc": collections.Counter(), "codes": [], "notes": [], "maxdepth": 0, "infeasible": 0}
    t0 = time.time()
    rnd = random.Random(opts["seed"] * 1000003 + si * 97 + len(stack[0]) if stack else 0)
    n = 0
    while stack and (time.time() - t0 < chunk_s or n == 0):
        prefix = stack.pop()
        want = trace_left > 0 and (n < 2 or rnd.random() < 0.12)
        r = run_path(mod, scen, prefix, stats, want, first and n == 0, opts)
        n += 1
        stack.extend(r["alts"])
        out["paths"] += 1
        out["maxdepth"] = max(out["maxdepth"], r["branches"])
        out["labels"].update(r["labels"])
        out["inc"].update(r["inc"])
        if r["codes"]:
            out["codes"] = r["codes"]
        for x in r["notes"]:
            if x not in out["notes"] and len(out["notes"]) < 5:
                out["notes"].append(x)
        if r["status"] == "infeasible":
            out["infeasible"] += 1
        else:
            out["feasible"] += 1
        if r["status"] == "violation":
            if "inputs" in r:
                out["viol"].append((r["label"], r.get("detail"), r["inputs"]))
                if len([1 for v in out["viol"] if v[0] == r["label"]]) > 5:
                    out["viol"].pop()
        elif r["status"] == "unsupported":
            out["unsup"][r["why"]] += 1
            if "inputs" in r and len(out["unsup_in"]) < 4:
                out["unsup_in"].append((r["why"], r["inputs"]))
        elif "obs" in r:
            trace_left -= 1
            out["traces"].append((r["inputs"], r["obs"]))
    out["stack"] = stack
    out["cpu"] = time.time() - t0
    out["stats"] = dict(stats)
    return out


# --------------------------------------------------------------------------
def replay_jobs(cid, tier, jobs, procs=6, timeout=120, limits=None):
    """run jobs on the real code; -> list of results"""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="valori-jobs-")
    parts = [jobs[i::procs] for i in range(min(procs, len(jobs)))]
    ps = []
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    for i, part in enumerate(parts):
        jf, of = os.path.join(d, "j%d" % i), os.path.join(d, "o%d" % i)
        with open(jf, "w") as f:
            json.dump({"check": cid, "tier": tier, "jobs": part, "limits": limits}, f)
        lf = open(os.path.join(d, "l%d" % i), "w")
        ps.append((subprocess.Popen([REPLAY_PY, os.path.join(VERIF, "engine", "replay.py"), jf, of], env=env,
                                    stdout=lf, stderr=subprocess.STDOUT, cwd=d), of, part, lf))
    res = [None] * len(jobs)
    end = time.time() + timeout
    for i, (p, of, part, lf) in enumerate(ps):
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        lf.close()
        outs = []
        if os.path.exists(of):
            with open(of) as f:
                outs = [json.loads(l) for l in f if l.strip()]
        for k, o in enumerate(outs):
            res[i + k * len(parts)] = o
        if len(outs) < len(part):
            log = open(os.path.join(d, "l%d" % i)).read()[-1500:]
            k = len(outs)
            res[i + k * len(parts)] = {"status": "died", "detail": log}
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return [r or {"status": "notrun"} for r in res]


def close(a, b):
    if a == "<*>" or b == "<*>":
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return a == b
        return abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    return a == b


def known_findings():
    """label patterns per property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                kv = {}
                head, _, text = line[len("finding:"):].partition(" :: ")
                for tok in head.split("|"):
                    k, _, v = tok.strip().partition("=")
                    kv[k.strip()] = v.strip()
                kv["text"] = text
                out.setdefault(kv["property"], []).append(kv)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        j = json.load(open(a.replay))
        r = replay_jobs(j["property"], j["tier"], [j["job"]], limits=[60, 90])
        print(json.dumps(r[0], indent=1))
        if r[0]["status"] in ("violation", "exception", "hang"):
            print("VIOLATION property=%s replay=%s" % (j["property"], a.replay))
            return 1
        return 0
    t0 = time.time()
    cid, tier = a.cid, a.tier
    mod = load_check(cid)
    pid = mod.PROPERTY
    scens = mod.scenarios(tier)
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier) or (90 if tier == "quick" else 500)
    opts = {"seed": seed, "debug": a.debug}
    idx = [i for i, s in enumerate(scens) if not a.scenario or s["name"] == a.scenario]
    S = {i: {"stack": [[]], "busy": 0, "paths": 0, "feasible": 0, "viol": [], "unsup": collections.Counter(), "unsup_in": [],
             "traces": [], "labels": collections.Counter(), "inc": collections.Counter(), "codes": [], "notes": [],
             "maxdepth": 0, "infeasible": 0, "first": True, "trunc": False, "cpu": 0.0} for i in idx}
    stats = collections.Counter()
    known = {(k.get("scenario"), k["label"]) for k in known_findings().get(pid, [])}
    deadline = t0 + budget
    stop_at = None
    maxtr = getattr(mod, "TRACES", 14)
    if a.debug:
        pool = None
    else:
        pool = mp.get_context("fork").Pool(a.jobs, maxtasksperchild=60)
    pending = []
    errors = []

    def absorb(o):
        nonlocal stop_at
        s = S[o["si"]]
        s["busy"] -= 1
        s["cpu"] += o["cpu"]
        s["stack"].extend(o["stack"])
        for k in ("paths", "feasible", "infeasible"):
            s[k] += o[k]
        s["maxdepth"] = max(s["maxdepth"], o["maxdepth"])
        for k in ("unsup", "labels", "inc"):
            s[k].update(o[k])
        s["traces"].extend(o["traces"])
        s["unsup_in"].extend(o["unsup_in"])
        s["codes"] = o["codes"] or s["codes"]
        s["notes"].extend(o["notes"])
        for v in o["viol"]:
            if len([1 for w in s["viol"] if w[0] == v[0]]) < 6:
                s["viol"].append(v)
            if not is_known(scens[o["si"]]["name"], v[0]) and stop_at is None:
                stop_at = time.time() + 6
        stats.update(o["stats"])

    def is_known(sc, label):
        return (sc, label) in known or ("*", label) in known or (None, label) in known

    while True:
        now = time.time()
        if now > deadline or (stop_at and now > stop_at):
            break
        progressed = False
        while len(pending) < a.jobs + 4:
            el = [i for i in idx if S[i]["stack"] and not (scens[i].get("max_paths") and S[i]["paths"] >= scens[i]["max_paths"])]
            if not el:
                break
            i = min(el, key=lambda j: S[j]["cpu"] + 0.7 * S[j]["busy"])
            s = S[i]
            k = 1 if len(s["stack"]) < 2 * a.jobs else max(1, len(s["stack"]) // (2 * a.jobs))
            # oldest prefixes first: they are the biggest subtrees
            st, s["stack"] = s["stack"][:k], s["stack"][k:]
            chunk = 0.15 if s["paths"] < 20 else 1.0
            task = (cid, i, tier, st, chunk, max(0, (maxtr - len(s["traces"]))), s["first"], opts)
            s["first"] = False
            s["busy"] += 1
            progressed = True
            if pool is None:
                absorb(explore(task))
                break
            pending.append((i, pool.apply_async(explore, (task,)), time.time()))
        still = []
        for i, r, ts in pending:
            if r.ready():
                try:
                    absorb(r.get())
                except Exception as e:
                    S[i]["busy"] -= 1
                    S[i]["unsup"]["engine error: %s" % (str(e)[:200])] += 1
                    errors.append(traceback.format_exc()[-1500:])
                progressed = True
            elif time.time() - ts > 150:
                S[i]["busy"] -= 1
                S[i]["unsup"]["worker lost"] += 1
                progressed = True
            else:
                still.append((i, r, ts))
        pending = still
        if not pending and not any(S[i]["stack"] and not (scens[i].get("max_paths") and S[i]["paths"] >= scens[i]["max_paths"]) for i in idx):
            break
        if not progressed:
            time.sleep(0.01)
    # drain briefly
    t_end = time.time() + 5
    for i, r, ts in pending:
        r.wait(max(0.05, t_end - time.time()))
        if r.ready():
            try:
                absorb(r.get())
            except Exception as e:
                S[i]["unsup"]["engine error: %s" % (str(e)[:200])] += 1
        else:
            S[i]["trunc"] = True
    if pool is not None:
        pool.terminate()
    for i in idx:
        if S[i]["stack"]:
            S[i]["trunc"] = True
    t_explore = time.time() - t0

    # ---- replay on the real code
    jobs, meta = [], []
    for i in idx:
        s = S[i]
        for lab, det, inp in s["viol"]:
            jobs.append({"scenario": i, "inputs": inp})
            meta.append(("viol", i, lab, det, None))
        for inp, obs in s["traces"][:maxtr]:
            jobs.append({"scenario": i, "inputs": inp})
            meta.append(("trace", i, None, None, obs))
        for why, inp in s["unsup_in"][:6]:
            jobs.append({"scenario": i, "inputs": inp})
            meta.append(("unsup", i, None, why, None))
    results = replay_jobs(cid, tier, jobs, procs=min(8, max(1, len(jobs) // 3)), timeout=300 if tier == "quick" else 900)
    # a hang is believed only when the same inputs hang again with nothing else running
    hung = [n for n, r in enumerate(results) if r["status"] == "hang"]
    first = {}
    for n in hung:
        first.setdefault(jobs[n]["scenario"], n)
    again = list(first.values())[:4]
    for n, r in zip(again, replay_jobs(cid, tier, [jobs[n] for n in again], procs=4, timeout=200, limits=[60, 90])):
        results[n] = r
    for n in hung:
        if n not in again:
            results[n] = {"status": "notrun", "detail": "hung in a batch and was not run again"}
    validated = mism = 0
    confirmed, unconfirmed, mismatches = {}, collections.Counter(), []
    for (kind, i, lab, det, obs), r, j in zip(meta, results, jobs):
        name = scens[i]["name"]
        if r["status"] in ("violation", "exception", "hang"):
            rl = r["label"]
            confirmed.setdefault((name, rl), []).append((j, r, kind, det))
        elif kind == "viol":
            unconfirmed[(name, lab, r["status"])] += 1
            if a.debug:
                print("UNCONFIRMED", name, lab, det, j["inputs"], r)
        elif kind == "trace":
            if r["status"] == "ok" and not r.get("missing"):
                ok = [l for l, _ in obs] == [l for l, _ in r["obs"]] and all(close(x[1], y[1]) for x, y in zip(obs, r["obs"]))
                if ok:
                    validated += 1
                else:
                    mism += 1
                    mismatches.append({"scenario": name, "inputs": j["inputs"], "model": obs, "real": r["obs"]})
            else:
                mism += 1
                mismatches.append({"scenario": name, "inputs": j["inputs"], "model": obs, "real": r})
    # ---- report
    rc = 0
    nviol = 0
    kf_seen = set()
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for (name, lab), lst in sorted(confirmed.items()):
        j, r, kind, det = lst[0]
        if is_known(name, lab):
            kf_seen.add((name, lab))
            continue
        nviol += 1
        rp = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
        with open(rp, "w") as f:
            json.dump({"property": cid, "tier": tier, "scenario_name": name, "label": lab, "job": j, "real": r, "found": kind, "detail": det}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   scenario=%s: %s -- %s" % (name, lab, str(r.get("detail"))[:300]))
        rc = 1
    texts = {}
    for k in known_findings().get(pid, []):
        for (name, lab) in kf_seen:
            if k["label"] == lab and k.get("scenario") in (None, "*", name):
                texts.setdefault(k["text"], 0)
    for t in texts:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    warn = []
    for (n, l, st), c in unconfirmed.items():
        warn.append("counterexample not reproduced on the real code (x%d): %s / %s (%s)" % (c, n, l, st))
    for i in idx:
        s = S[i]
        for w, c in s["unsup"].items():
            warn.append("%s: %d paths not followed: %s" % (scens[i]["name"], c, w))
        for w, c in s["inc"].items():
            warn.append("%s: %d assertions undecided: %s" % (scens[i]["name"], c, w))
        for l in scens[i].get("expect", []):
            if not s["labels"].get(l):
                warn.append("%s: never reached: %s" % (scens[i]["name"], l))
    if mism:
        warn.append("%d model traces differ from the real run" % mism)
    for w in warn:
        print("INCONCLUSIVE: " + w)
    if a.debug or os.environ.get("VERIF_SHOW"):
        for m in mismatches[:6]:
            print("MISMATCH", json.dumps(m, default=str)[:int(os.environ.get("VERIF_SHOWLEN", "700"))])
        for e in errors[:2]:
            print(e)
    sc_cov = []
    samples = []
    codes = set()
    for i in idx:
        s = S[i]
        codes.update(s["codes"])
        sc_cov.append({"scenario": scens[i]["name"], "bounds": scens[i].get("bounds", ""), "paths": s["paths"], "feasible_paths": s["feasible"],
                       "exhausted": not s["trunc"], "assertions_reached": dict(s["labels"]), "paths_not_followed": dict(s["unsup"]),
                       "undecided": dict(s["inc"]), "max_decisions": s["maxdepth"]})
        for inp, obs in s["traces"][:1]:
            samples.append({"scenario": scens[i]["name"], "inputs": inp, "observed": obs})
    cov = {"states": sum(S[i]["feasible"] for i in idx), "transitions": int(stats["branches"]),
           "traces_validated_against_impl": validated, "samples": samples[:12] or ["none"],
           "queries_discharged": int(stats["queries"]), "solver_seconds": round(stats["solver_s"], 2),
           "solver_unknown": int(stats["unknown"]),
           "assertions": int(stats["asserts"]), "assertions_by_solver": int(stats["discharged"]),
           "assertions_nonlinear": int(stats["nra"]), "assertions_undecided": int(stats["undecided"]),
           "functions_encoded": sorted(codes), "scenarios": sc_cov,
           "exhaustive_within_bounds": all(not S[i]["trunc"] for i in idx) and not any(S[i]["unsup"] for i in idx),
           "trace_mismatches": mism, "inconclusive": warn,
           "explanation": "symbolic execution of the real source, every path within the bounds; states = feasible paths, transitions = solver-decided branches"}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not a.scenario:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    tot = sum(S[i]["paths"] for i in idx)
    print("%s %s: %d paths (%d feasible), %d assertions, %d queries, solver %.1fs, traces ok %d/%d, %s, wall %.1fs (explore %.1fs)" % (
        pid, tier, tot, cov["states"], cov["assertions"], cov["queries_discharged"], stats["solver_s"], validated, validated + mism,
        "exhausted" if cov["exhaustive_within_bounds"] else "TRUNCATED/partial: " + ",".join(scens[i]["name"] for i in idx if S[i]["trunc"] or S[i]["unsup"]),
        time.time() - t0, t_explore))
    if os.environ.get("VERIF_SHOW"):
        for c in sc_cov:
            print("   ", c["scenario"], c["paths"], "paths", "feasible", c["feasible_paths"], "ok" if c["exhausted"] else "TRUNC", sum(c["assertions_reached"].values()) if os.environ["VERIF_SHOW"] == "1" else c["assertions_reached"])
    return rc


if __name__ == "__main__":
    sys.exit(main())
