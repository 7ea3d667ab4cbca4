#!/usr/bin/env python3-vt
"""Decides one property on /repo's current tree.

usage: run.py PROPERTY [--tier quick|thorough]
exit 0: held; exit 1 + 'VIOLATION property=.. replay=..': broken; exit 3: the check itself failed
"""
import argparse
import json
import os
import subprocess
import sys
import time
import traceback
from multiprocessing import Process, Pipe
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))

import build
import plans

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = 8


def worker(conn, progs, task, mem):
    import resource
    import verify
    import values
    from terms import Unsupported
    import solver
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    try:
        mod, _, fn = task["fn"].rpartition(".")
        import importlib
        o = getattr(importlib.import_module(mod or "verify"), fn)(progs[task["feat"]], *task["args"], **task.get("kw", {}))
        r = {"status": "proved", "obl": o.obl, "ok": o.ok, "back": o.back, "fns": o.fns,
             "assumed": sorted(o.assumed), "bounded": o.bounded, "notes": o.notes[:4]}
    except values.Fail as e:
        r = {"status": "failed", "name": e.name, "detail": str(e.detail)[:3000]}
    except Unsupported as e:
        r = {"status": "unsupported", "detail": str(e)[:800], "trace": traceback.format_exc()[-1500:]}
    except MemoryError:
        r = {"status": "unsupported", "detail": "memory limit"}
    except RecursionError:
        r = {"status": "unsupported", "detail": "recursion limit"}
    except (AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError, ZeroDivisionError) as e:
        r = {"status": "unsupported", "detail": "engine: %r" % (e,), "trace": traceback.format_exc()[-1500:]}
    r["time"] = round(time.time() - t, 2)
    r["solver"] = {k: round(v, 3) for k, v in solver.STAT.items()}
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()


def run_tasks(progs, tasks, limit, deadline):
    """each task in its own process; returns results in order"""
    res = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("cost", 1))
    live = {}
    while order or live:
        while order and len(live) < WORKERS:
            i = order.pop(0)
            a, b = Pipe(False)
            p = Process(target=worker, args=(b, progs, tasks[i], 6 << 30))
            p.start()
            b.close()
            live[a] = (i, p, time.time())
        for c in wait(list(live), timeout=1.0):
            i, p, t0 = live.pop(c)
            try:
                res[i] = c.recv()
            except EOFError:
                res[i] = {"status": "unsupported", "detail": "the worker died", "time": 0}
            c.close()
            p.join()
        now = time.time()
        for c in list(live):
            i, p, t0 = live[c]
            if now - t0 > limit or now > deadline:
                p.kill()
                p.join()
                c.close()
                del live[c]
                res[i] = {"status": "unsupported", "detail": "time limit", "time": round(now - t0, 1)}
        if time.time() > deadline:
            for i in order:
                res[i] = {"status": "unsupported", "detail": "not started in time", "time": 0}
            order = []
    return res


def search(bt, prop, secs, hints, tag, seeds):
    """look for a failing input of the property on the real code"""
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    procs = []
    for k, (feat, seed) in enumerate(seeds):
        out = os.path.join(VERIF, "work", "%s-%s-%d.json" % (prop, tag, k))
        if os.path.exists(out):
            os.remove(out)
        cmd = [bt.replay(feat), "search", prop, out, str(secs), str(seed)]
        for h, v in hints.items():
            if v and (h != "keys" or k % 2 == 0) and (h != "ns" or k % 4 == 0):
                cmd += ["--" + h, ",".join(map(str, v))]
        procs.append((feat, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    found = None
    stats = {"cases": 0, "skipped": 0}
    for feat, out, p in procs:
        try:
            o, _ = p.communicate(timeout=secs * 4 + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            o = ""
        for w in o.split():
            for k in stats:
                if w.startswith(k + "="):
                    stats[k] += int(w[len(k) + 1:])
        if os.path.exists(out) and found is None:
            # confirm in a fresh process
            q = subprocess.run([bt.replay(feat), "run", out], stdout=subprocess.PIPE, text=True)
            if q.returncode == 1:
                d = json.load(open(out))
                d["features"] = feat
                d["property"] = prop
                d["replay_cmd"] = "cd /verif && python3 checks/replay.py %s" % os.path.relpath(out, VERIF)
                json.dump(d, open(out, "w"), indent=1)
                found = (out, d["failure"])
    return found, stats


def mined(prog):
    """integer constants of the crate, as hints for the input generator"""
    s = set()
    for f in prog.fns:
        if f is not None and getattr(f, "krate", None) == "interpn" and f.body is not None:
            consts(f.body, s)
    return sorted(x for x in s if 9 <= abs(x) <= 1_000_000)[:60]


def consts(x, s):
    if isinstance(x, dict):
        if "i" in x and isinstance(x["i"], (str, int)):
            try:
                s.add(int(x["i"]))
            except ValueError:
                pass
        for v in x.values():
            consts(v, s)
    elif isinstance(x, (list, tuple)):
        for v in x:
            consts(v, s)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    budget = a.budget or (780 if a.tier == "quick" else 7200)
    plan = plans.PLANS[a.prop](a.tier)
    # native first build can overlap with the proofs
    try:
        bt = build.Built()
        dumps = {f: bt.dump(f) for f in build.FEATURES}
    except build.BuildError as e:
        # the tree does not build, or the exporter cannot read it
        print("check error: build failed\n" + str(e)[-3000:])
        sys.exit(3)
    import mir
    progs = {f: mir.Program(p) for f, p in dumps.items()}
    t1 = time.time()
    ints = mined(progs["default"])
    tasks = plan["tasks"]
    for t in tasks:
        t.setdefault("feat", "default")
    import same
    eq = same.Same(progs["default"], progs["fma"])
    base_tasks = {label(t, "") for t in tasks if t["feat"] == "default"}
    keep = []
    for t in tasks:
        rs, stop = plans.roots(t)
        if t["feat"] == "fma" and rs and label(t, "") in base_tasks and all(eq.root(r, stop) for r in rs):
            continue
        keep.append(t)
    samecode, tasks = len(tasks) - len(keep), keep
    limit = plan.get("limit", 300 if a.tier == "quick" else 1800)
    res = run_tasks(progs, tasks, limit, t0 + budget * 0.72)
    t2 = time.time()
    failed = [(t, r) for t, r in zip(tasks, res) if r["status"] == "failed"]
    unsup = [(t, r) for t, r in zip(tasks, res) if r["status"] == "unsupported"]
    nfeat = 4
    seeds = [(build.FEATURES[k % 2], SEED * 1000 + k) for k in range(8)]
    hints = {"ints": ints}
    bad = failed + unsup
    if bad:
        hints["keys"] = sorted({t["keyhint"] for t, _ in bad if t.get("keyhint")})
        hints["ns"] = sorted({t["nhint"] for t, _ in bad if t.get("nhint")})
    # cross-check of the translation on the real code (and search when something failed)
    base = plan.get("native", a.prop)
    secs = (10 if a.tier == "quick" else 300) if not bad else (150 if a.tier == "quick" else 900)
    secs = max(5, min(secs, budget - (time.time() - t0) - 30))
    found, stats = search(bt, base, secs, hints, "search", seeds)
    t3 = time.time()

    # ---------------------------------------------------------------- evidence
    fns, back, assumed, bounded = {}, {}, set(), []
    obl = ok = 0
    for t, r in zip(tasks, res):
        if r["status"] == "proved":
            obl += r["obl"]
            ok += r["ok"]
            for k, v in r["fns"].items():
                fns[k] = fns.get(k, 0) + v
            for k, v in r["back"].items():
                back[k] = back.get(k, 0) + v
            assumed |= set(r["assumed"])
            bounded += r["bounded"]
        else:
            obl += 1
    zt = sum(r.get("solver", {}).get("z3_time", 0) for r in res)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": SEED,
        "level": "proof" if not bad and not found else "other",
        "coverage": {
            "obligations": obl, "discharged": ok,
            "checker_cmd": "python3-vt checks/run.py %s" % a.prop,
            "trusted_base": plans.TRUSTED + plan.get("trusted", []) + sorted(assumed),
            "contracts": len(tasks), "contracts_proved": sum(r["status"] == "proved" for r in res),
            "functions_under_contract": len(fns), "functions": sorted(fns),
            "contracts_with_identical_code_under_the_other_feature_set": samecode,
            "back_ends": back, "solver_seconds": round(zt, 2),
            "bounded": bounded,
            "native_cross_check": {"cases": stats["cases"], "skipped": stats["skipped"], "seconds": round(secs, 1)},
            "failed": [{"contract": label(t), "obligation": r.get("name"), "detail": r["detail"][:1500]} for t, r in failed],
            "not_proved": [{"contract": label(t), "reason": r["detail"][:500]} for t, r in unsup],
            "slowest": sorted(((r["time"], label(t)) for t, r in zip(tasks, res)), reverse=True)[:5],
            "build_seconds": round(t1 - t0, 1), "proof_seconds": round(t2 - t1, 1),
            "explanation": plan["what"] + ("" if not bad else
                           " NOT every contract was proved in this run; the unproved ones fell back to the bounded native search."),
        },
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contracts (+%d with identical code), %d proved, %d obligations (%d discharged), build %.0fs proof %.0fs native %d cases" % (
        a.prop, len(tasks), samecode, ev["coverage"]["contracts_proved"], obl, ok, t1 - t0, t2 - t1, stats["cases"]))
    for t, r in failed[:6]:
        print("  failed: %s: %s: %s" % (label(t), r["name"], r["detail"][:300]))
    for t, r in unsup[:6]:
        print("  not proved: %s: %s" % (label(t), r["detail"][:300]))
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if found:
        print("  failing input: %s" % found[1][:400])
        print("VIOLATION property=%s replay=%s" % (a.prop, found[0]))
        sys.exit(1)
    if failed and plan.get("alarm", True):
        out = os.path.join(VERIF, "work", "%s-obligation.json" % a.prop)
        json.dump({"property": a.prop, "failed_obligations": [
            {"contract": label(t), "obligation": r["name"], "verifier_output": r["detail"]} for t, r in failed],
            "native_search": stats}, open(out, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.prop, out))
        sys.exit(1)
    sys.exit(0)


def label(t, feat=None):
    return "%s(%s)[%s]" % (t["fn"], ",".join(("/".join(x) if isinstance(x, list) else str(x)) for x in t["args"]) + "".join(",%s=%s" % kv for kv in sorted(t.get("kw", {}).items())), t["feat"] if feat is None else feat)


if __name__ == "__main__":
    main()
