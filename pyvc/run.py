"""Engine command line:  python3-vt -m pyvc.run C07 --out OUT.json

Verifies every contract of the property against the current source, each task
in its own process.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def work(conn, prop, index, scale):
    from pyvc.verifier import Verifier
    try:
        mod = importlib.import_module("contracts." + prop.lower())
        t = mod.tasks()[index]
        t.budget *= scale
        t.timeout *= scale
        v = Verifier()
        r = v.run_task(t)
        if r["status"] in ("failed", "unknown") and v.unanswered:
            # some question hit its time limit: once more, with larger limits
            v2 = Verifier()
            v2.slack = 4
            v2.solver_time, v2.branch_time = v.solver_time, v.branch_time
            r2 = v2.run_task(t)
            if r2["status"] == "proved":
                r, v = r2, v2
        r["obligations"] = [{"label": o.label, "status": o.status, "backend": o.backend, "time": round(o.time, 3),
                             "detail": o.detail, "exact": o.exact} for o in r["obligations"]]
        r["solver_time"] = v.solver_time + v.branch_time
        r["sources"] = sorted(v.sources)
        r["functions"] = list(t.functions)
        r["bounded"] = getattr(t, "bounded", "")
        r["inlined"] = sorted(v.functions)
    except BaseException:
        r = {"task": "%s[%d]" % (prop, index), "status": "unsupported", "error": traceback.format_exc()[-2000:], "obligations": [],
             "functions": [], "assumes": [], "solver_time": 0, "sources": [], "paths": 0, "wall": 0, "bounded": "", "inlined": []}
    r.pop("raised", None)
    conn.send(r)
    conn.close()


def run(prop, jobs, limit, scale=1):
    mod = importlib.import_module("contracts." + prop.lower())
    tasks = mod.tasks()
    names = [t.name for t in tasks]
    ctx = mp.get_context("fork")
    pending = list(range(len(tasks)))
    # long tasks first
    pending.sort(key=lambda i: -tasks[i].budget)
    active = {}
    results = {}
    end = time.time() + limit
    while pending or active:
        while pending and len(active) < jobs:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, prop, i, scale), daemon=False)
            p.start()
            b.close()
            active[i] = (p, a, time.time())
        for i, (p, a, t0) in list(active.items()):
            hard = tasks[i].budget * scale * 2.5 + 60
            dead = not p.is_alive()
            if a.poll(0.02) or dead:
                try:
                    results[i] = a.recv() if a.poll(0.1) else None
                except EOFError:
                    results[i] = None
                p.join(5)
                del active[i]
            elif time.time() - t0 > hard or time.time() > end:
                p.terminate()
                p.join(5)
                results[i] = {"task": names[i], "status": "timeout", "error": "engine time limit", "obligations": [], "functions": tasks[i].functions,
                              "assumes": tasks[i].assumes, "solver_time": 0, "sources": [], "paths": 0, "wall": time.time() - t0, "bounded": "", "inlined": []}
                del active[i]
        if time.time() > end:
            for i in pending:
                results[i] = {"task": names[i], "status": "timeout", "error": "engine time limit", "obligations": [], "functions": tasks[i].functions,
                              "assumes": tasks[i].assumes, "solver_time": 0, "sources": [], "paths": 0, "wall": 0, "bounded": "", "inlined": []}
            pending = []
    out = []
    for i in range(len(tasks)):
        r = results.get(i)
        if r is None:
            r = {"task": names[i], "status": "unsupported", "error": "the engine process died", "obligations": [], "functions": tasks[i].functions,
                 "assumes": tasks[i].assumes, "solver_time": 0, "sources": [], "paths": 0, "wall": 0, "bounded": "", "inlined": []}
        out.append(r)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--limit", type=float, default=420)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--out")
    a = ap.parse_args()
    t0 = time.time()
    try:
        res = run(a.prop, a.jobs, a.limit, a.scale)
        out = {"tasks": res, "error": "", "wall": time.time() - t0}
    except Exception:
        out = {"tasks": [], "error": traceback.format_exc()[-2000:], "wall": time.time() - t0}
    text = json.dumps(out, indent=1, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        for r in out["tasks"]:
            print(r["status"], r["task"], len(r["obligations"]))


if __name__ == "__main__":
    main()
