#!/usr/bin/env python3
"""Decide one property:  python3 check.py C07 [--tier quick|thorough]

1. Deductive stage: every contract of the property is verified against the
   syntax trees parsed from /repo on this run (pyvc + contracts/).
2. Conformance stage (bounded, never counted as proved): the real code under
   CPython against independent oracles (conf/).  It replays failed obligations,
   tests the trusted models, and decides what the deductive stage leaves open.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
PYHP = "/opt/venv/bin/python"
TRUSTED = ["pyvc: the interpreter of Python syntax trees and its loop/contract rules (this repository)",
           "pyvc/lib.py, npmodel.py, sarr.py, seqs.py, scipymodel.py: contracts of Python built-ins, numpy and scipy functions",
           "z3, cvc5 and sympy (Groebner bases) as back ends",
           "float arithmetic is exact real arithmetic, int arithmetic is unbounded, kets and masks are 64-bit vectors"]


def known(prop):
    keys = {}
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN:") and ("property=%s " % prop) in line:
                    key = line.split("key=", 1)[1].split()[0]
                    keys[key] = line.split("key=", 1)[1].split(None, 1)[1] if " " in line.split("key=", 1)[1] else key
    except OSError:
        pass
    return keys


class Env:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="hpverif-")
        e = dict(os.environ)
        for n in ("nb", "mpl", "cwd"):
            os.makedirs(os.path.join(self.dir, n))
        e.update(NUMBA_CACHE_DIR=os.path.join(self.dir, "nb"), MPLCONFIGDIR=os.path.join(self.dir, "mpl"), MPLBACKEND="Agg",
                 PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 PYTHONPATH=HERE)
        e["TMPDIR"] = self.dir
        self.env = e

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def conf_cmd(prop, seed, tier, budget, out):
    return [PYHP, "-m", "conf.harness", prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out]


def start(cmd, env, log):
    return subprocess.Popen(cmd, cwd=HERE, env=env.env, stdout=open(log, "w"), stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, limit):
    """True if the process ended by itself."""
    try:
        p.wait(max(1, limit))
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return False


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def conf_result(p, out, log, limit, prop):
    done = finish(p, limit)
    r = load(out)
    if r is None:
        tail = ""
        try:
            with open(log) as f:
                tail = f.read()[-1500:]
        except OSError:
            pass
        what = "the conformance run did not end within its limit" if not done else "the conformance run died (exit %s)" % p.returncode
        r = {"evaluations": 0, "distinct_nontrivial": 0, "sections": {}, "samples": [], "wall_s": 0,
             "fails": [{"key": "no-result", "section": "run", "what": what + "\n" + tail, "input": {}}], "broken": True}
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed
    t0 = time.time()
    env = Env()
    try:
        code = decide(prop, tier, seed, env, t0)
    finally:
        env.close()
    sys.exit(code)


def decide(prop, tier, seed, env, t0):
    thorough = tier == "thorough"
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay_dir = os.path.join(ev_dir, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    has_contracts = os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py"))
    eng_out = os.path.join(env.dir, "engine.json")
    cf_out = os.path.join(env.dir, "conf.json")
    eng_limit = 600 if thorough else 300
    pe = None
    if has_contracts:
        pe = start([PYVT, "-m", "pyvc.run", prop, "--out", eng_out, "--limit", str(eng_limit), "--scale", "2" if thorough else "1", "--jobs", "7"],
                   env, os.path.join(env.dir, "engine.log"))
    pc = start(conf_cmd(prop, seed, tier, 400 if thorough else 60, cf_out), env, os.path.join(env.dir, "conf.log"))
    conf = conf_result(pc, cf_out, os.path.join(env.dir, "conf.log"), 700 if thorough else 420, prop)
    tasks, eng_error = [], ""
    if pe is not None:
        finish(pe, eng_limit + 60 - (time.time() - t0))
        eng = load(eng_out)
        if eng is None:
            eng_error = "the engine gave no result"
        else:
            tasks, eng_error = eng["tasks"], eng["error"]
    failed = [t for t in tasks if t["status"] == "failed"]
    undecided = [t for t in tasks if t["status"] in ("unknown", "unsupported", "timeout")]
    # a failed obligation, or contracts left open: search the real code harder for a failing input
    extra = []
    if (failed or undecided) and not conf["fails"] and not thorough:
        left = 800 - (time.time() - t0)
        n = 7
        budget = min(150 if failed else 60, left / 2)
        ps = []
        for i in range(n):
            out = os.path.join(env.dir, "x%d.json" % i)
            ps.append((start(conf_cmd(prop, seed * 1000 + i + 1, "thorough", budget, out), env, out + ".log"), out))
        end = time.time() + min(left - 30, budget * 3)
        for p, out in ps:
            r = conf_result(p, out, out + ".log", end - time.time(), prop)
            if r.get("broken"):
                continue
            extra.append(r)
            for x in r["fails"]:
                if x["key"] not in {y["key"] for y in conf["fails"]}:
                    conf["fails"].append(x)
    # verdict
    kn = known(prop)
    lines, viol = [], 0
    seen_known = set()
    for x in conf["fails"]:
        if x["key"] in kn:
            if x["key"] not in seen_known:
                seen_known.add(x["key"])
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, kn[x["key"]]))
            continue
        viol += 1
    new = [x for x in conf["fails"] if x["key"] not in kn]
    obl = [o for t in tasks if not t["bounded"] for o in t["obligations"]]
    bobl = [o for t in tasks if t["bounded"] for o in t["obligations"]]
    fobl = [{"task": t["task"], "functions": t["functions"], "obligation": o["label"], "status": o["status"], "back_end": o["backend"],
             "exact": o["exact"], "verifier_output": o["detail"]} for t in failed for o in t["obligations"] if o["status"] == "failed"]
    if new or failed:
        path = os.path.join(replay_dir, "%s-%s.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "failing_inputs": new, "failed_obligations": fobl[:40],
                       "how_to_replay": "cd /verif && PYTHONPATH=. %s -m conf.harness %s --seed %d (section and input above); contracts: python3-vt -m pyvc.run %s" % (PYHP, prop, seed, prop)},
                      f, indent=1)
        if new:
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            for x in new[:3]:
                lines.append("  input that fails: [%s/%s] %s %s" % (x["section"], x["key"], x["what"][:300].replace("\n", " | "), str(x["input"])[:300]))
        for o in fobl[:5]:
            lines.append("  failed obligation: %s :: %s (%s)" % (o["task"], o["obligation"], o["back_end"]))
        if not new:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            viol += 1
    for t in undecided:
        lines.append("  undecided contract (bounded conformance only): %s: %s %s" % (t["task"], t["status"], t["error"].strip().splitlines()[-1][:200] if t["error"].strip() else ""))
    discharged = sum(1 for o in obl if o["status"] == "proved")
    proved = [t["task"] for t in tasks if t["status"] == "proved" and not t["bounded"]]
    backs = {}
    for o in obl:
        if o["status"] == "proved":
            backs[o["backend"]] = backs.get(o["backend"], 0) + 1
    trusted = list(TRUSTED)
    for t in tasks:
        for x in t["assumes"]:
            if x not in trusted:
                trusted.append(x)
    evs = [conf] + extra
    cov = {
        "obligations": len(obl), "discharged": discharged,
        "checker_cmd": "python3-vt -m pyvc.run %s" % prop,
        "trusted_base": trusted,
        "back_ends": backs,
        "solver_time_s": round(sum(t["solver_time"] for t in tasks), 2),
        "functions_under_contract": sorted({f for t in tasks if t["status"] == "proved" and not t["bounded"] for f in t["functions"]}),
        "contracts_proved": proved,
        "contracts_bounded": [{"contract": t["task"], "bound": t["bounded"], "status": t["status"], "obligations": len(t["obligations"])} for t in tasks if t["bounded"]],
        "bounded_obligations": len(bobl),
        "contracts_undecided": [{"contract": t["task"], "status": t["status"], "reason": t["error"][-400:]} for t in undecided],
        "contracts_failed": [t["task"] for t in failed],
        "paths": sum(t["paths"] for t in tasks),
        "source_files_parsed": sorted({s for t in tasks for s in t["sources"]}),
        "engine_error": eng_error,
        "evaluations": sum(r["evaluations"] for r in evs),
        "distinct_nontrivial": max(r["distinct_nontrivial"] for r in evs),
        "rule": "conformance stage (bounded, not counted as proved): seeded random and enumerated inputs of the real functions compared with independent oracles, see conf/%s.py; a case is non-trivial and distinct by the input signature it registers" % prop.lower(),
        "samples": conf["samples"] or ["none"],
        "conformance_sections": conf["sections"],
    }
    level = "proof" if obl and discharged else "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": trusted, "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d contracts (%d undecided, %d failed); %d conformance cases; %.0f s"
          % (prop, discharged, len(obl), len(proved), len(undecided), len(failed), cov["evaluations"], time.time() - t0))
    if eng_error:
        print("  engine: " + eng_error.strip().splitlines()[-1][:300])
    for x in lines:
        print(x)
    if has_contracts and not obl and not viol:
        # nothing was generated: the deductive stage decided nothing; say so (conformance still decides)
        print("  note: no obligation was generated; only the bounded stage ran")
    return 1 if viol else 0


if __name__ == "__main__":
    main()
