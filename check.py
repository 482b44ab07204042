#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current working tree.

1. the contracts of the property are proved on the functions as they are in /repo now (pyvc);
2. the same contracts are evaluated at run time on the real code (harness), which replays
   counterexamples and stands in, bounded, for functions the verifier cannot handle.
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
CONTRACTS = {"D": ["data"], "S": ["samplers", "steps"], "T": ["tensors"], "F": ["factory"], "M": ["models"], "G": ["diag"]}


def load_cases(pid):
    import importlib
    out = []
    found = False
    for m in CONTRACTS[pid[0]]:
        try:
            mod = importlib.import_module("contracts." + m)
        except ModuleNotFoundError as e:
            if e.name != "contracts." + m:
                raise
            continue
        if pid in mod.CASES:
            found = True
            out.extend(mod.CASES[pid])
    if not found:
        raise SystemExit("no contracts for %s" % pid)
    return out


def _worker(pid, i, q, budget):
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def go():
        from pyvc.spec import run_case
        from pyvc import core
        cs = load_cases(pid)[i]
        r = run_case(cs, budget)
        r["stats"] = core.STATS
        out["r"] = r
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put((i, out.get("r")))


def prove(pid, budget, jobs=6):
    """run all contract cases, in parallel, each with its own time limit"""
    cases = load_cases(pid)
    todo = list(range(len(cases)))
    running, results = {}, {}
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=(pid, i, q, budget))
            p.start()
            running[i] = (p, q, time.time())
        time.sleep(0.05)
        for i, (p, q, t0) in list(running.items()):
            r = None
            try:
                if not q.empty():
                    r = q.get(timeout=2)[1]
                    done = True
                else:
                    done = not p.is_alive() and q.empty()
            except Exception:
                done = True
            if not done and time.time() - t0 > budget + 30:
                p.kill()
                done = True
                r = {"error": "time limit"}
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                if r is None or "status" not in r:
                    r = {"case": cases[i].name, "status": "unknown", "error": (r or {}).get("error", "verifier process died"),
                         "results": [], "paths": 0, "ends": 0, "functions": [], "assumptions": [], "wall_s": round(time.time() - t0, 1),
                         "targets": list(cases[i].targets), "stats": {"solver_s": 0, "queries": 0, "by": {}}}
                results[i] = r
                del running[i]
    return [results[i] for i in range(len(cases))]


def start_battery(pid, tier, seed, work):
    out = os.path.join(work, "battery.json")
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    cmd = ". /opt/vp/env.sh; unset TF_DETERMINISTIC_OPS; export PYTHONPATH=$PYTHONPATH:%s PYTHONDONTWRITEBYTECODE=1; cd %s; exec $PY %s %s %s %d %s" % (
        REPO, scratch, os.path.join(HERE, "harness", "run.py"), pid, tier, seed, out)
    log = open(os.path.join(work, "battery.log"), "w")
    return subprocess.Popen(["bash", "-c", cmd], stdout=log, stderr=subprocess.STDOUT), out, log.name


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-battery", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        return run(pid, tier, seed, work, t0, not a.no_battery)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, work, t0, battery):
    bat = None
    if battery:
        proc, bout, blog = start_battery(pid, tier, seed, work)
    cases = prove(pid, 240 if tier == "quick" else 900)
    if battery:
        try:
            proc.wait(timeout=700 if tier == "quick" else 3600)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
        if os.path.exists(bout):
            bat = json.load(open(bout))
        else:
            tail = open(blog).read()[-3000:]
            bat = {"failures": [], "cases": 0, "error": "the run-time battery did not finish: " + tail, "samples": [], "bounds": ""}
    obl = []
    for c in cases:
        for r in c["results"]:
            obl.append(dict(r, case=c["case"]))
    proved = [o for o in obl if o["status"] == "proved"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    unknown = [o for o in obl if o["status"] == "unknown"]
    undecided_cases = [c for c in cases if c["status"] == "unknown"]
    solver_s = sum(c["stats"]["solver_s"] for c in cases)
    backends = {}
    for o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    known = known_findings(pid)
    failures = list((bat or {}).get("failures", []))
    listed = [f for f in failures if any(f.get("key") == k for k, _ in known)]
    failures = [f for f in failures if f not in listed]
    complete = not undecided_cases and not refuted and bool(obl)
    funcs = sorted({f for c in cases for f in c["functions"]})
    bounded = sorted({a for c in cases for a in c["assumptions"] if a.startswith("bounded")})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obl) + sum(1 for c in undecided_cases if not any(r["status"] != "proved" for r in c["results"])),
            "discharged": len(proved),
            "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
            "trusted_base": TRUSTED,
            "back_ends": backends,
            "solver_s": round(solver_s, 2),
            "functions_under_contract": funcs,
            "contract_targets": sorted({t for c in cases for t in c["targets"]}),
            "cases": [{k: c[k] for k in ("case", "status", "error", "paths", "ends", "wall_s")} for c in cases],
            "undischarged": [{k: o[k] for k in ("case", "obligation", "status", "detail")} for o in refuted + unknown][:40],
            "bounded": bounded,
            "runtime_contract_checks": (bat or {}).get("cases", 0),
            "runtime_bounds": (bat or {}).get("bounds", ""),
            "runtime_samples": (bat or {}).get("samples", [])[:5],
            "runtime_error": (bat or {}).get("error"),
            "fully_proved": complete,
        },
        "assumptions": sorted({x for c in cases for x in c["assumptions"]} | set(ASSUMED)),
        "violations": len(failures) + (1 if refuted and not failures else 0),
        "wall_s": 0,
    }
    print("%s: %d obligations, %d discharged (%s), %d refuted, %d undecided; %d functions; %d run-time contract checks" % (
        pid, len(obl), len(proved), ", ".join("%s %d" % x for x in sorted(backends.items())), len(refuted),
        len(unknown) + len([c for c in undecided_cases if c["error"]]), len(funcs), (bat or {}).get("cases", 0)))
    for c in undecided_cases:
        print("  undecided case '%s': %s" % (c["case"], c["error"] or [o["obligation"] for o in c["results"] if o["status"] == "unknown"][:3]))
    if undecided_cases:
        print("  -> bounded stand-in: run-time contract checks only (%s)" % (bat or {}).get("bounds", "none"))
    seen = set()
    for o in refuted + unknown:
        key = (o["case"], o["obligation"])
        if key not in seen:
            seen.add(key)
            print("  %s: [%s] %s -- %s" % (o["status"], o["case"], o["obligation"], o["detail"][:400]))
    for f in failures[:10]:
        print("  fails on the real code: %s -- %s" % (f["what"], json.dumps(f.get("input"), default=str)[:300]))
    for k, txt in known:
        if any(f.get("key") == k for f in listed):
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    rc = 0
    if bat and bat.get("error"):
        print("  run-time battery error: %s" % bat["error"][-1500:])
    if failures or refuted:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", "%s_%s.json" % (pid, tier))
        with open(rp, "w") as f:
            json.dump({"property": pid, "failed_obligations": refuted[:40], "undecided": unknown[:20], "failing_inputs": failures[:20],
                       "replay_cmd": "bash -c '. /opt/vp/env.sh; unset TF_DETERMINISTIC_OPS; PYTHONPATH=$PYTHONPATH:/repo $PY %s/harness/run.py %s %s %d /dev/stdout'" % (
                           HERE, pid, tier, seed),
                       "runtime_error": (bat or {}).get("error")}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if failures else " no-failing-input-found"))
        rc = 1
    elif bat is not None and bat.get("error") and undecided_cases:
        print("no verdict: the proof is incomplete and the run-time battery failed")
        rc = 2
    elif not obl and not (bat or {}).get("cases"):
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return rc


TRUSTED = ["pyvc (symbolic execution of the parsed source of /repo, loop summaries, contracts of libraries)", "z3 5.3", "cvc5 1.1.2",
           "CPython's ast module"]
ASSUMED = ["machine arithmetic is treated as mathematical (reals and unbounded integers) unless a case says otherwise",
           "library functions behave as their contracts in pyvc/lib_*.py say",
           "denominators that the specification itself divides by are nonzero"]

if __name__ == "__main__":
    sys.exit(main())
