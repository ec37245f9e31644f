"""Parent process of a check: runs seeds over worker processes, reports, minimises, writes evidence.

    python -m dst.runner <ID> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on every simulated run. Exit 1: VIOLATION line printed. Any other exit: harness error.
"""

from __future__ import annotations

import argparse
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORKERS = 8


def meta(check):
    """Read the check's constants without importing the product."""
    import ast

    src = open(os.path.join(ROOT, "checks", f"{check}.py")).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


def known_findings(prop):
    res = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    res.append(d)
    return res


def worker_env(k, scratch):
    sys.path.insert(0, ROOT)
    from dst import seams

    e = seams.env()
    e["PYTHONHASHSEED"] = str(k)
    e["PYTHONPATH"] = ROOT
    e["DST_SCRATCH"] = scratch
    e["HOME"] = scratch
    e["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    return e


def run_worker(args, k, scratch, timeout):
    """Run one worker; returns (list of messages, timed_out)."""
    p = subprocess.Popen([PY, "-m", "dst.worker"] + args, cwd=ROOT, env=worker_env(k, scratch), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("DST_DEBUG") else None, text=True, start_new_session=True)
    msgs = []
    timed_out = False
    timer = threading.Timer(timeout, lambda: os.killpg(p.pid, 9))
    timer.start()
    try:
        for line in p.stdout:
            try:
                msgs.append(json.loads(line))
            except json.JSONDecodeError:
                pass
    finally:
        p.wait()
        if not timer.is_alive() or p.returncode == -9:
            timed_out = p.returncode == -9
        timer.cancel()
    return msgs, timed_out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="dst-parent-")
    try:
        sys.exit(_main(a, tier, base, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, base, scratch):
    t0 = time.monotonic()
    m = meta(a.check)
    prop = m["PROPERTY"]
    if a.replay:
        rec = json.load(open(a.replay))
        msgs, to = run_worker([a.check, "--replay", os.path.abspath(a.replay)], rec.get("hashseed", 0), scratch, 180)
        for x in msgs:
            if x["type"] == "replayed":
                print(json.dumps(x, indent=1)[:6000])
                if x["kind"] == "violation":
                    print(f"VIOLATION property={prop} replay={a.replay}")
                    return 1
                return 0 if x["kind"] == "ok" else 2
        print("replay gave no result", msgs, to)
        return 1 if (to and rec.get("sig") == "stuck") else 2

    known = known_findings(prop)
    for d in known:
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    runs = a.runs or m["QUICK_RUNS" if tier == "quick" else "THOROUGH_RUNS"]
    wall = m.get("QUICK_WALL", 300) if tier == "quick" else m.get("THOROUGH_WALL", 3600)
    per = (runs + WORKERS - 1) // WORKERS
    results = [None] * WORKERS

    def go(k):
        args = [a.check, "--base", str(base), "--start", str(k), "--stride", str(WORKERS), "--count", str(per), "--deadline", str(wall)]
        args += ["--known", ",".join(d["signature"] for d in known)]
        results[k] = run_worker(args, k, scratch, wall + 240)

    ths = [threading.Thread(target=go, args=(k,)) for k in range(WORKERS)]
    # determinism self-test: the first seeds of worker 0 again in another interpreter with another hash seed
    nsame = m.get("SELFTEST_SEEDS", 4)
    seeds = [base * 1_000_003 + i * WORKERS for i in range(min(nsame, per))]
    st = [None]

    def selftest():
        st[0] = run_worker([a.check, "--seeds", ",".join(map(str, seeds)), "--known", ",".join(d["signature"] for d in known), "--min-budget", "0"], 77, scratch, wall + 240)

    for t in ths:
        t.start()
    for t in ths:
        t.join()
    viol = [(k, x) for k, r in enumerate(results) for x in r[0] if x["type"] == "violation"]
    if not viol and nsame:
        selftest()
    runs_ok = [x for r in results for x in r[0] if x["type"] == "run"]
    errors = [x for r in results for x in r[0] if x["type"] == "error"]
    fatal = [x for r in results for x in r[0] if x["type"] == "fatal"]
    stuck = [(k, x) for k, r in enumerate(results) for x in r[0] if x["type"] == "stuck"]
    knowns = [x for r in results for x in r[0] if x["type"] == "known"]
    skips = [x for r in results for x in r[0] if x["type"] == "skip"]
    for k, r in enumerate(results):
        if r[1]:  # killed by the parent: the last started seed never finished
            last = [x for x in r[0] if x["type"] == "start"]
            stuck.append((k, {"seed": last[-1]["seed"] if last else None, "choices": None}))

    for k, r in enumerate(results):  # a worker which died without saying so is no answer
        if not r[1] and not any(x["type"] in ("end", "violation", "stuck", "error", "fatal") for x in r[0]):
            last = [x for x in r[0] if x["type"] == "start"]
            errors.append({"message": f"worker {k} died without result, last seed {last[-1]['seed'] if last else None}"})
    code = 0
    nviol = 0
    if viol:
        viol.sort(key=lambda v: len(v[1]["choices"]))
        seen = set()
        for k, x in viol:
            if x["sig"] in seen:
                continue
            seen.add(x["sig"])
            nviol += 1
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{x['sig'].replace(':','_').replace('/','_')}-{x['seed']}.json")
            rec = {"property": prop, "check": a.check, "seed": x["seed"], "hashseed": k, "sig": x["sig"], "message": x["message"], "choices": x["choices"], "original_length": x["original_length"], "minimiser_trials": x["trials"]}
            json.dump(rec, open(path, "w"))
            msgs, to = run_worker([a.check, "--replay", path], k, scratch, 180)
            again = [y for y in msgs if y["type"] == "replayed"]
            same = bool(again) and again[0]["kind"] == "violation" and again[0].get("sig") == x["sig"]
            if not same and x.get("original_length"):
                rec["choices"] = None  # fall back to the seed itself
                json.dump(rec, open(path, "w"))
                msgs, to = run_worker([a.check, "--replay", path], k, scratch, 180)
                again = [y for y in msgs if y["type"] == "replayed"]
                same = bool(again) and again[0]["kind"] == "violation"
            rec["reproduced_in_fresh_process"] = same
            if again and again[0].get("message"):
                rec["message"] = again[0]["message"]
            json.dump(rec, open(path, "w"), indent=1)
            print(f"seed={x['seed']} choices={len(x['choices'])} (from {x['original_length']}) reproduced={same}")
            print(rec["message"][:3000])
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        code = 1
    elif stuck:
        k, x = stuck[0]
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-stuck-{x['seed']}.json")
        rec = {"property": prop, "check": a.check, "seed": x["seed"], "hashseed": k, "sig": "stuck", "choices": x.get("choices")}
        json.dump(rec, open(path, "w"))
        # confirm in a fresh process before believing it
        msgs, to = run_worker([a.check, "--seeds", str(x["seed"])], k, scratch, 2 * m.get("RUN_TIMEOUT", 60) + 60)
        if to or any(y["type"] == "stuck" for y in msgs):
            print(f"seed={x['seed']}: the product makes no progress (no scheduling point reached within the run's time limit)")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
            nviol += 1
            code = 1
        else:
            print("run exceeded its time limit once but not when repeated", x["seed"])
            code = 0 if runs_ok else 3
    if code == 0 and fatal:
        print(fatal[0]["message"])
        code = 3
    if code == 0 and errors:
        print("harness error, seed", errors[0].get("seed"), errors[0]["message"])
        code = 3
    nondet = None
    if code == 0 and st[0] is not None:
        first = {x["seed"]: x for x in results[0][0] if x["type"] == "run"}
        second = {x["seed"]: x for x in st[0][0] if x["type"] == "run"}
        common = set(first) & set(second)
        nondet = [s for s in common if (first[s].get("digest"), first[s]["chash"]) != (second[s].get("digest"), second[s]["chash"])]
        if nondet:
            print(f"self-test: seeds {nondet} are not repeatable across interpreters with different hash seeds")
            if m.get("STRICT_DETERMINISM"):
                code = 1
                nviol += 1
                path = os.path.join(ROOT, "replays", f"{prop}-nondeterminism-{nondet[0]}.json")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                json.dump({"property": prop, "check": a.check, "seed": nondet[0], "sig": "nondeterminism", "choices": None, "hashseed": 77}, open(path, "w"))
                print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        sv = [x for x in st[0][0] if x["type"] == "violation"]
        if sv and code == 0:
            print(sv[0])
            code = 3
    if code == 0 and not runs_ok and not knowns:
        print("no run completed")
        code = 3

    # evidence
    wall_s = time.monotonic() - t0
    counters = {}
    for x in runs_ok:
        for kk, v in x.get("counters", {}).items():
            counters[kk] = counters.get(kk, 0) + v
    faults = {kk[6:]: v for kk, v in sorted(counters.items()) if kk.startswith("fault:")}
    probes = {kk[6:]: v for kk, v in sorted(counters.items()) if kk.startswith("probe:")}
    distinct = {x.get("key") or x.get("digest") for x in runs_ok if x.get("nontrivial", True)}
    cpu = sum(x["dur"] for x in runs_ok) or 1e-9
    samples = [x.get("sample") for x in runs_ok if x.get("sample")]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": m.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(runs_ok),
            "distinct_nontrivial": len(distinct),
            "rule": m.get("RULE", ""),
            "samples": samples[:3] or [{"seed": x["seed"]} for x in runs_ok[:2]],
            "simulated_runs_per_hour": round(len(runs_ok) / wall_s * 3600),
            "runs_per_cpu_hour": round(len(runs_ok) / cpu * 3600),
            "simulated_seconds": round(sum(x.get("sim_time", 0.0) for x in runs_ok), 3),
            "scheduling_steps": sum(x.get("steps", 0) for x in runs_ok),
            "decisions": sum(x["nchoices"] for x in runs_ok),
            "distinct_event_logs": len({x.get("digest") for x in runs_ok}),
            "distinct_schedules": len({x.get("sched") for x in runs_ok if x.get("sched")}),
            "faults_injected": faults,
            "probes": probes,
            "other_counters": {kk: v for kk, v in sorted(counters.items()) if ":" not in kk},
            "skipped_cases": len(skips),
            "known_finding_hits": len(knowns),
            "determinism_selftest": {"seeds": len(seeds) if st[0] is not None else 0, "mismatches": len(nondet) if nondet is not None else None},
            "real_components": m.get("REAL", ""),
            "stubbed_components": m.get("STUBS", ""),
        },
        "assumptions": m.get("ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(runs_ok)} runs, {len(distinct)} distinct, {len(skips)} skipped, faults {faults}, {wall_s:.1f}s, exit {code}")
    return code


if __name__ == "__main__":
    main()
