#!/usr/bin/env python3
"""Run the check of one property.

    python3 vf/run.py C01                      quick tier (or VERIF_TIER=thorough)
    python3 vf/run.py C01 --replay FILE        run one saved case, without hypothesis

Exit 0: held on everything explored; 1: VIOLATION (and a replay file); anything else: an error of the check.
"""
import argparse
import ast
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
SHARDS = 8
STALL = 400  # seconds; the worker gives up earlier, unless the call is stuck in C code
KNOWN = os.path.join(ROOT, "known_findings.txt")


def env_for(shard):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTEST_ADDOPTS"):
        env.pop(k, None)
    env.update(
        PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore",
    )
    if os.path.isdir("/opt/cache/matplotlib"):
        env.setdefault("MPLCONFIGDIR", "/opt/cache/matplotlib")
    return env


def known_findings(prop):
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                key, _, text = line.split(" ", 2)[2].partition(" ")
                res[key] = text
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--cases", type=int, help="override the number of cases (development)")
    args = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if args.worker is not None:
        sys.path.insert(0, ROOT)
        from vf import worker

        worker.run(args.prop, tier, seed, args.worker, SHARDS, args.out, args.cases)
        return 0
    if args.replay:
        meta = json.load(open(args.replay))
        if os.environ.get("PYTHONHASHSEED") != str(meta["hashseed"]) or sys.executable != PY:
            try:
                return subprocess.call([PY, os.path.abspath(__file__), args.prop, "--replay", args.replay],
                                       env=env_for(meta["hashseed"]), timeout=STALL)
            except subprocess.TimeoutExpired:
                print("the case did not end within %d s" % STALL)
                print("VIOLATION property=%s replay=%s" % (args.prop, os.path.relpath(args.replay, ROOT)))
                return 1
        sys.path.insert(0, ROOT)
        from vf import worker

        error = worker.replay(args.prop, ast.literal_eval(meta["spec"]))
        if error:
            print(error)
            print("VIOLATION property=%s replay=%s" % (args.prop, os.path.relpath(args.replay, ROOT)))
            return 1
        print("the case passes")
        return 0
    return parent(args, tier, seed)


def parent(args, tier, seed):
    t0 = time.time()
    prop = args.prop
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    procs = []
    try:
        for shard in range(SHARDS):
            out = os.path.join(work, "%d.json" % shard)
            cmd = [PY, os.path.abspath(__file__), prop, "--worker", str(shard), "--out", out]
            if args.cases:
                cmd += ["--cases", str(args.cases)]
            err = open(os.path.join(work, "%d.err" % shard), "w")
            env = env_for(shard)
            env["VERIF_WORK"] = work
            procs.append((shard, out, subprocess.Popen(cmd, env=env, cwd=work, stdout=err, stderr=err)))
        limit = t0 + (820 if tier == "quick" else 4 * 3600)
        hung = []
        while any(p.poll() is None for _, _, p in procs):
            if time.time() > limit:
                for _, _, p in procs:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
            for shard, out, p in procs:
                case = out + ".case"
                if p.poll() is None and os.path.exists(case) and time.time() - os.path.getmtime(case) > STALL:
                    text = open(case).read()
                    if text and text != "None":
                        p.kill()
                        p.wait()
                        hung.append({
                            "property": prop, "part": ast.literal_eval(text)["part"], "size": len(text), "shard": shard,
                            "message": "the case did not end within %d s" % STALL, "hashseed": shard, "seed": seed,
                            "spec": text})
            time.sleep(0.2)
        results = []
        broken = []
        for shard, out, p in procs:
            if p.returncode == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            elif not any(h["shard"] == shard for h in hung):
                broken.append((shard, p.returncode, open(os.path.join(work, "%d.err" % shard)).read()[-3000:]))
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        subprocess.call(["rm", "-rf", work])

    failures = [f for r in results for f in r["failures"]] + hung
    harness = [h for r in results for h in r["harness_errors"]]
    known = known_findings(prop)
    found = {}
    for r in results:
        for k, n in r["known"].items():
            found[k] = found.get(k, 0) + n
    classes = {}
    for r in results:
        for k, n in r["classes"].items():
            classes[k] = classes.get(k, 0) + n
    parts = {}
    for r in results:
        for k, v in r["parts"].items():
            a = parts.setdefault(k, {"cases": 0, "distinct_nontrivial": 0, "rule": v["rule"], "stopped_early": 0})
            a["cases"] += v["cases"]
            a["distinct_nontrivial"] += v["nontrivial"]
            a["stopped_early"] += v["stopped"]
    # distinct across the shards
    digests = set()
    for r in results:
        digests.update(r["digests"])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(digests),
            "rule": " | ".join("%s: %s" % (k, v["rule"]) for k, v in sorted(parts.items())),
            "samples": [s for r in results for s in r["samples"]][:6],
            "parts": parts,
            "classes": dict(sorted(classes.items())),
            "shards": len(results),
        },
        "assumptions": results[0]["assumptions"] if results else [],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    cov = evidence["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0fs" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], evidence["wall_s"]))
    for k, v in sorted(parts.items()):
        print("   %-28s %6d cases %6d non-trivial%s" % (
            k, v["cases"], v["distinct_nontrivial"],
            "  (%d shards hit the time budget)" % v["stopped_early"] if v["stopped_early"] else ""))
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s (%s; %d cases)" % (prop, known[k], k, found[k]))
    if failures:
        failures.sort(key=lambda f: (f["size"], f["shard"]))
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        shown = {}
        for f in failures:
            shown.setdefault(f["part"], f)
        for i, f in enumerate(shown.values()):
            path = os.path.join("evidence", "replay", "%s-%s.json" % (prop, f["part"]))
            with open(os.path.join(ROOT, path), "w") as fh:
                json.dump(f, fh, indent=1)
            print("\n[%s] %s\n  case: %s" % (f["part"], f["message"], f["spec"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken or harness:
        for shard, rc, err in broken:
            print("worker %d ended with %s:\n%s" % (shard, rc, err))
        for h in harness[:3]:
            print("harness error: %s" % h)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
