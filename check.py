#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: build what the property's check needs from /repo's working
tree, run its generators, write evidence/<id>.json. Exit 0: held. Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not be run (for instance, /repo does not compile)."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mk  # noqa: E402


def known_findings(pid):
    """entries {"property", "sub", "what"} of known defects which are not repaired"""
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out[d["sub"]] = d["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, "tools", "checks.json")))[pid]
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    targets = sorted(set(t for run in conf["runs"] for t in run.get("targets", [])))
    if targets and mk.build(targets):
        print("BUILD FAILED for " + pid)
        return 2
    tb = time.time()
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048",
                "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99", "LC_ALL": "C", "TZ": "UTC",
                "OPENBLAS_NUM_THREADS": "1", "GOMP_SPINCOUNT": "0", "OMP_WAIT_POLICY": "passive"})
    env.pop("OMP_NUM_THREADS", None)
    scratch = tempfile.mkdtemp(prefix="verif-")     # files that the harnesses write; removed below
    env["VERIF_SCRATCH"] = scratch
    try:
        return run_all(pid, tier, seed, conf, env, replays, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_all(pid, tier, seed, conf, env, replays, t0, tb):
    parts, viol, known = [], [], known_findings(pid)
    for k, run in enumerate(conf["runs"]):
        out = os.path.join(mk.BUILD, "out_%s_%d.json" % (pid, k))
        if os.path.exists(out):
            os.remove(out)
        cmd = [a.replace("{build}", mk.BUILD).replace("{verif}", VERIF) for a in run["cmd"]]
        cmd += ["--prop", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", replays]
        cmd += run.get("thorough_args" if tier == "thorough" else "quick_args", [])
        e = dict(env)
        for key, val in run.get("env", {}).items():
            if "{libasan}" in val:
                val = val.replace("{libasan}", " ".join(subprocess.run(["gcc", "-print-file-name=" + lib], stdout=subprocess.PIPE, text=True).stdout.strip()
                                                        for lib in ["libasan.so", "libstdc++.so.6"]))
            e[key] = val.replace("{build}", mk.BUILD)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e, cwd=VERIF)
        for line in p.stdout:
            if line.startswith("REPLAY "):
                viol.append(line.split(None, 1)[1].strip())
            elif line.startswith("KNOWN-SUB "):
                sub = line.split(None, 1)[1].strip()
                if sub in known:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[sub]))
                else:
                    # a pinned defect that is not (or no longer) listed as open is a violation
                    path = os.path.join(replays, "%s_%s.json" % (pid, sub))
                    with open(path, "w") as f:
                        json.dump({"property": pid, "case_property": pid, "sub": sub, "crash_only": False, "choices": []}, f)
                    viol.append(path)
            else:
                print(line.rstrip())
        rc = p.wait()
        if rc not in (0, 1) or not os.path.exists(out):
            print("ERROR: %s exited with %d" % (" ".join(cmd), rc))
            return 2
        parts.append(json.load(open(out)))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(p["evaluations"] for p in parts),
              "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
              "rule": conf["rule"],
              "samples": [s for p in parts for s in p["samples"]][:12],
              "generators": [s for p in parts for s in p["subs"]],
          },
          "assumptions": conf.get("assumptions", []),
          "violations": viol,
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb - t0, 2)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (pid, v))
    if not viol:
        print("%s %s: held on %d cases (%d distinct non-trivial), %.0f s" % (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
