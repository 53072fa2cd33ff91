"""Driver of one check: runs the shards, writes evidence and replay, prints the verdict.

usage: python3 harness/main.py C01 [--tier quick|thorough] [--seed N] [--scale F] [--only SUB]
exit 0 held, 1 VIOLATION, 2 harness error.
"""
import argparse
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
SHARDS = 8


def known_findings(prop):
    """Lines of known_findings.txt:  known: property=<id> id=<fid> <text>   |   fixed: property=<id> <commit> <text>"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: ") and ("property=%s " % prop) in line:
                fid = line.split(" id=")[1].split(" ")[0]
                out[fid] = line.split(" id=%s " % fid)[1]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--shards", type=int, default=SHARDS)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO + "/src:" + ROOT,
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        VERIF_REPO=REPO,
        LANG="C.UTF-8",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=work + "/hyp",
    )
    procs = []
    ncpu = os.cpu_count() or 8
    pending = [(k, None, 0) for k in range(a.shards)]  # shard, last sub-check already done, number of restarts
    results = {}
    stuck = 0
    running = {}
    error = None
    violation = None
    try:
        while pending or running:
            while pending and len(running) < max(2, ncpu) and violation is None:
                k, after, tries = pending.pop(0)
                out = os.path.join(work, "r%d.%d.json" % (k, tries))
                cmd = [PY, "-m", "harness.engine", "--prop", a.prop, "--shard", str(k), "--shards", str(a.shards), "--seed", str(a.seed), "--tier", tier, "--out", out, "--scale", str(a.scale)]
                if a.only:
                    cmd += ["--only", a.only]
                if after:
                    cmd += ["--after", after]
                log = open(os.path.join(work, "log%d" % k), "wb")
                running[k, tries] = (subprocess.Popen(cmd, cwd=work, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL), out)
            for k in list(running):
                p, out = running[k]
                rc = p.poll()
                if rc is None:
                    b = is_stuck(p.pid, out)
                    if b is None:
                        continue
                    # one operation that cannot be interrupted: what came before it counts, the rest of this part is given up
                    p.kill()
                    p.wait()
                    del running[k]
                    stuck += 1
                    results[k] = b["res"]
                    if b["res"]["subs"].get(b["sub"]):
                        b["res"]["subs"][b["sub"]]["timeouts"] += 1
                    if b["res"]["violation"] and violation is None:
                        violation = b["res"]["violation"]
                    elif b["sub"]:
                        pending.append((k[0], b["sub"], k[1] + 1))
                    continue
                del running[k]
                if os.path.exists(out):
                    r = json.load(open(out))
                    results[k] = r
                    if r["violation"] and violation is None:
                        violation = r["violation"]
                    if r["error"] and error is None:
                        error = r["error"]
                else:
                    error = error or "shard %d ended with %r and no result: %s" % (k[0], rc, open(os.path.join(work, "log%d" % k[0]), errors="replace").read()[-2000:])
            if violation:
                pending = []
                for p, _ in running.values():
                    p.kill()
                for p, _ in running.values():
                    p.wait()
                running = {}
                break
            time.sleep(0.05)
    finally:
        for p, _ in running.values():
            p.kill()
        shutil.rmtree(work, ignore_errors=True)

    ev = evidence(a, tier, results, violation, time.time() - t0, stuck)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", "%s.json" % a.prop)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    if violation:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", "%s_%s.json" % (a.prop, violation["sub"].replace(" ", "-")))
        with open(rp, "w") as f:
            json.dump({"property": a.prop, "sub": violation["sub"], "case": violation["case"], "message": violation["message"], "seed": a.seed, **({"history": violation["history"]} if "history" in violation else {})}, f, indent=1)
        print(violation["sub"] + ": " + violation["message"])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    if error:
        sys.stderr.write("check error:\n" + error + "\n")
        sys.exit(2)
    kf = known_findings(a.prop)
    for r in results.values():
        for fid, still in r.get("known", {}).items():
            if fid in kf and still:
                print("KNOWN-FINDING: property=%s id=%s %s" % (a.prop, fid, kf[fid]))
            elif still:
                print("unlisted known finding %s" % fid)
                print("VIOLATION property=%s replay=%s" % (a.prop, os.path.join(ROOT, "known_findings.txt")))
                sys.exit(1)
    c = ev["coverage"]
    print("%s held: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs" % (a.prop, c["evaluations"], c["distinct_nontrivial"], c["inconclusive"], ev["wall_s"]))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(c["sub_checks"], indent=1))
    sys.exit(0)


STUCK_CPU_SECONDS = 60


def is_stuck(pid, out):
    """The worker's last sign of life, if that is more than a minute of its CPU time ago."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        cpu = (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
        if cpu < STUCK_CPU_SECONDS:
            return None
        with open(out + ".beat") as f:
            b = json.load(f)
    except (OSError, ValueError, IndexError):
        return None
    return b if cpu - b["cpu"] > STUCK_CPU_SECONDS else None


def evidence(a, tier, results, violation, wall, stuck=0):
    spec = json.load(open(os.path.join(ROOT, "harness", "rules.json")))
    rule = spec.get(a.prop, {})
    subs = {}
    nt = {}
    samples = []
    for k in sorted(results):
        for name, s in results[k]["subs"].items():
            d = subs.setdefault(name, {"evaluations": 0, "discarded": 0, "inconclusive": 0, "labels": {}, "cpu_s": 0})
            d["evaluations"] += s["evals"]
            d["discarded"] += s["discards"]
            d["inconclusive"] += s["timeouts"]
            if os.environ.get("VERIF_VERBOSE"):
                for x in s["slow"]:
                    print("slow:", json.dumps(x))
            d["cpu_s"] = round(d["cpu_s"] + s["cpu"], 1)
            for l, n in s["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + n
            nt.setdefault(name, set()).update(s["nontrivial"])
            if len([x for x in samples if x["sub"] == name]) < 3:
                samples.extend(s["samples"][:1])
    for name in subs:
        subs[name]["distinct_nontrivial"] = len(nt.get(name, ()))
        subs[name]["labels"] = dict(sorted(subs[name]["labels"].items()))
    cov = {
        "evaluations": sum(d["evaluations"] for d in subs.values()),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in subs.values()),
        "rule": rule.get("rule", ""),
        "samples": samples[:24],
        "discarded": sum(d["discarded"] for d in subs.values()),
        "inconclusive": sum(d["inconclusive"] for d in subs.values()),
        "sub_checks": subs,
        "shards_reported": len({k for k, _ in results}),
        "workers_stuck": stuck,
    }
    return {
        "property": a.prop,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": rule.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }


if __name__ == "__main__":
    main()
