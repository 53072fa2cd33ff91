"""Author-time tool: plants a bug from a spec in a scratch copy, confirms it, stores it under seeded/, and runs checks against the copy.

usage: plant.py SPEC.py [ID ..]        SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
"""
import json, os, re, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
base = "/tmp/base"


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(w):
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + w + "/junit.xml", "tests"], w, {"PYTHONPATH": w + "/src"})
    import xml.etree.ElementTree as T
    ok = set()
    for c in T.parse(w + "/junit.xml").getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(w + "/junit.xml")
    return stable() - ok


def demo(w, d):
    try:
        r = run(["bash", d + "/demo.sh"], w, {"PYTHONPATH": w + "/src"}, 300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    for b in spec["BUGS"]:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        w = tempfile.mkdtemp(prefix="plant_")
        try:
            shutil.rmtree(w)
            shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("__pycache__"))
            for f, old, new in b["edits"]:
                p = os.path.join(w, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT DOES NOT APPLY", s.count(old), old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = run(["git", "diff"], w).stdout
                d = os.environ.get("DEST", "/verif/seeded") + "/" + b["id"]
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                bad = tests(w)
                g = tempfile.mkdtemp(prefix="plant_")
                shutil.rmtree(g)
                shutil.copytree("/repo", g, ignore=shutil.ignore_patterns("__pycache__"))
                r0, o0 = demo(g, d)
                shutil.rmtree(g)
                r1, o1 = demo(w, d)
                cur, orig = None, False
                for l in diff.splitlines():
                    if l.startswith("--- a/"):
                        cur = set(x.strip() for x in open(os.path.join(base, l[6:].strip())))
                    elif l.startswith("-") and len(l.strip()) > 8 and l[1:].strip() in cur:
                        orig = True
                if not orig:
                    print(b["id"], "CHANGES NO ORIGINAL LINE")
                fine = orig and not bad and r0 == 0 and r1 not in (0, "timeout")
                print(b["id"], b["property"], "confirmed" if fine else "NOT CONFIRMED", "tests missing: %s" % sorted(bad) if bad else "", "demo %r %r" % (r0, r1), o0 if r0 else "", flush=True)
                if not fine:
                    shutil.rmtree(d)
                    continue
                if os.environ.get("NOCHECK"):
                    continue
                r = subprocess.run(["python3", "harness/main.py", b["property"], "--tier", "quick"], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print("   check:", "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (r.stdout + r.stderr).strip()[-500:], flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
