#!/usr/bin/env python3
"""Development tool (never used by a check): confirm planted bugs.
usage: seedcheck.py [--tests] [--no-check] [--tier T] ID...   applies each patch to /repo, builds, runs the demo, optionally the tests, and the property's check; always undoes the patch."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--tests" in args; nocheck = "--no-check" in args
tier = args[args.index("--tier") + 1] if "--tier" in args else "quick"
ids = [a for a in args if not a.startswith("--") and a != tier] or sorted(os.listdir(V + "/seeded"))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    sh("bash /opt/vp/build.sh")
    out = {"clean_demo": sh("timeout 300 sh %s/demo.sh" % d, cwd="/repo").returncode}
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    try:
        out["build"] = sh("bash /opt/vp/build.sh").returncode
        r = sh("timeout 300 sh %s/demo.sh" % d, cwd="/repo"); out["bug_demo"] = r.returncode
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            t = json.load(open("/tmp/seed.json")); out["failed_tests"] = [x for x in t["failed"]][:5]
        if not nocheck:
            r = sh("python3 check.py %s %s" % (meta["property"], tier), cwd=V)
            out["check"] = r.returncode
            if r.returncode == 1:
                out["why"] = [l for l in r.stdout.splitlines() if l.startswith("part ")][:1]
            elif r.returncode != 0:
                out["why"] = r.stdout[-800:]
    finally:
        sh("git -C /repo checkout -- .")
    ok = out["clean_demo"] == 0 and out["bug_demo"] not in (0, None) and out["build"] == 0 and not out.get("failed_tests")
    print(i, meta["property"], "VALID" if ok else "INVALID", "CAUGHT" if out.get("check") == 1 else "-" if nocheck else "MISSED", json.dumps(out), flush=True)
sh("bash /opt/vp/build.sh")
