#!/usr/bin/env python3
"""For every "fixed:" entry: undo that fix commit in a scratch worktree and run the property's check on it; the violation must be reported again.
usage: revert_check.py [commit ...]"""
import os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = [l.split(None, 3) for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("fixed:")]
bad = 0
for _, p, c, text in todo:
    if sys.argv[1:] and c not in sys.argv[1:]: continue
    pid = p.split("=")[1]
    d = tempfile.mkdtemp(prefix="rev-")
    wt = d + "/r"
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt], check=True)
        r = subprocess.run(["git", "-C", wt, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", c], capture_output=True, text=True)
        if r.returncode:
            print("CONFLICT", pid, c, text.strip()[:70], flush=True); continue
        r = subprocess.run([sys.executable, V + "/check.py", pid, "quick"], env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
        ok = r.returncode == 1 and "VIOLATION property=" + pid in r.stdout
        bad += not ok
        m = re.findall(r"MC-FAIL: .*|ERROR: Addr.*|VIOLATION.*", r.stdout)
        print("caught " if ok else "MISSED rc=%d" % r.returncode, pid, c, text.strip()[:60], "|", (m or [""])[0][:90], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt]); os.rmdir(d)
sys.exit(bad > 0)
