#!/usr/bin/env python3
"""Development tool: write seeded/<id>/ from a python description file (SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=[files], ...)])."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    t = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in s["edits"]:
        p = t + "/r/" + f
        x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, old, x.count(old))
        open(p, "w").write(x.replace(old, new))
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for name, content in s["files"].items():
        open(d + "/" + name, "w").write(content)
        os.chmod(d + "/" + name, 0o755 if name.endswith(".sh") else 0o644)
    shutil.rmtree(t)
