#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from spec.py (texts) and props.py (checks)."""
import json, os
from spec import S
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in S:
        f.write(json.dumps(S[pid]["rec"]) + "\n")
checks = []
for pid in S:
    if pid in PROPS:
        p = PROPS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                           technique=p.get("technique", "stateless exhaustive exploration of the real code (bounded)"), level=p["level"], level_note=S[pid]["note"]))
    else:
        NA.append(dict(property=pid, reason="check not built"))
assert set(PROPS) <= set(S), set(PROPS) - set(S)
json.dump(dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=NA,
               notes="No hooks were added to the repository: the checks compile its sources unmodified and interpose at link time (--wrap)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md from design.in.md
out = []
for pid in S:
    if pid not in PROPS:
        continue
    r = S[pid]["rec"]
    out.append("### %s %s\n%s\n" % (pid, r["title"], S[pid]["note"]))
    out.append("Enumerated: %s. Anchored in %s.\n" % (r["quantifier"]["text"], ", ".join(r["anchors"]["files"])))
    for p in PROPS[pid]["parts"]:
        b = p["bounds"]
        out.append("* `%s` (%s, build %s): %s%s" % (p["part"], p["harness"], p["variant"], b["quick"], "" if b["thorough"] == b["quick"] else " *Thorough:* " + b["thorough"]))
    out.append("")
t = open(os.path.join(V, "design.in.md")).read().replace("@PROPS@", "\n".join(out))
sd = os.path.join(V, "seeded.md")
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@SEEDS@", open(sd).read().strip() if os.path.exists(sd) else ""))
