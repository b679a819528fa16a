#!/usr/bin/env python3
"""Writes seeded.md (the table of planted bugs in DESIGN.md) from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught={}
p=os.path.join(root,"seeded_caught.json")
if os.path.exists(p): caught=json.load(open(p))
out=["| planted bug | property | needs | breaks | caught by |","|---|---|---|---|---|"]
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s | %s |"%(i,d["property"],d["needs"],d["what_it_breaks"],caught.get(i,"%s quick"%d["property"])))
open(root+"/seeded.md","w").write("\n".join(out)+"\n")
