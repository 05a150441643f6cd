#!/usr/bin/env python3
"""collect.py: records cost figures of the evidence files into tools/costs.json."""
import json,glob,os
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
f=V+"/tools/costs.json"; c=json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(V+"/evidence/C*.json")):
    d=json.load(open(e)); k=d["coverage"]
    c[d.get("property",os.path.basename(e)[:3])+" "+d["tier"]]=dict(s=round(d.get("duration_s") or d.get("wall_s")),paths=k["states"],queries=k["solver_queries"],solver=round(k["solver_s"]),full=k["exhausted_within_bounds"],why="; ".join((k.get("incomplete") or []))[:200])
json.dump(c,open(f,"w"),indent=0,sort_keys=True)
