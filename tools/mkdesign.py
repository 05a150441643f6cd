#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_props.md, the fixes
in known_findings.txt, tools/costs.json and tools/detection.json."""
import json,os,re
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
rd=lambda f:open(V+"/"+f).read()
out=[rd("tools/design_head.md"),rd("tools/design_props.md"),"\n"]
out.append("## 3. Cost\n\nMeasured here, 8 cores. Paths are symbolic paths; queries exclude cached ones.\n\n| property | quick s | paths | queries | solver s | thorough s | thorough exhaustive |\n|---|---|---|---|---|---|---|\n")
c=json.loads(rd("tools/costs.json"))
for i in range(1,31):
    p="C%02d"%i
    q=c.get(p+" quick",{});t=c.get(p+" thorough",{})
    out.append("| %s | %s | %s | %s | %s | %s | %s |\n"%(p,q.get("s","-"),q.get("paths","-"),q.get("queries","-"),q.get("solver","-"),t.get("s","-"),{True:"yes",False:"no: "+t.get("why","")}.get(t.get("full"),"-")))
out.append("\n"+rd("tools/design_tail.md"))
out.append("\n## 6. Planted bugs and which check catches them\n\nQuick tier, `tools/plant/plant.py` builds and confirms them; none is read by a check.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n")
d=json.loads(rd("tools/detection.json"))
for b in sorted(os.listdir(V+"/seeded")):
    m=json.loads(rd("seeded/%s/meta.json"%b))
    out.append("| %s | %s | %s | %s | %s |\n"%(b,m["property"],m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/"),d.get(b,"?")))
out.append("\n## 7. Repaired defects\n\nEvery one was first shown by a check on the real code and replayed natively; each is one `fix:` commit in /repo.\n\n")
for l in rd("known_findings.txt").splitlines():
    m=re.match(r"fixed: property=(C\d\d) (\w+) (.*)",l)
    if m: out.append("* %s `%s` %s\n"%m.groups())
open(V+"/DESIGN.md","w").write("".join(out))
