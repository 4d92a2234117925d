#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json, os, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here,"tools"))
from claims import CLAIMS, NOT_APPLICABLE
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
checks=[]
for p in props:
    if p in CLAIMS:
        tech,note=CLAIMS[p]
        checks.append(dict(property=p,quick_cmd=f"bash run.sh {p} quick",thorough_cmd=f"bash run.sh {p} thorough",
          evidence_file=f"evidence/{p}.json",technique=tech,level="model_checking",level_note=note))
m=dict(version=1,setup_cmd="bash run.sh --setup",checks=checks,
  not_applicable=[dict(property=p,reason=NOT_APPLICABLE.get(p,"no check has been built for it yet")) for p in props if p not in CLAIMS],
  notes="All checks are the bounded exhaustive explorer in mc/ (see DESIGN.md); run.sh builds it against /repo's working tree in a scratch directory. No hooks in /repo.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(checks),"claimed")
