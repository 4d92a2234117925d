#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os, re
top=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted | caught by | what it needs |","|---|---|---|"]
for f in sorted(glob.glob(top+"/seeded/*/meta.json")):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |"%(i,", ".join(m.get("caught_by",[m["property"]])) or "(none)",m["needs"].replace("|","/")))
p=top+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- table -->.*<!-- end -->",lambda _:"<!-- table -->\n"+"\n".join(rows)+"\n<!-- end -->",s,flags=re.S)
open(p,"w").write(s); print(len(rows)-2,"planted bugs")
