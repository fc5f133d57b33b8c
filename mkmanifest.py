#!/usr/bin/env python3
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
CL={}
try:
    from claims import CLAIMS as CL, NA
except ImportError: NA={}
checks=[];na=[]
for p in P:
    i=p['id']
    if i in CL:
        c=CL[i]
        checks.append(dict(property=i,quick_cmd=f"python3-vt check.py {i} quick",thorough_cmd=f"python3-vt check.py {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=c.get('technique',"contract-based deductive verification (own VC generator on clang AST of the real headers, z3/cvc5)"),
          level="proof",level_note=c['note'],**({'theorems':c['theorems']} if 'theorems' in c else {})))
    else: na.append(dict(property=i,reason=NA.get(i,"check under construction; not claimed yet")))
json.dump(dict(version=1,setup_cmd="python3-vt setup_check.py",checks=checks,not_applicable=na,notes="see DESIGN.md"),open('/verif/MANIFEST.json','w'),indent=1)
