#!/usr/bin/env python3
"""Regenerate checks.json and MANIFEST.json from the registered parts."""
import json,re,glob,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS
from technique import TECH
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out={}
for pkg in sorted(os.listdir(V+"/harness")):
    d=V+"/harness/"+pkg
    if not os.path.isdir(d): continue
    for f in glob.glob(d+"/*_test.go"):
        for m in re.finditer(r'vkit\.Register\("(C\d\d)"',open(f).read()):
            p=m.group(1)
            assert out.get(p,{"pkg":pkg})["pkg"]==pkg,(p,pkg,out[p])
            out[p]={"pkg":pkg}
json.dump(dict(sorted(out.items())),open(V+"/checks.json","w"),indent=1)
checks=[];na=[]
for p in PROPS:
    i=p["id"]
    if i in out:
        t,note=TECH[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":t,"level":"exploration","level_note":note})
    else:
        na.append({"property":i,"reason":"the generated-input check of this property is not built (yet)"})
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: every check drives the exported API from outside. /repo carries only fix: commits, listed in known_findings.txt."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(sorted(out),"claimed;",[x["property"] for x in na],"not")
