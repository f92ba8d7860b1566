#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claim table below and properties.jsonl."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
AI="static analysis: interprocedural abstract interpretation over go/ssa "
exec(open(os.path.join(here,"tools","claims.py")).read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMS:
        t,n=CLAIMS[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"other","level_note":n})
    else:
        na.append({"property":i,"reason":NA[i]})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,
   "notes":"All checks are one analyser (gotcheck, built offline by build.sh from /verif/gotcheck) that type-checks /repo's current source, builds SSA and decides each property without running it. No hooks in /repo."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
print(len(checks),"claimed",len(na),"n/a")
