#!/usr/bin/env python3
# Writes MANIFEST.json from tools/claims.json and properties.jsonl.
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
claims=json.load(open(os.path.join(here,"claims.json")))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]; c=claims.get(i)
    if c and "na" not in c:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "technique":c.get("technique","contract-based deductive verification (gover VC generator over the SSA of the real code; z3/cvc5)"),
          "level":c.get("level","proof"),"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":(c or {}).get("na","not claimed yet: no check built so far")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
 "notes":"Each check regenerates all verification conditions from /repo's current source, discharges them with z3/cvc5, and runs a labelled bounded replay of the real code against an independent oracle to find a concrete failing input."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
print(len(checks),"claimed",len(na),"not applicable")
