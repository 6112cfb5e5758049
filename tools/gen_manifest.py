#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  A property is claimed when it has an entry in CLAIMS."""
import json,os
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
MC="model_checking"; FE="fault_enumeration"
HIST="explicit enumeration of all operation histories up to a depth on the real store, against a map model"
CLAIMS={
"C01":(HIST,MC,"Every operation sequence up to the stated depth over the stated alphabet and initial stores is executed on the real code; every prefix is compared with the model. Nothing beyond the depth, alphabet and store sizes is claimed."),
}
exec(open(os.path.join(HERE,"claims.py")).read()) if os.path.exists(os.path.join(HERE,"claims.py")) else None
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in CLAIMS:
        t,l,n=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=l,level_note=n))
    else: na.append(dict(property=i,reason="no check built yet"))
m=dict(version=1,setup_cmd="bash check.sh build race",checks=checks,not_applicable=na,
 notes="No hooks are added to /repo: device calls and locks are observed through a build overlay of the Go standard library (mc/overlay.py). See DESIGN.md.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
print(len(checks),"claimed",len(na),"not")
