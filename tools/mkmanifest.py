#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties of properties.jsonl that have a check (tools/claims.json)."""
import json, os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(d,"properties.jsonl"))]
claims=json.load(open(os.path.join(d,"tools/claims.json")))
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in claims:
        t,n=claims[i]
        checks.append(dict(property=i,quick_cmd="./check.sh %s"%i,thorough_cmd="VERIF_TIER=thorough ./check.sh %s"%i,technique=t,level="exploration",level_note=n))
    else:
        na.append(dict(property=i,reason="no check yet"))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(d,"MANIFEST.json"),"w"),indent=1)
