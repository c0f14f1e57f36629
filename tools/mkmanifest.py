#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/props.json (claimed) and the not-applicable table."""
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=json.load(open(root+"/contracts/props.json"))
na=json.load(open(root+"/contracts/not_applicable.json"))
listed=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
checks=[]
for p in listed:
    if p not in props: continue
    c=props[p]
    checks.append(dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",
      technique=c.get("technique","contract-based deductive verification of the Go source: govc generates verification conditions from go/ssa of /repo and SMT solvers discharge them function by function"),
      level="proof",level_note=c.get("level_note","unbounded proof over the function contracts in contracts/; assumptions and trusted contracts are listed in the evidence file")))
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="verif",enable="none: contracts and harnesses live in /verif and are overlaid",source_commits=[]),
  checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in na.items() if k in listed])
missing=[p for p in listed if p not in props and p not in na]
assert not missing, missing
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(m["not_applicable"]),"n/a")
