#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and claims.json (the list of claimed checks)."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
claims=json.load(open(here+'/claims.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
   "notes":"Contract-based deductive verification: gov (Go to Verus VC generator in /verif/gov) + contracts in /verif/contracts."}
for p in props:
    c=claims["claimed"].get(p["id"])
    if c is None:
        m["not_applicable"].append({"property":p["id"],"reason":claims["na"].get(p["id"],"no check built yet")})
    else:
        m["checks"].append({"property":p["id"],"quick_cmd":"./check %s"%p["id"],"thorough_cmd":"./check %s"%p["id"],
          "technique":c.get("technique","contract-based deductive verification of the real code: VC generation from /repo's Go source (gov), discharged by Verus/Z3; executable-contract search for a failing input"),
          "level":c.get("level","proof"),"level_note":c["note"]})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
