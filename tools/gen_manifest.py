#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+"/bin"); sys.dont_write_bytecode=True
from checks import CHECKS
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
checks=[]; na=[]
for p in props:
    i=p["id"]; s=CHECKS.get(i)
    if not s: na.append({"property":i,"reason":"its exhaustive check is not built yet"}); continue
    checks.append({"property":i,"quick_cmd":"bin/check %s --tier quick"%i,"thorough_cmd":"bin/check %s --tier thorough"%i,
        "technique":s["technique"],"level":s["level"],"level_note":s["note"]})
m={"version":1,"setup_cmd":"bin/setup","hooks":{"guard":"none","enable":"no hooks: the checks compile /repo's unmodified sources and interpose libc calls with objcopy --redefine-syms","source_commits":[]},
   "checks":checks,"not_applicable":na,"notes":"See DESIGN.md. Violations replay with bin/check ID --replay FILE."}
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1); open(R+"/MANIFEST.json","a").write("\n")
