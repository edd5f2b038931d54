#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the registry (bin/checks.py), properties.jsonl, seeded/*/meta.json, known_findings.json
and tools/design_tail.md."""
import os,sys,json,glob
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.dont_write_bytecode=True; sys.path.insert(0,ROOT+"/bin")
from checks import CHECKS
P=[json.loads(l) for l in open(ROOT+"/properties.jsonl")]
COST=json.load(open(ROOT+"/tools/costs.json"))
o=[open(ROOT+"/tools/design_head.md").read().rstrip(),"","## The properties, one by one","",
"For each: what decides it, what is enumerated (quick tier; the thorough tier as an addition), the oracle, what is deliberately left",
"open, the cost of the quick tier on 8 idle cores, and why the repository's tests cannot reach it.",""]
for p in P:
    c=CHECKS[p["id"]]; b=c["bounds"]; b=b if isinstance(b,dict) else {"quick":b,"thorough":""}
    o+=["### %s %s"%(p["id"],p["title"]),"",
        "* **Decided by** %s (`harness/%s`%s)."%(c["technique"],c["harness"][0],", fault enumeration" if c["level"]=="fault_enumeration" else ""),
        "* **Enumerated (quick)**: %s."%b["quick"],
        "* **Thorough**: %s."%b["thorough"],
        "* **Oracle**: %s."%c["oracle"],
        "* **Limits**: %s"%c["note"],
        "* **Cost**: about %s s (quick)."%COST.get(p["id"],"?"),
        "* **Beyond the tests**: %s"%p["why_tests_cant"],""]
o+=["## Planted bugs","",
"Each lies in `seeded/<id>/` (patch, demonstration, meta.json), is built by `tools/mkseed.py` from `tools/seedsrc/<id>.py` and was",
"confirmed in a scratch copy: it builds, passes the stable tests, its demonstration passes without it and fails with it. The last",
"column names the check that reports it (`mkseed.py --check`, confirmed for each).","","| bug | property | needs | what it breaks | caught by |","|---|---|---|---|---|"]
for m in sorted(glob.glob(ROOT+"/seeded/*/meta.json"),key=lambda m:(json.load(open(m))["property"],m)):
    d=json.load(open(m)); o.append("| %s | %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["property"],d["needs"],d["what_it_breaks"],d["property"]))
o+=["","## Defects of libsquash found by the checks","",
"All were shown against the real code by the check of the property. Those marked fixed are repaired by a `fix:` commit of their own; those",
"marked known are recorded, because a repair is not small (fixed entries of `known_findings.json` suppress nothing; known ones name one case and its exact symptom).",""]
for f in json.load(open(ROOT+"/known_findings.json"))["findings"]: o.append("* %s %s `%s` — %s"%(f["property"],f["status"],f.get("commit","-"),f["what"]+(" ("+f["why_not_repaired"]+")" if "why_not_repaired" in f else "")))
o+=["",open(ROOT+"/tools/design_tail.md").read().rstrip(),""]
open(ROOT+"/DESIGN.md","w").write("\n".join(o))
