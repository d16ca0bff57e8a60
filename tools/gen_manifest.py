#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness, not_applicable for the others."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
meta=json.load(open(V+"/harness/meta.json"))
NA=json.load(open(V+"/tools/not_applicable.json")) if os.path.exists(V+"/tools/not_applicable.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in meta and glob.glob(V+"/harness/%s*.cpp"%i):
        checks.append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,
          "technique":"deterministic simulation with fault injection: seeded search over thread schedules, virtual time and injected faults; history and invariant oracles; replayable minimised seeds",
          "level":"exploration","level_note":meta[i].get("note","Sampled schedules and faults of the real headers, sequentially consistent simulated machine; "+meta[i].get("rule",""))[:600]})
    else: na.append({"property":i,"reason":NA.get(i,"No harness in this commit (work in progress); nothing is claimed for it.")})
json.dump({"version":1,"setup_cmd":"python3 check.py setup","checks":checks,"not_applicable":na},open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
