#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers) from properties, meta, known_findings and seeded."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]; meta=json.load(open(V+"/harness/meta.json")); plans=json.load(open(V+"/tools/plans.json")); man=json.load(open(V+"/MANIFEST.json"))
plan=[]
for p in props:
    i=p["id"]; plan.append("### %s %s\n\nGenerated: %s\n\n%s\n"%(i,p["title"],meta.get(i,{}).get("rule","(no harness)"),plans.get(i,"")))
fx={}
for l in open(V+"/known_findings.txt"):
    m=re.match(r"(fixed|finding):\s+property=(\S+)\s+(.*)",l)
    if m: fx.setdefault(m.group(2),[]).append((m.group(1),m.group(3).strip()))
fix=[]
for k in sorted(fx):
    fix.append("* **%s**"%k); fix+=["  - %s%s"%("" if a=="fixed" else "KNOWN FINDING (not repaired): ",t) for a,t in fx[k]]
pl=["| id | property | needs | caught by |","|---|---|---|---|"]
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(f)); pl.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),d["property"],d["needs"].replace("|","/"),d.get("caught_by",d["property"]+" quick")))
na=["* %s: %s"%(x["property"],x["reason"]) for x in man["not_applicable"]] or ["Every listed property has a check."]
t=open(V+"/DESIGN.md").read()
for name,body in(("PLANS",plan),("FIXES",fix),("PLANTED",pl),("NA",na)):
    b="\n".join(body).strip()
    blk="<!-- %s begin -->\n%s\n<!-- %s end -->"%(name,b,name)
    if "@@%s@@"%name in t: t=t.replace("@@%s@@"%name,blk)
    else: t=re.sub(r"<!-- %s begin -->.*?<!-- %s end -->"%(name,name),lambda m:blk,t,flags=re.S)
open(V+"/DESIGN.md","w").write(t)
