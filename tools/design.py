#!/usr/bin/env python3
# writes DESIGN.md: tools/design_head.md, one section per property, tables of
# findings and planted bugs. Usage: design.py > DESIGN.md
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=lambda p:open(os.path.join(here,p)).read()
props={}
for l in R("properties.jsonl").splitlines():
    p=json.loads(l); props[p["id"]]=p
man={c["property"]:c for c in json.loads(R("MANIFEST.json"))["checks"]}
T={}
exec(R("tools/design_text.py"))
print(R("tools/design_head.md").rstrip()+"\n")
print("Every check is sampled: its assurance is the absence of violations over the workload that its evidence file counts. Cost is the wall time on 8 cores, quick / thorough.\n")
for i in sorted(props):
    print("### %s %s\n"%(i,props[i]["title"]))
    t=dict(T[i])
    for k in ("Code","Workload","Oracle","Bounds and exclusions","Beyond tests","Cost"):
        if k in t: print("* **%s**: %s"%(k,t.pop(k)))
    assert not t,(i,t)
    print()
print("## Findings\n")
print(TF.strip()+"\n")
for e in json.loads(R("known_findings.json")):
    w=e["what"].split(" ",3)[3] if e["what"].startswith("fixed:") else e["what"]
    print("* %s `%s` %s: %s"%(e["property"],e["sig"],("fixed in "+e["commit"]) if e["status"]=="fixed" else "known, not repaired",w))
print("\n## Planted bugs\n")
print(TS.strip()+"\n")
print("| bug | needs | breaks | caught by |\n|---|---|---|---|")
C=json.loads(R("tools/catches.json"))
for d in sorted(os.listdir(os.path.join(here,"seeded"))):
    m=json.loads(R("seeded/%s/meta.json"%d))
    print("| %s | %s | %s | %s |"%(d,m["needs"],m["what_it_breaks"],C.get(d,"?")))
print("\n"+TN.strip())
