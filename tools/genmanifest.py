#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED comes from the rules registered in the analyzer's source."""
import json, os, re, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
src="".join(open(f).read() for f in sorted(glob.glob(V+"/analyzer/*.go")))
what=dict(re.findall(r'reg\("(C\d\d)", [^"]+, "((?:[^"\\]|\\.)*)"\)',src))
tech=json.load(open(V+"/tools/techniques.json"))
NA={
 "N03":"Fairness and eventual scheduling depend on the Go scheduler and on user code terminating; no sound static argument on this source bounds them.",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in what:
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"bash check.sh "+i+" thorough",
         "technique":tech.get(i,tech["*"]),"level":"other",
         "level_note":"Static: every abstract path of the anchored functions was checked against the rule ("+what[i].replace('\\"','"')+"). Sound up to the models of the standard library and third-party calls, loops summarised by arbitrary iterations, and the trusted dependencies named in DESIGN.md."})
    else:
        na.append({"property":i,"reason":NA.get(i,"No static check for this property has been built yet.")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo. Static analysis only; see DESIGN.md."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
