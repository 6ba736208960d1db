#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness has facets for."""
import json, subprocess, re, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src="".join(open(os.path.join(V,"harness",f)).read() for f in os.listdir(os.path.join(V,"harness")) if f.endswith(".go"))
have=set(re.findall(r'F\("([A-Z]\d\d)"',src))
TECH={
 "H01":"property-based testing, differential against independent reference hashes",
 "H02":"stateful (model-based) property testing of write/sum/reset histories",
 "R01":"structure-aware fuzzing of every entry point with crash/status oracle",
 "R02":"property-based testing with a buffer-integrity monitor",
 "R03":"stateful and concurrent property testing against a sequential model",
 "R04":"property-based testing, cause-of-refusal oracle from the documentation",
}
NOTE="Generated-input search against an explicit oracle (independent big.Int models in harness/ref, algebraic relations, round trips); a counterexample is shrunk by rapid and written as a replay file. Assures the absence of counterexamples among the generated cases only; trusts the reference models, the Go toolchain and pgregory.net/rapid."
checks=[];na=[]
for l in open(os.path.join(V,"properties.jsonl")):
    p=json.loads(l); i=p["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          technique=TECH.get(i,"property-based testing (rapid) with a reference-model / metamorphic oracle and shrinking"),level="exploration",level_note=NOTE))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na,
  notes="No hooks in /repo: every check uses the library's exported API only. ./check.sh replay FILE re-runs a replay file.")
open(os.path.join(V,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),"claimed;","unclaimed:",[n["property"] for n in na])
