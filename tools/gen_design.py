#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.md.in: fills in the planted bugs (tools/caught.txt,
the output of catch.sh), the list of facets (harness list) and the counts and times
of the last quick runs (evidence/)."""
import json, os, re, subprocess, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(V+"/DESIGN.md.in").read()
hit={}
for l in open(V+"/tools/caught.txt"):
    m=re.match(r"(\S+) (\S+) (caught|MISSED \S+) (\d+)s ?(.*)",l)
    if m:
        f=re.search(r"facet=(\S+)",m[5]) or re.search(r"(?:[A-Z]\d\d)/([\w-]+)",m[5])
        b=re.search(r"\[?build[= ](\w+)",m[5])
        hit[m[1]]=(m[3],m[4],f[1] if f else "?")
rows=["| bug | property | needs | caught by (s) |","|---|---|---|---|"]
miss=0
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    h=hit.get(d)
    c="not run" if not h else (f"{m['property']}/{h[2]} ({h[1]})" if h[0]=="caught" else "**missed**")
    miss+= not h or h[0]!="caught"
    n=re.sub(r"\s+"," ",m["needs"]).replace("|","\\|")
    rows.append(f"| {d} | {m['property']} | {n} | {c} |")
s=s.replace("@@SEEDS@@","\n".join(rows))
out=subprocess.run([sys.argv[1],"list"],capture_output=True,text=True,check=True).stdout
fl=[]
for l in sorted(out.splitlines()):
    m=re.match(r"(\S+) quick=(\d+) thorough=(\d+) (.*)",l)
    fl.append(f"* `{m[1]}` {m[2]} / {m[3]}: {m[4]}")
s=s.replace("@@FACETS@@","\n".join(fl))
for p in re.findall(r"@([A-Z]\d\d)\b",s):
    e=json.load(open(f"{V}/evidence/{p}.json"))
    n=e["coverage"]["evaluations"]
    s=s.replace("@"+p,f"{n/1000:.1f} k, {e['wall_s']:.0f} s" if n<10000 else f"{n//1000} k, {e['wall_s']:.0f} s",1)
open(V+"/DESIGN.md","w").write(s)
print("bugs not caught or not run:",miss)
