#!/usr/bin/env python3-vt
"""Rewrites the "fixed" list of /verif/known_findings.json from /repo's fix: commits (the property each broke is listed here)."""
import json, os, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP={}
for l in open(V+"/tools/fixes.txt"):
    h,p=l.split()[:2]; PROP[h]=p
f=V+"/known_findings.json"
d=json.load(open(f)) if os.path.exists(f) else {"known":[]}
d["fixed"]=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        d["fixed"].append("fixed: property=%s %s %s"%(PROP[h[:7]],h[:7],s[4:].strip()))
json.dump(d,open(f,"w"),indent=1)
print(len(d["fixed"]),"fixed",len(d["known"]),"known")
