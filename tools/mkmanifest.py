#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json: every property of properties.jsonl that has harnesses is claimed."""
import json, os, re, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have=set()
for f in glob.glob(V+"/gopath/src/harness/*.go"):
    have|=set(re.findall(r"^func (C\d\d)_\w+\(\)",open(f).read(),re.M))
NA={}
G=("The generator (C++) is compiled from /repo's tree with a stand-in for the rest of the Thrift compiler (thriftc: the "
   "repository has only the generator) and run on the fixed IDL programs in thriftc/idl; what it generates is what is executed symbolically.")
NOTE={i:G for i in ("C31","C32","C33","C34","C36")}
GEN=("Every path of the harnesses through the real code (built to SSA from /repo's working tree on each run) is decided "
     "by z3 for all values within the bounds listed per harness in DESIGN.md and in the evidence; each counterexample is replayed natively "
     "before it is reported. Trusts the SSA builder, the executor's instruction semantics and the listed library models, "
     "which are cross-checked by native runs of sampled paths.")
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"./run.sh %s"%i,"thorough_cmd":"./run.sh %s -tier thorough"%i,
          "technique":"symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3) within bounds",
          "level":"model_checking","level_note":(NOTE.get(i,"")+" "+GEN).strip()})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"No check yet.")})
m["notes"]="No hooks: harnesses live in /verif/gopath/src/harness and call the exported API of the packages in /repo. The commits in /repo are fix: commits only (known_findings.json)."
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"claimed;",[x["property"] for x in m["not_applicable"]])
