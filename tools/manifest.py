#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that has a harness package.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
props=[json.loads(l) for l in open("properties.jsonl")]
NOTES={}
if os.path.exists("tools/notes.json"): NOTES=json.load(open("tools/notes.json"))
NA={"C06":"The mapping half needs identities over field exponentiations of about 2^254 (square roots, inversion) and degree-11 rational isogeny maps over a 256-bit prime, which z3 does not decide within reach; no check is claimed for it."}
checks=[];na=[]
for p in props:
    i=p["id"]; d="harness/"+i.lower()
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    if not os.path.isdir(d): na.append({"property":i,"reason":"check not built yet"}); continue
    checks.append({"property":i,"quick_cmd":f"./run.sh check {i} quick","thorough_cmd":f"./run.sh check {i} thorough",
      "technique":"symbolic execution of the Go SSA of the current tree; every assertion discharged by z3 (finite fields, bit-vectors) over all inputs within the bounds; counterexamples replayed natively",
      "level":"model_checking",
      "level_note":NOTES.get(i,"Every assertion holds for all inputs within the bounds stated per harness in the evidence.")+" Trusts: z3, the SSA builder, and the engine's exact-arithmetic model of the kryptology field/curve package and ideal-hash model, cross-checked against native runs on every invocation."})
json.dump({"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,
 "notes":"See DESIGN.md. known-findings.json lists defects found (fixed or known)."},open("MANIFEST.json","w"),indent=1)
