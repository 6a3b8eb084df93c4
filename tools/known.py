#!/usr/bin/env python3
# Regenerates the "fixed" entries of known-findings.json from /repo's fix commits.
import json,os,subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
MAP=[("IsHigh","C01"),("scalar encodings of the wrong","C02"),("wide scalars","C02"),("ToScalarBytes","C02"),
("DeserializeTagged","C03"),("SerializeUncompressed","C03"),("malformed point","C03"),("receiver of AddPoints","C04"),
("MulScalar","C10"),("interpolation base","C10"),("count coefficients","C12"),("different kinds are not equal","C12"),
("check openings of either","C12"),("kind of serialised Pedersen","C05"),("malformed serialised openings","C05"),("decode Pedersen","C05"),
("random oracle inputs longer","C08"),("successor index","C22"),("fill buffers","C09"),("negative lengths","C07"),
("Secret.From","C17"),("invalid thresholds and unknown","C17"),("product dealings without","C18"),("compare a transcript","C19"),
("transcripts of unknown operations","C19"),("decoded openings when combining","C20"),("lists of dealers and openings","C20"),("random transcripts without","C19"),
("negative recipient","C18"),("wrapped transcript","C18"),("malformed proofs or empty","C18"),("both openings of signature","C23"),("accept decoded openings and reject","C23"),("product proof copies","C26"),("random polynomials own","C26")]
old=[f for f in json.load(open("known-findings.json")) if f.get("status")=="known"]
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    ps=[p for k,p in MAP if k in s]
    assert len(ps)==1,(s,ps)
    out.append({"property":ps[0],"status":"fixed","commit":h,"what":s[5:],"text":f"fixed: property={ps[0]} {h} {s[5:]}"})
json.dump(old+out,open("known-findings.json","w"),indent=1)
