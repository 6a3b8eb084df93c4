#!/usr/bin/env python3
"""Fills the per-property and planted-bug sections of DESIGN.md (between markers) from tools/design_notes.json,
the harness doc comments and seeded/*/meta.json."""
import json,re,os,glob
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
notes=json.load(open("tools/design_notes.json")) if os.path.exists("tools/design_notes.json") else {}
props=[json.loads(l) for l in open("properties.jsonl")]
out=[]
for p in props:
    i=p["id"]; f=f"harness/{i.lower()}/h.go"
    out.append(f"### {i} {p['title']}\n")
    n=notes.get(i)
    if n: out.append(n+"\n")
    if os.path.exists(f):
        s=open(f).read()
        for m in re.finditer(r"((?://[^\n]*\n)+)func (H_\w+)\(\)",s):
            d=" ".join(l[2:].strip() for l in m.group(1).split("\n") if l and not l.startswith("//verif"))
            t=" (thorough tier)" if "tier=thorough" in m.group(1) else ""
            out.append(f"- `{m.group(2)}`{t}: {d.strip()}")
        for m in re.finditer(r"(?<!\n)\n\nfunc (H_\w+)\(\)",s):
            out.append(f"- `{m.group(1)}`")
    else: out.append("- not built yet")
    out.append("")
seeds=["| id | property | needs | caught by |","|---|---|---|---|"]
caught=json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    k=m.split("/")[1]; j=json.load(open(m)); seeds.append(f"| {k} | {j['property']} | {j['needs']} | {caught.get(k,'?')} |")
d=open("DESIGN.md").read()
def fill(d,tag,body):
    b=f"<!-- {tag} -->";e=f"<!-- /{tag} -->"
    if b in d: return d[:d.index(b)]+b+"\n"+body+"\n"+e+d[d.index(e)+len(e):]
    return d.replace(f"@{tag}@",b+"\n"+body+"\n"+e)
d=fill(d,"PROPS","\n".join(out)); d=fill(d,"SEEDS","\n".join(seeds))
open("DESIGN.md","w").write(d)
