#!/usr/bin/env python3
"""seed.py ID: builds /verif/seeded/ID from tools/seeds/ID.py and confirms it in a scratch copy of /repo.
The definition sets prop, pkg, edits [(file, old, new)], demo (Go test source with TestDemo), needs, breaks."""
import sys, os, subprocess, tempfile, json, shutil
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
printf '{"Replace":{"%%s":"%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -count=1 -vet=off -timeout 240s -overlay "$T/overlay.json" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable="/bin/bash",**k)
def main(i):
    ns={}
    exec(open(f"/verif/tools/seeds/{i}.py").read(),ns)
    d=f"/verif/seeded/{i}"; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix="seed.",dir="/tmp")
    try:
        sh("cp -a /repo/. .",t)
        open(d+"/demo_test.go","w").write(ns["demo"])
        open(d+"/demo.sh","w").write(DEMO%ns); os.chmod(d+"/demo.sh",0o755)
        r=sh(f"bash {d}/demo.sh",t)
        if r.returncode: print(i,"DEMO FAILS ON UNCHANGED",r.stdout[-3000:]); return 1
        for f,o,n in ns["edits"]:
            s=open(f"{t}/{f}").read()
            if s.count(o)!=1: print(i,"edit matches",s.count(o),repr(o)); return 1
            open(f"{t}/{f}","w").write(s.replace(o,n))
        sh("gofmt -l .",t)
        diff=sh("git diff",t).stdout
        # removed lines must be lines of the original commit
        r=sh(". /opt/vp/env.sh; go build ./...",t)
        if r.returncode: print(i,"BUILD",r.stdout[-2000:]); return 1
        r=sh(". /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v ^ok",t)
        if "FAIL" in r.stdout: print(i,"TESTS FAIL",r.stdout[-1500:]); return 1
        r=sh(f"bash {d}/demo.sh",t)
        if r.returncode==0: print(i,"DEMO PASSES WITH BUG"); return 1
        if "build failed" in r.stdout: print(i,"DEMO BUILD",r.stdout[-800:]); return 1
        open(d+"/patch.diff","w").write(diff)
        json.dump({"property":ns["prop"],"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(d+"/meta.json","w"),indent=1)
        # which changed lines come from the base commit
        base=sh("git log --format=%h --reverse | head -1",t).stdout.strip()
        own=[]
        for f,o,n in ns["edits"]:
            b=sh(f"git show {base}:{f}",t).stdout
            for l in o.split("\n"):
                if l.strip() and l not in b.split("\n"): own.append((f,l.strip()))
        print(i,"CONFIRMED", "(context not in base: %s)"%own if own else "")
        if len(sys.argv)>2 or True:
            r=sh(f". /opt/vp/env.sh; timeout 900 /verif/.bin/engine check -repo {t} -verif /verif -prop {ns['prop']} -tier quick 2>&1 | grep -v '^KNOWN' | tail -40 | cut -c1-220","/verif")
            print("  CAUGHT" if "VIOLATION property=" in r.stdout else "  MISSED"); 
            import re
            hs=sorted(set(re.findall(r"^\s+(H_\w+): ",r.stdout,re.M)))
            cf="/verif/tools/caught.json"; cj=json.load(open(cf)) if os.path.exists(cf) else {}
            cj[i]=", ".join(hs) if "VIOLATION property=" in r.stdout else "not caught"
            json.dump(cj,open(cf,"w"),indent=1,sort_keys=True)
            print("   ",r.stdout.strip().replace("\n","\n    "))
        return 0
    finally:
        shutil.rmtree(t)
ids=sys.argv[1:]
for i in ids: main(i)
