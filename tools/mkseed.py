#!/usr/bin/env python3
"""mkseed.py ID... : builds seeded/ID from tools/seeds/ID.py and confirms it in a scratch copy.
A seed file defines: prop, edits=[(file, old, new)], mod, pkg, test (Go test source), needs, breaks;
optional run (default TestSeed), race (bool), tests=[module,...] extra modules to test."""
import sys, os, json, subprocess, shutil, tempfile
V="/verif"
def sh(cmd, cwd, t=600):
    p=subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; "+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
def main(id):
    ns={}
    exec(open(f"{V}/tools/seeds/{id}.py").read(),ns)
    tmp=tempfile.mkdtemp(prefix="seed-"+id+"-",dir="/tmp")
    repo=tmp+"/repo"
    try:
        subprocess.check_call(["cp","-a","/repo",repo])
        subprocess.check_call(["git","checkout","-q","--","."],cwd=repo)
        d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
        for f,old,new in ns["edits"]:
            s=open(f"{repo}/{f}").read()
            if s.count(old)!=1: print(id,"FAIL: edit matches",s.count(old),"times in",f); return 1
            open(f"{repo}/{f}","w").write(s.replace(old,new))
        rc,diff=sh("gofmt -l $(git diff --name-only)",repo)
        if diff.strip(): print(id,"note: gofmt",diff)
        diff=subprocess.check_output(["git","diff"],cwd=repo,text=True)
        open(d+"/patch.diff","w").write(diff)
        run=ns.get("run","TestSeed"); mod=ns["mod"]; pkg=ns["pkg"]
        race="-race " if ns.get("race") else ""
        if "demo" in ns:
            demo=ns["demo"]
        else:
            open(d+"/demo_test.go.txt","w").write(ns["test"].lstrip("\n"))
            demo=f'''#!/bin/bash
# fails when the planted bug is present
. /opt/vp/env.sh >/dev/null 2>&1
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
root=$PWD
printf '{{"Replace":{{"%s":"%s"}}}}' "$root/{mod}/{pkg}/zz_planted_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
cd "$root/{mod}" && go test {race}-overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^{run}$' ./{pkg}
'''
        open(d+"/demo.sh","w").write(demo); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":ns["prop"],"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(d+"/meta.json","w"),indent=1)
        rc,o=sh(f"{d}/demo.sh",repo)
        if rc==0: print(id,"FAIL: demo passes with the patch\n",o[-1500:]); return 1
        if "build failed" in o or "setup failed" in o: print(id,"FAIL: demo does not build",o[-1500:]); return 1
        bad=o
        mods=sorted(set([mod]+ns.get("tests",[])))
        for m in mods:
            rc,o=sh("go build ./... && go vet ./... >/dev/null 2>&1; go test -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'",f"{repo}/{m}")
            if "FAIL" in o: print(id,"FAIL: existing tests fail with patch in",m,"\n","\n".join(l for l in o.splitlines() if "FAIL" in l or "Error" in l or "_test.go" in l)[:1500]); return 1
        checkrc,chk=sh(f"PHX_VERIF={tmp}/v; mkdir -p {tmp}/v; cp {V}/known-findings.json {tmp}/v/; export PHX_VERIF; {V}/bin/phx -prop {ns['prop']} -repo {repo}",V)
        sh("git checkout -q -- .",repo)
        rc,o=sh(f"{d}/demo.sh",repo)
        if rc!=0: print(id,"FAIL: demo fails on unchanged tree\n",o[-2500:]); return 1
        lines=[l for l in chk.splitlines() if ": rule " in l and l[:2]!="  "]
        print("\n    ".join([f"{id} OK; check {ns[chr(112)+chr(114)+chr(111)+chr(112)]} exit {checkrc} "+("CAUGHT" if checkrc==1 and "VIOLATION" in chk else "MISSED")]+[l[:300] for l in lines[:3]]))
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
    return 0
sys.exit(max([main(i) for i in sys.argv[1:]] or [0]))
