#!/usr/bin/env python3
"""refac.py [-p PROPS] NAME... : applies a behaviour-preserving edit (tools/refactors/NAME.py: edits=[(file, old, new)], props="C04 C24")
to a scratch copy and runs the checks, which must stay quiet."""
import sys,os,subprocess,shutil,tempfile,glob
V="/verif"
args=sys.argv[1:]; props=None
if args and args[0]=="-p": props=args[1].split(","); args=args[2:]
if not args: args=[os.path.basename(f)[:-3] for f in sorted(glob.glob(V+"/tools/refactors/*.py"))]
tmp=tempfile.mkdtemp(prefix="refac-",dir="/tmp"); repo=tmp+"/repo"
subprocess.check_call(["cp","-a",os.environ.get("REFAC_REPO","/repo"),repo])
env=dict(os.environ,PHX_VERIF=tmp+"/v"); os.makedirs(tmp+"/v"); shutil.copy(V+"/known-findings.json",tmp+"/v/")
for n in args:
    ns={}; exec(open(f"{V}/tools/refactors/{n}.py").read(),ns)
    subprocess.check_call(["git","checkout","-q","--","."],cwd=repo); subprocess.check_call(["git","clean","-fdq"],cwd=repo)
    bad=False
    for f,old,new in ns["edits"]:
        p=f"{repo}/{f}"
        if old is None: open(p,"w").write(new); continue
        s=open(p).read()
        if s.count(old)!=1: print(n,"edit matches",s.count(old),"in",f,repr(old[:50])); bad=True; break
        open(p,"w").write(s.replace(old,new))
    if bad: continue
    mods=sorted({e[0].split("/")[0] for e in ns["edits"]})
    for m in mods:
        r=subprocess.run(["bash","-c",f". /opt/vp/env.sh; cd {repo}/{m} && go build ./... && go test -count=1 ./... 2>&1 | grep -E 'FAIL|panic' ; true"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.stdout.strip(): print(n,"BUILD/TEST",r.stdout[:800]); bad=True
    if bad: continue
    ps=props or ns.get("props","all").split()
    for p in ps:
        r=subprocess.run([V+"/bin/phx","-prop",p,"-repo",repo],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
        l=[x[:260] for x in r.stdout.splitlines() if ": rule " in x and not x.startswith("  ")]
        print(n,p,"quiet" if r.returncode==0 else "ALARM %d"%r.returncode,*(["\n   "+x for x in l[:5]]))
shutil.rmtree(tmp)
