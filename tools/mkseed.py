#!/usr/bin/env python3
# mkseed.py ID PROPERTY FILE : reads a JSON description from stdin {"edits":[[file,old,new],...],"needs":..., "breaks":..., "test":"pkg", "demo": go test source}
import json,sys,subprocess,os,shutil,tempfile
def make(id,prop,edits,needs,breaks,pkg,demo,support=()):
    # support: harness files copied beside the demonstration
    d=f"/verif/seeded/{id}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t=tempfile.mkdtemp(prefix="mkseed",dir="/tmp")
    subprocess.check_call(["git","-C","/repo","worktree","prune"])
    subprocess.check_call(["cp","-a","/repo",t+"/repo"])
    for f,o,n in edits:
        p=f"{t}/repo/{f}"; s=open(p).read()
        assert s.count(o)>=1,(id,f,"missing",o)
        assert s.count(o)==1,(id,f,"ambiguous",s.count(o))
        open(p,"w").write(s.replace(o,n))
    subprocess.call(["gofmt","-l","-w"]+[f"{t}/repo/{f}" for f,_,_ in edits],stdout=subprocess.DEVNULL)
    diff=subprocess.check_output(["git","-C",t+"/repo","diff"]).decode()
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(t)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo_test.go","w").write(demo)
    for f in support: shutil.copy("/verif/replay/"+f,d+"/"+f)
    open(d+"/demo.sh","w").write("""#!/bin/bash
# runs an in-package test through an overlay that hides the package's own tests; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 - "$PWD/PKG" "$here" > "$t/ov.json" <<'P'
import sys,json,glob
r={f:"" for f in glob.glob(sys.argv[1]+"/*_test.go")}
for f in glob.glob(sys.argv[2]+"/*_test.go"): r[sys.argv[1]+"/zz_"+f.split("/")[-1]]=f
print(json.dumps({"Replace":r}))
P
GOFLAGS=-mod=mod GOPROXY=off timeout 250 go test -overlay "$t/ov.json" -vet=off -count=1 -run '^TestDemo$' ./PKG
""".replace("PKG",pkg))
    os.chmod(d+"/demo.sh",0o755)
