import json, os, shutil, subprocess, sys
SRC="/tmp/plant/repo"
P="safe_autonomy_dynamics/"
A=P+"external/aerobench/"
L=A+"lowlevel/"
BM=P+"base_models.py"; SIX=P+"cwh/sixdof_model.py"; ROT=P+"cwh/rotational_model.py"; PT=P+"cwh/point_model.py"; DUB=P+"dubins.py"; INT=P+"integrators.py"; SUN=P+"cwh/sun_model.py"
SH='''#!/bin/sh
# cwd: the repository.  Exit 0: the property holds on the demonstrated input; nonzero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''
def sh(cmd, cwd=None, timeout=600, env=None):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout,env=env)
    return r.returncode, r.stdout+r.stderr
def fresh():
    if not os.path.isdir(SRC): sh("cp -a /repo "+SRC)
    sh("git checkout -q -- . && git clean -fdq", SRC)
def plant(id, prop, edits, demo, needs, breaks):
    fresh()
    for f,old,new in edits:
        p=os.path.join(SRC,f); s=open(p).read()
        n=s.count(old)
        if n!=1: print(id,"EDIT count",n,f,old[:60]); return False
        open(p,"w").write(s.replace(old,new))
    rc,diff=sh("git diff",SRC)
    d="/verif/seeded/"+id
    os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.py","w").write(demo.lstrip("\n"))
    open(d+"/demo.sh","w").write(SH); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    rc1,o1=sh("sh %s/demo.sh"%d,SRC)
    rc0,o0=sh("sh %s/demo.sh"%d,"/repo")
    env=dict(os.environ,PYTHONPATH=SRC,JAX_PLATFORMS="cpu",PYTHONDONTWRITEBYTECODE="1")
    rct,ot=sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --continue-on-collection-errors",SRC,env=env)
    rct = 0 if "175 passed" in ot and " failed" not in ot.splitlines()[-1] else 1
    ok = rc1!=0 and rc0==0 and rct==0
    print(id, "OK" if ok else "BAD demo-patched=%d demo-clean=%d tests=%d"%(rc1,rc0,rct))
    if not ok: print(o1[-300:],"\n--",o0[-300:],"\n--",ot[-700:] if rct else "")
    else: print("    ",o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    if not ok: shutil.rmtree(d)
    fresh()
    return ok
