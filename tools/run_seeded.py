import json, os, subprocess, sys, time
sys.path.insert(0,"/tmp/plant")
from lib import *
ids=sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
fresh()
for i in ids:
    d="/verif/seeded/"+i
    if not os.path.isdir(d): print("no",i); continue
    prop=json.load(open(d+"/meta.json"))["property"]
    rc,o=sh("git apply %s/patch.diff"%d,SRC)
    if rc: print(i,"APPLY",o); continue
    t=time.time()
    env=dict(os.environ,VF_REPO=SRC)
    try: rc,o=sh("./check.py %s --tier quick"%prop,"/verif",900,env)
    except subprocess.TimeoutExpired: rc,o=99,"TIMEOUT"
    v=[l for l in o.splitlines() if l.startswith("VIOLATION")]
    print("%-26s %s rc=%d %5.1fs %s"%(i,prop,rc,time.time()-t,("nfi " if v and "no-failing" in v[0] else "")+(" ".join(v)[-90:] if v else o[-300:])),flush=True)
    fresh()
