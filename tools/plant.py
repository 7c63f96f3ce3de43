#!/usr/bin/env python3
"""plant.py FILE.py: FILE defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS"""
import sys, os, json, shutil, subprocess, tempfile
ns={}
exec(open(sys.argv[1]).read(), ns)
ID=ns["ID"]; d=f"/verif/seeded/{ID}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
tmp=tempfile.mkdtemp(prefix="plant-",dir="/tmp")
subprocess.run(["cp","-a","/repo",tmp+"/repo"],check=True)
R=tmp+"/repo"
subprocess.run(["git","-C",R,"checkout","-q","--","."],check=True)
for f,old,new in ns["EDITS"]:
    p=f"{R}/{f}"; s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,"w").write(s.replace(old,new))
patch=subprocess.run(["git","-C",R,"diff"],stdout=subprocess.PIPE,text=True,check=True).stdout
open(d+"/patch.diff","w").write(patch)
if "DEMO_SH" in ns:
    open(d+"/demo.sh","w").write(ns["DEMO_SH"])
    for fn,text in ns.get("FILES",{}).items(): open(f"{d}/{fn}","w").write(text)
else:
    for f in ("dsdrv.cc","drvlib.cc","drvlib.h","synth.cc","synth.h","stubs.cc","sysint.cc","sysint.h"):
        shutil.copy("/verif/harness/"+f,d)
    for f in ("kit.py","demo.sh"): shutil.copy("/verif/demokit/"+f,d)
    open(d+"/demo.py","w").write("from kit import *\n"+ns["DEMO"].strip()+"\n\ndone()\n")
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(d+"/meta.json","w"),indent=1)
def demo(R):
    r=subprocess.run(["bash",d+"/demo.sh"],cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return r.returncode,r.stdout[-1500:]
def inrepo(cmd, **kw):
    return subprocess.run(["unshare","-rm","bash","-c",f"mount --bind {R} /repo && cd /repo && "+cmd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
if "-n" not in sys.argv:
    r=inrepo("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:])
    r=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print("clean",r.returncode,r.stdout[-700:] if r.returncode else "")
    r=inrepo(f"bash {d}/demo.sh")
    print("patched",r.returncode,r.stdout[-700:])
    if "-t" in sys.argv:
        r=inrepo("bash /opt/vp/test.sh /tmp/w/out.json")
        base=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
        print("tests broken:",set(base['stable'])-set(o['passed']))
    if "-c" in sys.argv:
        for p in sys.argv[sys.argv.index("-c")+1:]:
            e=dict(os.environ,VERIF_BUILD=tmp+"/b")
            r=inrepo("cd /verif && ./check.py "+p,env=e)
            print(p,r.returncode,r.stdout[-600:])
shutil.rmtree(tmp)
