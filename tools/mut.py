#!/usr/bin/env python3
"""Development aid: applies small changes to copies of /repo and shows which checks notice.
Usage: mut.py FILE.py [name-substring]; FILE.py defines M = [(name, expect, [(file, old, new), ...]), ...]
An old text "@func f(" stands for the whole declaration that starts so.
expect: "" for a change that keeps the behaviour, else the properties that must be reported."""
import sys, subprocess, shutil, os, re, importlib.util
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sub=sys.argv[2] if len(sys.argv)>2 else ""
BIN=os.environ.get("CONCHECK","/tmp/concheck")
ENV=dict(os.environ,PATH="/opt/veriftools/go1.23.12/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=readonly",GOWORK="off",HOME="/root",GOPATH="/root/go",GOCACHE="/root/.cache/go-build")
def one(i,mm):
    name,exp,eds=mm
    d="/tmp/mut/%d-%d"%(os.getpid(),i)
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree("/repo",d,ignore=shutil.ignore_patterns(".git"))
    out=""
    try:
        for f,o,n in eds:
            s=open(d+"/"+f).read()
            if o.startswith("@func"): # the whole declaration that starts with these words
                a=s.find(o[1:])
                if a<0: return name,"NOMATCH "+f+": "+o
                o=s[a:s.index("\n}\n",a)+3]
            if s.count(o)<1: return name,"NOMATCH "+f+": "+o
            s=s.replace(o,n,1); open(d+"/"+f,"w").write(s)
        b=subprocess.run(["go","vet","./..."],cwd=d,env=ENV,capture_output=True,text=True)
        pk=[l for l in b.stderr.splitlines() if "vet:" in l or "undefined" in l or "declared and not used" in l or "imported and not used" in l or "cannot use" in l]
        if pk: return name,"NOBUILD "+" | ".join(pk[:3])
        r=subprocess.run([BIN,"-dir",d,"-prop",(exp if os.environ.get("PROP")=="own" and exp else os.environ.get("PROP",getattr(m,"PROP","all")))],cwd=d,env=ENV,capture_output=True,text=True)
        al=re.findall(r"^VIOLATION property=(\w+)",r.stdout,re.M)
        want=exp.split(",") if exp else []
        miss=[w for w in want if w not in al]
        if not want and al: out="FALSE ALARM "+",".join(al)+"\n"+"\n".join("   "+l for l in r.stdout.splitlines() if not " holds: " in l)[:2500]
        elif miss: out="MISSED "+",".join(miss)+" (alarms: "+",".join(al)+")"
        else: out="ok "+",".join(al)
        if "-v" in sys.argv: out+="\n"+"\n".join("   "+l for l in r.stdout.splitlines() if not " holds: " in l)
        if r.returncode not in (0,1): out+=" RC=%d %s"%(r.returncode,r.stderr[-800:])
    finally:
        shutil.rmtree(d,ignore_errors=True)
    return name,out
skip=os.environ.get("AFTER")
todo=[(i,x) for i,x in enumerate(m.M) if sub in x[0] and not (x[1] and os.environ.get("BENIGN"))]
if skip: todo=[t for t in todo if t[0]>[x[0] for x in m.M].index(skip)]
with ThreadPoolExecutor(int(os.environ.get("JOBS","8"))) as ex:
    for name,out in ex.map(lambda t:one(*t),todo): print("%-28s %s"%(name,out),flush=True)
