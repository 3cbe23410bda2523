#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY FILE  with stdin: JSON {old,new[,file2..]: edits: [[file,old,new],..], needs, breaks, demo}
Creates seeded/NAME from /repo's HEAD (the edit is made in a scratch copy)."""
import json, os, subprocess, sys, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(name, prop, edits, needs, breaks, demo, script=None, extra={}):
    t=tempfile.mkdtemp(prefix="seed.",dir="/tmp")
    subprocess.run(["git","-C","/repo","worktree","prune"])
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm b",shell=True,check=True)
    for f,o,n in edits:
        p=os.path.join(t,f); s=open(p).read()
        assert s.count(o)==1,(name,f,s.count(o),o)
        open(p,"w").write(s.replace(o,n))
    d=subprocess.run(["git","-C",t,"diff"],capture_output=True,text=True).stdout
    out=os.path.join(V,"seeded",name); os.makedirs(out,exist_ok=True)
    open(out+"/patch.diff","w").write(d)
    open(out+"/demo.rs","w").write(demo)
    shutil.copy(os.path.join(V,"seedtools",script or "demo.sh"),out+"/demo.sh")
    for k,v in extra.items(): open(os.path.join(out,k),"w").write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+"/meta.json","w"),indent=1)
    shutil.rmtree(t)
