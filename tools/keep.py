#!/usr/bin/env python3
"""Applies behaviour-preserving edits (tools/keep/*.py) to /repo one at a time and runs the checks, which have to stay quiet.
usage: keep.py [-c CHECK,CHECK] [id ...]"""
import subprocess, sys, os, glob, time, json
DEFS={}
def keep(id, checks, edits): DEFS[id]=(checks,edits)
C=["C%02d"%i for i in range(1,11)]; L=["L%02d"%i for i in range(1,11)]
LIB="lib/src/lib.rs"; MAIN="cli/src/main.rs"; PNG="cli/src/image/png.rs"; JPG="cli/src/image/jpeg.rs"; ALPHA="lib/src/alpha.rs"
CB="lib/src/colourblock.rs"; CS="lib/src/colourset.rs"; CL="lib/src/colourfit/cluster.rs"; RANGE="lib/src/colourfit/range.rs"; SINGLE="lib/src/colourfit/single.rs"
for f in sorted(glob.glob("/verif/tools/keep/*.py")): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
a=sys.argv[1:]; only=None; dry=False
if a and a[0]=="-n": dry=True; a=a[1:]
if a and a[0]=="-c": only=a[1].split(","); a=a[2:]
assert not sh("git -C /repo status --short").stdout.strip(), "repo not clean"
for id in a or list(DEFS):
    checks,edits=DEFS[id]
    try:
        for f,x,y in edits:
            p="/repo/"+f; s=open(p).read(); assert s.count(x)==1,(id,f,s.count(x),x); open(p,"w").write(s.replace(x,y))
        r=sh("bash -c '. /opt/vp/env.sh; cd /repo; bash /opt/vp/build.sh && cargo test --workspace --offline'")
        if r.returncode: print(id,"does not build:",r.stdout[-2500:]); continue
        if dry: print(id,"builds",flush=True); continue
        for c in only or checks:
            t=time.time()
            r=subprocess.run(["bash","/verif/bin/check",c],cwd="/verif",stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,env=dict(os.environ,VERIF_TIER="quick",VERIF_SEED=os.environ.get("VERIF_SEED","1")))
            print(id,c,"exit",r.returncode,"%.0f s"%(time.time()-t),"" if r.returncode==0 else r.stdout[-1500:]+r.stderr[-1500:],flush=True)
    finally: sh("git -C /repo checkout -q -- .")
