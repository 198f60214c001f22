#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/plant/*.py and validates each in a scratch copy.
usage: plant.py [id ...]"""
import subprocess, sys, os, json, shutil, glob, tempfile
ROOT="/verif/seeded"; DEFS={}
LIB_SH='''#!/bin/bash
# Runs demo.rs against the library in the current directory.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$HERE/demo.rs" "$T/src/main.rs"; cp "$REPO/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
texpresso = { path = "$REPO/lib", features = [@FEAT@] }
rayon = "1"
[profile.dev]
opt-level = 2
[workspace]
X
cd "$T" && RUST_BACKTRACE=0 cargo build --offline --quiet 2>"$T/err" || { cat "$T/err"; echo "demo does not build"; exit 3; }
RUST_BACKTRACE=0 timeout 200 ./target/debug/demo 2>"$T/err"
c=$?; [ $c = 0 ] || tail -3 "$T/err"; exit $c
'''
CLI_SH='''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
export RUST_BACKTRACE=0
BIN="$REPO/target/debug/texpresso"; [ -x "$BIN" ] || { echo "no executable"; exit 3; }
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
python3 "$HERE/gen.py" || exit 3
[ ! -e "$HERE/shim.c" ] || gcc -O1 -shared -fPIC -o "$T/shim.so" "$HERE/shim.c" -ldl || exit 3
@BODY@
'''
GEN_PY=r'''
import struct, zlib, random
def png(path, w, h, ct=6, seed=1, interlace=False, split=0):
    r = random.Random(seed); n = {0: 1, 2: 3, 4: 2, 6: 4}[ct]
    px = [[bytes(r.randrange(256) for _ in range(n)) for _ in range(w)] for _ in range(h)]
    raw = b""
    if interlace:
        for x0, y0, dx, dy in [(0,0,8,8),(4,0,8,8),(0,4,4,8),(2,0,4,4),(0,2,2,4),(1,0,2,2),(0,1,1,2)]:
            for y in range(y0, h, dy):
                row = b"".join(px[y][x] for x in range(x0, w, dx))
                if row: raw += b"\0" + row
    else:
        for y in range(h): raw += b"\0" + b"".join(px[y])
    def ch(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    z = zlib.compress(raw, 0 if split else 6)
    parts = [z[i:i + split] for i in range(0, len(z), split)] if split else [z]
    open(path, "wb").write(b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, ct, 0, 0, int(interlace))) + b"".join(ch(b"IDAT", p) for p in parts) + ch(b"IEND", b""))
def dds(path, w, h, seed=1, extra=b""):
    r = random.Random(seed); n = (w + 3) // 4 * ((h + 3) // 4)
    hd = b"DDS " + struct.pack("<IIIIIII", 124, 0x1007, h, w, 0, 0, 0) + bytes(44) + struct.pack("<II4sIIIII", 32, 4, b"DXT5", 0, 0, 0, 0, 0) + struct.pack("<IIIII", 0x1000, 0, 0, 0, 0)
    open(path, "wb").write(hd + bytes(r.randrange(256) for _ in range(16 * n)) + extra)
'''
def bug(id, **k): DEFS[id]=k
def edit(d, e):
    f,a,b=e; p=os.path.join(d,f); s=open(p).read()
    assert s.count(a)==1, (f, s.count(a), a)
    open(p,"w").write(s.replace(a,b))
def sh(c, cwd, env=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def write(id):
    k=DEFS[id]; d=os.path.join(ROOT,id); os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.remove(os.path.join(d,f))
    w=tempfile.mkdtemp(prefix="plantdiff"); sh("git -C /repo archive HEAD | tar x && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", w)
    for e in k["edits"]: edit(w,e)
    open(d+"/patch.diff","w").write(sh("git diff",w).stdout); shutil.rmtree(w)
    if "rs" in k:
        open(d+"/demo.rs","w").write(k["rs"]); open(d+"/demo.sh","w").write(LIB_SH.replace("@FEAT@",k.get("feat",'"rayon"')))
    else:
        open(d+"/demo.sh","w").write(CLI_SH.replace("@BODY@",k["body"].strip()))
        open(d+"/gen.py","w").write(GEN_PY+k["gen"])
        if "shim" in k: open(d+"/shim.c","w").write(k["shim"])
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=k["prop"],needs=k["needs"],what_it_breaks=k["breaks"]),open(d+"/meta.json","w"),indent=1)
def validate(id):
    d=os.path.join(ROOT,id); w="/tmp/plant-wt"
    if not os.path.exists(w): sh("cp -a /repo "+w,"/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD",w)
    b="bash -c '. /opt/vp/env.sh; cd %s; cargo build --workspace --offline && cargo check -p texpresso --offline && cargo check -p texpresso_cli --no-default-features --offline && cargo test --workspace --offline'"%w
    r=sh(b,w); assert r.returncode==0, "base build "+r.stdout[-800:]
    c=sh("bash %s/demo.sh"%d,w); 
    if c.returncode!=0: return "demo fails on the unchanged tree (%d): %s"%(c.returncode,c.stdout[-500:])
    r=sh("git apply %s/patch.diff"%d,w)
    if r.returncode: return "patch: "+r.stdout
    try:
        r=sh(b,w)
        if r.returncode: return "does not build or tests fail: "+r.stdout[-1500:]
        c=sh("bash %s/demo.sh"%d,w)
        if c.returncode==0: return "demo passes with the patch"
        if c.returncode==3: return "demo broken: "+c.stdout[-500:]
        return "ok (%d) %s"%(c.returncode,c.stdout.strip()[-160:].replace("\n"," / "))
    finally: sh("git checkout -q -- .",w)
if __name__=="__main__":
    for f in sorted(glob.glob("/verif/tools/plant/*.py")): exec(open(f).read())
    ids=sys.argv[1:] or list(DEFS)
    for i in ids:
        write(i); print(i, validate(i), flush=True)
