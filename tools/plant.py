#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).

  plant.py make DEFS.py [ID...]   turn the definitions of DEFS.py into seeded/<ID>/
  plant.py verify ID...           build + baseline tests + demo with and without the patch, in a scratch copy
  plant.py catch [--tier T] [--props C01,C02] ID...   apply to /repo, run the property's check, undo

A definition: B("id","Cxx", [(file, old, new), ...], needs, breaks, demo_main_rs, deps="")
"""
import json, os, subprocess, sys, shutil, tempfile, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SEED=os.path.join(V,"seeded"); REPO="/repo"
DEMO='''#!/bin/bash
# Runs demo.rs against the rusty_genes in the current directory; everything is written to a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rusty_genes = { path = "$repo" }
rand = { version = "0.8.5", features = ["small_rng"] }
rayon = "1.6.1"
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline --quiet PROFILE
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(defs, ids):
    out=[]
    def B(id,prop,edits,needs,breaks,demo,profile=""):
        if ids and id not in ids: return
        d=tempfile.mkdtemp(prefix="plant"); sh(f"git -C {REPO} worktree add --detach {d}/w HEAD")
        try:
            for f,o,n in edits:
                p=f"{d}/w/{f}"; s=open(p).read()
                if s.count(o)!=1: print("!!",id,f,"occurrences:",s.count(o)); return
                open(p,"w").write(s.replace(o,n))
            diff=sh(f"git -C {d}/w diff").stdout
            t=os.path.join(SEED,id); os.makedirs(t,exist_ok=True)
            open(t+"/patch.diff","w").write(diff); open(t+"/demo.sh","w").write(DEMO.replace("PROFILE",profile).rstrip()+"\n"); os.chmod(t+"/demo.sh",0o755)
            open(t+"/demo.rs","w").write(demo.lstrip())
            json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(t+"/meta.json","w"),indent=1)
            out.append(id)
        finally:
            sh(f"git -C {REPO} worktree remove --force {d}/w"); shutil.rmtree(d,ignore_errors=True)
    exec(open(defs).read(),{"B":B})
    print("made"," ".join(out))
def verify(ids):
    base=json.load(open("/opt/vp/BASELINE.json"))
    for id in ids:
        d=tempfile.mkdtemp(prefix="plant"); r=f"{d}/repo"
        sh(f"cp -a {REPO} {r}"); t=os.path.join(SEED,id)
        res=[]
        c=sh(f"cd {r} && git checkout -q -- . && bash {t}/demo.sh"); res.append(("clean demo",c.returncode==0, c.stderr[-600:]))
        a=sh(f"cd {r} && git apply {t}/patch.diff"); res.append(("apply",a.returncode==0,a.stderr))
        sh(f"rm -rf {r}/target/debug/.fingerprint/rusty_genes-* {r}/target/debug/.fingerprint/benchmarks-*")
        b=sh(f"cd {r} && cargo test --workspace --all-targets --no-run --offline"); res.append(("build",b.returncode==0,b.stderr[-1500:]))
        x=sh(f"cd {r} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1"); n=len(re.findall(r"\.\.\. ok$",x.stdout,re.M)); res.append(("tests",x.returncode==0 and n>=31,"".join(re.findall(r".*FAILED.*|.*panicked.*",x.stdout))[-600:]+f" ok={n}"))
        p=sh(f"cd {r} && bash {t}/demo.sh"); res.append(("patched demo fails",p.returncode not in(0,) and "error: could not compile" not in p.stderr,(p.stdout+p.stderr)[-500:]))
        ok=all(v for _,v,_ in res); print(("OK  " if ok else "BAD ")+id, "; ".join(f"{k}: {m}" for k,v,m in res if not v), flush=True)
        shutil.rmtree(d,ignore_errors=True)
def catch(args):
    tier="quick"; props=None; ids=[]
    while args:
        a=args.pop(0)
        if a=="--tier": tier=args.pop(0)
        elif a=="--props": props=args.pop(0).split(",")
        else: ids.append(a)
    man={c["property_id"] if "property_id" in c else c.get("property"):c for c in json.load(open(V+"/MANIFEST.json"))["checks"]}
    for id in ids:
        meta=json.load(open(f"{SEED}/{id}/meta.json")); 
        if sh(f"git -C {REPO} status --porcelain").stdout.strip(): print("repo dirty"); return
        if sh(f"git -C {REPO} apply {SEED}/{id}/patch.diff").returncode: print("??",id,"does not apply"); continue
        try:
            for pr in (props or [meta["property"]]):
                r=sh(f"cd {V} && {man[pr][tier+'_cmd']}",env=dict(os.environ,VERIF_SEED="1",VERIF_TIER=tier))
                hit=re.findall(r"VIOLATION property=\S+",r.stdout)
                print(("CAUGHT " if r.returncode==1 and hit else "MISSED " if r.returncode==0 else f"RC{r.returncode} ")+id,pr, hit[:3], "" if r.returncode in(0,1) else (r.stdout+r.stderr)[-1500:],flush=True)
        finally: sh(f"git -C {REPO} checkout -- .")
if __name__=="__main__":
    {"make":lambda a:make(a[0],a[1:]),"verify":verify,"catch":catch}[sys.argv[1]](sys.argv[2:])
