#!/usr/bin/env python3
"""plant.py SPECFILE [id...]: makes seeded/<id>/ for each spec and confirms it in a scratch copy.
A spec file defines SPECS = {id: dict(property, needs, breaks, edits=[(file, old, new[, nth])], demo=RUST)}"""
import sys,os,subprocess,json,shutil,runpy,re
PRE=open('/tmp/plant/prelude.rs').read()
DEMO_SH='''#!/bin/bash
# Builds demo.rs (beside this file) against the working tree it is run in and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUST_BACKTRACE=0 HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sherman = { path = "$repo"@FEAT@ }
@DEPS@
EOF
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings
cargo build --offline@REL@ >"$work/log" 2>&1 || { tail -40 "$work/log" >&2; exit @BUILDFAIL@; }
timeout 200 "$work/target/@PROF@/demo"
'''
def sh(cmd,cwd=None,env=None,timeout=900):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(id,s):
    w='/tmp/plant/w'
    shutil.rmtree(w,ignore_errors=True)
    sh(f'cp -a /repo {w}')
    sh('git checkout -q -- .',cwd=w)
    for e in s['edits']:
        f,old,new=e[:3]; nth=e[3] if len(e)>3 else None
        p=f'{w}/src/{f}'; t=open(p).read()
        n=t.count(old)
        if n!=1 and nth is None: print(id,'EDIT: count',n,'in',f,old[:60]); return False
        if nth is None: t=t.replace(old,new)
        else:
            parts=t.split(old)
            if nth>=len(parts)-1: print(id,'EDIT nth',n); return False
            t=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
        open(p,'w').write(t)
    d=sh('git diff',cwd=w).stdout
    r=sh('bash -c ". /opt/vp/env.sh; cd /tmp/plant/w; export CARGO_TARGET_DIR=/tmp/plant/target; mkdir -p target; cargo build --offline 2>&1 | tail -30 && timeout 800 cargo test --workspace --no-fail-fast --offline --features serde,fuzz -- --test-threads 8 > /tmp/plant/test.log 2>&1; python3 /opt/vp/results.py /tmp/plant/res.json cargo:/tmp/plant/test.log"')
    res=json.load(open('/tmp/plant/res.json'))
    passed=set(res.get('passed',[])) if isinstance(res.get('passed'),list) else {k for k,v in res.items() if v in('pass','passed',True)}
    miss=stable-passed
    if miss: print(id,'TESTS FAIL',len(miss),sorted(miss)[:4]); print(sh('grep -n "^error" -A6 /tmp/plant/test.log | head -30').stdout); return False
    out=f'/tmp/plant/out/{id}'
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(f'{out}/patch.diff','w').write(d)
    demo=s['demo'] if s.get('raw') else PRE+s['demo']
    open(f'{out}/demo.rs','w').write(demo)
    rel=s.get('release')
    open(f'{out}/demo.sh','w').write(s.get('sh',DEMO_SH).replace('@FEAT@',s.get('feat','')).replace('@DEPS@',s.get('deps','')).replace('@REL@',' --release' if rel else '').replace('@PROF@','release' if rel else 'debug').replace('@BUILDFAIL@',str(s.get('buildfail',2))))
    os.chmod(f'{out}/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{out}/meta.json','w'),indent=1)
    a=sh(f'bash {out}/demo.sh',cwd='/repo'); b=sh(f'bash {out}/demo.sh',cwd=w)
    ok=a.returncode==0 and b.returncode!=0
    print(id,'ok' if ok else 'DEMO BAD',a.returncode,b.returncode)
    print('   clean:',a.stdout[-(200 if ok else 1500):].strip()); print('   patched:',b.stdout[-(300 if ok else 1500):].strip())
    if ok:
        dst=f'/verif/seeded/{id}'; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
    return ok
m=runpy.run_path(sys.argv[1]); S=m['SPECS']
ids=sys.argv[2:] or list(S)
for i in ids: one(i,S[i])
