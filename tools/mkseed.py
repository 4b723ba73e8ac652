#!/usr/bin/env python3
"""Helper used while planting bugs: mkseed(id, property, edits, needs, breaks, demo) writes /verif/seeded/<id>.
A patch is produced in a scratch clone of /repo; nothing is changed in /repo."""
import os,subprocess,json,shutil,tempfile
DEMO_SH='''#!/bin/bash
# Builds main.rs against the crate in the current directory (the repository) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$REPO/Cargo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
rerecast = { path = "$REPO/crates/rerecast"FEATURES }
DEPS
[workspace]
TOML
cd "$T" && export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build -q --offline >"$T/log" 2>&1 || { tail -n 30 "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''
def mkseed(id,prop,edits,needs,breaks,demo,features="",deps='glam = "*"',demo_sh=None):
    d=f'/verif/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='seedclone.',dir='/tmp')
    try:
        subprocess.check_call(['git','clone','-q','/repo',t])
        for f,a,b in edits:
            p=os.path.join(t,f); s=open(p).read()
            assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        diff=subprocess.check_output(['git','-C',t,'diff'],text=True)
        assert diff
        open(d+'/patch.diff','w').write(diff)
    finally:
        shutil.rmtree(t)
    open(d+'/main.rs','w').write(demo)
    sh=demo_sh or DEMO_SH.replace('FEATURES',features).replace('DEPS',deps)
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
