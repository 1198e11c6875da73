"""mkseed.py FILE: creates seeded/<id>/ from a python file defining SEEDS = [dict(id, prop, file, edits=[(old,new)..], demo, needs, breaks)]"""
import json, os, subprocess, sys, runpy
SH = '''#!/bin/bash
# exit 0 when the property holds for this input on /repo's current tree
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=/tmp/kvdemo_%(id)s
rm -rf /tmp/kvdemo_%(id)s
mkdir -p $W/src
trap 'rm -rf /tmp/kvdemo_%(id)s' EXIT
cp "$D/demo.rs" $W/src/main.rs
cp /repo/Cargo.lock $W/
cat > $W/Cargo.toml <<X
[package]
name = "kvdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
komunikilo = { path = "/repo" }
num-complex = "0.4"
rand = "0.8"
[profile.dev]
opt-level = 1
X
cd $W
CARGO_TARGET_DIR=$W/t CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build -q --offline || exit 3
timeout 120 $W/t/debug/kvdemo
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    W = "/tmp/kvmk"
    if not os.path.exists(W):
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "fetch", "-q", "origin"], check=True)
    subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "origin/HEAD"], check=True)
    for f, old, new in s["edits"]:
        p = W + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(SH % s)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
