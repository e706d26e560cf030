#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and store it under seeded/<id>.

usage: plant.py SPEC.py     (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (Rust main), and
                             optionally features, cpu, profile, deps)
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"

DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
export RUSTFLAGS="-C target-cpu=@CPU@ -A warnings"
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vers-vecs = { path = "$repo"@FEATURES@ }
@DEPS@
[profile.dev]
opt-level = 1
debug = false
EOT
cd "$d" && cargo build --offline -q @PROFILE@ || exit 2
timeout 200 "$d/target/@DIR@/demo"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    if not os.path.exists(SCR):
        os.makedirs(SCR)
        sh(f"cp -a /repo {SCR}/repo && mkdir {SCR}/vp && cp /opt/vp/* {SCR}/vp/ && "
           f"sed -i 's#/repo#{SCR}/repo#g; s#/opt/vp/#{SCR}/vp/#g' {SCR}/vp/env.sh {SCR}/vp/build.sh {SCR}/vp/test.sh")
    sh(f"git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=f"{SCR}/repo")

def main(spec):
    s = {}
    exec(open(spec).read(), s)
    scratch()
    repo = f"{SCR}/repo"
    out = os.path.join(V, "seeded", s["id"])
    tmp = os.path.join(SCR, "seed", s["id"])
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    feats = s.get("features", [])
    d = DEMO.replace("@CPU@", s.get("cpu", "x86-64"))
    d = d.replace("@FEATURES@", (', features = [' + ", ".join(f'"{f}"' for f in feats) + "]") if feats else "")
    d = d.replace("@DEPS@", s.get("deps", ""))
    rel = s.get("profile", "dev") == "release"
    d = d.replace("@PROFILE@", "--release" if rel else "").replace("@DIR@", "release" if rel else "debug")
    open(f"{tmp}/demo.sh", "w").write(d)
    os.chmod(f"{tmp}/demo.sh", 0o755)
    open(f"{tmp}/demo.rs", "w").write(s["demo"].strip() + "\n")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{tmp}/meta.json", "w"), indent=1)
    r = sh(f"bash {tmp}/demo.sh", cwd=repo)
    if r.returncode != 0:
        print("demo fails on the unchanged tree", r.returncode, r.stdout[-3000:]); return 1
    for f, old, new in s["edits"]:
        p = f"{repo}/{f}"
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(f"edit matches {n} times in {f}: {old!r}"); return 1
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    open(f"{tmp}/patch.diff", "w").write(diff)
    r = sh(f"bash {tmp}/demo.sh", cwd=repo)
    if r.returncode in (0, 2):
        print("demo does not show the bug", r.returncode, r.stdout[-3000:]); return 1
    print("demo:", r.stdout.strip()[-300:])
    r = sh(f"bash {SCR}/vp/build.sh")
    if r.returncode != 0:
        print("does not build", r.stdout[-2000:]); return 1
    r = sh(f"bash {SCR}/vp/test.sh {SCR}/out.json")
    res = json.load(open(f"{SCR}/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["passed"] if "passed" in base else base["stable"])
    bad = stable - set(res["passed"])
    if bad:
        print("tests catch it:", sorted(bad)[:5], len(bad)); return 1
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    sh("git checkout -q -- .", cwd=repo)
    print("stored", out)
    return 0
sys.exit(main(sys.argv[1]))
