#!/usr/bin/env python3
"""Planted bugs (development only; no check reads /verif/seeded).
  bug.py new ID            record /repo's uncommitted diff as seeded/ID/patch.diff, add the demo runner, undo the diff
  bug.py try ID [Cxx ..]   apply it, build, run the stable tests, the demo with and without, the checks; undo"""
import sys, os, subprocess, json, shutil
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = r'''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; export REPO=$repo
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"; cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
procedural_modelling = { path = "$repo", default-features = false, features = ["nalgebra", "netsci"] }
nalgebra = { version = "0.34.1", default-features = false, features = ["std"] }
serde_json = "1"
[profile.dev]
debug = 0
incremental = false
T
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
cargo build -q --offline 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
def new(i):
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert diff, "no diff"
    open(d + "/patch.diff", "w").write(diff)
    sh(f"git -C {R} checkout -- .")
    demo(i)
def demo(i):
    d = f"{V}/seeded/{i}"
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    t = open(V + "/harness/Cargo.lock").read().replace('name = "mbv-harness"', 'name = "demo"')
    open(d + "/Cargo.lock", "w").write(t)
def tryit(i, checks):
    d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json")); checks = checks or [m["property"]]
    assert sh(f"git -C {R} status --porcelain").stdout == ""
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    print(i, "demo unchanged:", r0.returncode, "" if r0.returncode == 0 else r0.stdout[-1500:])
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(a.stdout); return
    try:
        b = sh("bash /opt/vp/test.sh /tmp/bugt.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try: p = set(json.load(open("/tmp/bugt.json"))["passed"])
        except Exception: print("BUILD FAILS", b.stdout[-1500:]); return
        print("  stable tests failing:", sorted(base - p))
        r1 = sh(f"bash {d}/demo.sh", cwd=R); print("  demo patched:", r1.returncode, r1.stdout[-300:].strip())
        for c in checks:
            k = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py {c} --tier quick", cwd=V)
            v = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
            print("  check", c, k.returncode, len(v), v[0] if v else k.stdout[-400:])
    finally: sh(f"git -C {R} checkout -- .")
if __name__ == "__main__":
    if sys.argv[1] == "new": new(sys.argv[2])
    elif sys.argv[1] == "demo": demo(sys.argv[2])
    else: tryit(sys.argv[2], sys.argv[3:])
