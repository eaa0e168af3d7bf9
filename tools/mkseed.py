#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each planted bug
in a scratch copy of /repo (development tool, not used by any check).
usage: mkseed.py [ids...]"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = r'''#!/bin/bash
# Runs in the repository root: builds demo.rs (beside this file) against the
# library in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
layout-rs = { path = "$repo/layout", default-features = false }
E
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>/dev/null || exit 3
cd "$t/scratch" || exit 3
timeout 60 "$t/target/debug/demo"
'''
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def main():
    want = sys.argv[1:]
    scratch = "/tmp/seedrepo"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    # plain copy of the build/test scripts pointed at the scratch copy
    for s in SEEDS:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- .", scratch)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(scratch, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT does not match once:", f, t.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        diff = sh("git diff", scratch).stdout
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("cargo test --offline --workspace 2>&1 | grep -E '^test result|FAILED|panicked|error' ", scratch)
        tests_ok = "FAILED" not in r.stdout and "error" not in r.stdout and r.stdout.count("test result: ok") >= 1
        bad = sh(f"bash {d}/demo.sh", scratch)
        sh("git checkout -q -- .", scratch)
        good = sh(f"bash {d}/demo.sh", scratch)
        status = "OK" if tests_ok and good.returncode == 0 and bad.returncode not in (0, 3) else "BAD"
        print(s["id"], status, "tests", tests_ok, "clean", good.returncode, "patched", bad.returncode,
              (good.stderr[-200:] if good.returncode else ""), ("" if tests_ok else r.stdout), flush=True)
        if status != "OK": shutil.move(d, "/tmp/badseed_" + s["id"] + str(os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
main()
