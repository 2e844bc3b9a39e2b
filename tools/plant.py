#!/usr/bin/env python3
"""Confirm a planted bug and keep it: plant.py SPECFILE [ID...]. A spec file defines BUGS: id -> dict(property, needs,
breaks, edits=[(file, old, new)], demo=body of a Rust main). Works in a scratch copy of /repo."""
import os, shutil, subprocess, sys, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
B = spec["BUGS"]
ids = sys.argv[2:] or list(B)
SEED = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
DEMO_SH = '''#!/bin/bash
# Runs the demonstration in demo.rs against the genco in the current directory.
R=$PWD; D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
genco = { path = "$R" }
%s[workspace]
X
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


S = "/tmp/plant_scratch"
if not os.path.exists(S):
    shutil.copytree("/repo", S, symlinks=True)
sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", S)
for i in ids:
    b = B[i]
    sh("git checkout -q -- .", S)
    bad = None
    for f, old, new in b["edits"]:
        p = os.path.join(S, f)
        s = open(p).read()
        if s.count(old) != 1:
            bad = "%d matches for an edit of %s" % (s.count(old), f)
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(i, "SKIPPED", bad)
        continue
    diff = sh("git diff", S).stdout
    sh("git checkout -q -- .", S)
    d = "/tmp/plant_%s" % i
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH % b.get("deps", ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, S)
    if r.returncode:
        print(i, "SKIPPED demo fails without the change:\n", r.stdout[-2500:])
        continue
    open(d + "/x.diff", "w").write(diff)
    sh("git apply %s/x.diff" % d, S)
    r = sh("bash %s/demo.sh" % d, S)
    if r.returncode == 0 or "error: could not compile" in r.stdout:
        print(i, "SKIPPED demo says", r.returncode, r.stdout[-2500:])
        continue
    t = sh("cargo test --workspace --no-fail-fast --offline", S, timeout=900)
    os.remove(d + "/x.diff")
    sh("git checkout -q -- .", S)
    fails = [l for l in t.stdout.splitlines() if l.endswith("FAILED") or "error:" in l]
    if t.returncode:
        print(i, "SKIPPED tests notice it:", fails[:4])
        continue
    dst = "%s/%s" % (SEED, i)
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(d, dst)
    shutil.rmtree(d)
    print(i, "kept:", r.stdout.strip().splitlines()[:3])
