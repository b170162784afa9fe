#!/usr/bin/env python3
"""Author a planted bug: mkseed.py ID PROPERTY SPEC.py
SPEC.py defines EDITS = [(file, old, new)], FEATURES, DEPS (extra dependency lines), PROFILE, MAIN (demo program),
NEEDS, BREAKS.  Works in a scratch copy of /repo; keeps the bug only if it compiles, passes the stable tests,
and the demo passes on the unchanged tree and fails with the patch."""
import json, os, runpy, shutil, subprocess, sys
VERIF = "/tmp/seeds"
pid, prop, spec = sys.argv[1:4]
S = runpy.run_path(spec)
W = "/tmp/seedwork"
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
for f, old, new in S["EDITS"]:
    p = os.path.join(W, f)
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True, check=True).stdout
d = os.path.join(VERIF, "seeded", pid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
open(d + "/patch.diff", "w").write(diff)
open(d + "/main.rs", "w").write(S["MAIN"])
feats = S.get("FEATURES", ["std"])
open(d + "/Cargo.toml.in", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
chf = { path = "@REPO@", default-features = false, features = %s }
%s
""" % (json.dumps(feats), "\n".join(S.get("DEPS", []))))
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" && %s
""" % ('export CARGO_TARGET_DIR="$t/target" MIRI_SYSROOT="$t/sysroot" MIRIFLAGS=-Zmiri-tree-borrows RUSTFLAGS="'+S.get("RF","")+'"\ncargo +nightly miri setup -q --target %s >/dev/null 2>&1\ntimeout 250 cargo +nightly miri run --offline -q --target %s' % (S["MIRI"], S["MIRI"]) if S.get("MIRI") else
       'CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q %s' % ("--release" if S.get("PROFILE") == "release" else "")))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
ok = True
r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("demo on /repo:", r.returncode); ok &= r.returncode == 0
if r.returncode: print(r.stdout[-1500:])
r = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("demo with patch:", r.returncode, r.stdout[-300:]); ok &= r.returncode != 0
if not S.get("BUILD_BREAK") and ("error[E" in r.stdout or "could not compile" in r.stdout): ok = False; print("DOES NOT COMPILE")
# the stable tests, in the feature sets test.sh covers
import re
env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for c in ["", "--no-default-features", "--no-default-features --features io,serde", "--features serde,schemars",
          "--no-default-features --features io,serde,small-hash", "--all-features"]:
    r = subprocess.run("cargo build --offline -q %s 2>&1 && cargo test --offline %s 2>&1" % (c, c), shell=True, cwd=W, env=env, stdout=subprocess.PIPE, text=True)
    print("tests", c, "rc:", r.returncode, re.findall(r"test result: (.*?);", r.stdout))
    if r.returncode:
        print("\n".join(x for x in r.stdout.splitlines() if "FAILED" in x or "panicked" in x or "error" in x)[:1500])
    ok &= r.returncode == 0
print("KEPT" if ok else "NOT OK (left in place for editing)", d)
shutil.rmtree(W, ignore_errors=True)
sys.exit(0 if ok else 1)
