#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a description file: python3 tools/seed.py DESC.py
DESC defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], DEMO (main.rs text), RELEASE=False"""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = dict(RELEASE=False)
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, "seeded", g["ID"])
os.makedirs(d, exist_ok=True)
W = "/tmp/seedw"
if os.path.exists(W): shutil.rmtree(W)
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["git", "clone", "-q", "/repo", W])
for e in g["EDITS"]:
    f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
    p = os.path.join(W, f); s = open(p).read()
    n = s.count(old)
    if nth is None:
        assert n == 1, (f, old, n)
        s = s.replace(old, new)
    else:
        i = -1
        for _ in range(nth + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    open(p, "w").write(s)
diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
open(os.path.join(d, "patch.diff"), "w").write(diff)
shutil.rmtree(W)
open(os.path.join(d, "main.rs"), "w").write(g["DEMO"])
open(os.path.join(d, "demo.toml"), "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
numeric-bits = { path = "/repo/crates/bits" }
numeric-traits = { path = "/repo/crates/traits" }
numeric-ints = { path = "/repo/crates/ints" }
numeric-reals = { path = "/repo/crates/reals", features = ["ints"] }
numeric-compounds = { path = "/repo/crates/compounds" }
numeric-static-iter = { path = "/repo/crates/static-iter" }
numeric-utils = { path = "/repo/crates/utils" }
[workspace]
''')
open(os.path.join(d, "demo.sh"), "w").write(f'''#!/bin/bash
# builds main.rs against the crates in /repo and runs it: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" && cp "$here/main.rs" "$D/src/main.rs" && cp "$here/demo.toml" "$D/Cargo.toml" || exit 3
cd "$D" || exit 3
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
cargo build -q --offline {"--release " if g["RELEASE"] else ""}--target-dir "$D/target" || exit 3
timeout 60 "$D/target/{"release" if g["RELEASE"] else "debug"}/demo"
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
print("wrote", d, len(diff.splitlines()), "diff lines")
