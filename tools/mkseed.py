#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS < demo.rs : packages /repo's uncommitted change as a planted bug, then reverts /repo."""
import sys, os, subprocess, json
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
i, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(V, i)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff.strip(), "no change in /repo"
open(os.path.join(d, "patch.diff"), "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(os.path.join(d, "demo.rs"), "w").write(sys.stdin.read())
open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run with cwd = the der-parser tree; builds demo.rs against it in a scratch directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-parser = { path = "$R", features = ["bigint", "serialize", "as_bitvec"] }
nom = "7.0"
asn1-rs = "0.7"
cookie-factory = "0.3.0"
EOT
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
