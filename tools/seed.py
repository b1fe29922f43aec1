#!/usr/bin/env python3
"""Write /verif/seeded/<id> from the difference in a scratch worktree of /repo.

    seed.py ID PROPERTY WORKTREE DEMO_DIR "needs" "what it breaks"

DEMO_DIR holds main.rs and optionally Cargo.toml.in, build.rs, *.mabo.
"""
import sys, os, json, subprocess, shutil

ident, prop, wt, demo, needs, what = sys.argv[1:7]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ident)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=2)
for f in os.listdir(demo):
    shutil.copy(os.path.join(demo, f), d)
if not os.path.exists(d + "/Cargo.toml.in"):
    open(d + "/Cargo.toml.in", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
mabo = { path = "@REPO@/crates/mabo" }

[workspace]
""")
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Builds and runs main.rs against the crates of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
find "$here" -maxdepth 1 -type f ! -name '*.in' ! -name demo.sh -exec cp {} "$w" \\;
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cd "$w" && cargo build --offline -q || { echo "demo does not build"; exit 3; }
cd "$w" && timeout 60 "$w/target/debug/demo"
""")
os.chmod(d + "/demo.sh", 0o755)
print(d)
