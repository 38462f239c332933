#!/usr/bin/env python3
"""mkseed.py NAME PATCH PROPERTY NEEDS BREAKS DEMO.rs : writes /verif/seeded/NAME"""
import sys, os, json, shutil
name, patch, pid, needs, breaks, demo = sys.argv[1:7]
d = '/verif/seeded/' + name
os.makedirs(d, exist_ok=True)
shutil.copy(patch, d + '/patch.diff')
if os.path.realpath(demo) != d + '/demo.rs':
    shutil.copy(demo, d + '/demo.rs')
json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async-io = { path = "$repo" }
futures-lite = "2"
futures-io = "0.3"
EOF
cd "$w" || exit 2
CARGO_TARGET_DIR=$w/target cargo build -q --offline || exit 2
timeout -k 5 60 "$w/target/debug/demo"
''')
os.chmod(d + '/demo.sh', 0o755)
