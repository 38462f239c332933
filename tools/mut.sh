#!/bin/bash
# usage: mut.sh PATCH ID... : runs the quick checks of the given properties against a scratch copy of /repo with PATCH applied.
# MUT_KEEP_TARGET is a harness copy reused between runs (default /tmp/mutw).
patch=$(realpath "$1"); shift
W=${MUTW:-/tmp/mutw}
mkdir -p "$W"
rsync -a --delete --exclude target --exclude .git /repo/ "$W/repo/" 2>/dev/null || { rm -rf -- "$W/repo"; cp -a /repo "$W/repo"; }
(cd "$W/repo" && git apply --unsafe-paths "$patch" 2>/dev/null || patch -p1 -s < "$patch") || { echo "patch does not apply"; exit 3; }
mkdir -p "$W/harness"
cp -a /verif/harness/src /verif/harness/csrc /verif/harness/.cargo /verif/harness/build.rs /verif/harness/Cargo.lock "$W/harness/"
sed "s#path = \"/repo\"#path = \"$W/repo\"#" /verif/harness/Cargo.toml > "$W/harness/Cargo.toml"
[ -d "$W/harness/target" ] || cp -a /verif/harness/target "$W/harness/target"
cd "$W/harness" || exit 3
unset RUSTFLAGS CARGO_TARGET_DIR
cargo +nightly build --offline > "$W/log" 2>&1 || { tail -20 "$W/log"; exit 3; }
for id in "$@"; do
  timeout 800 ./target/x86_64-unknown-linux-gnu/debug/verif run "$id" --out "$W/ev.json" --replay-dir "$W/replays" $MUTOPTS 2>&1 | tail -${MUTTAIL:-4} | cut -c1-700
done
