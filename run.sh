#!/bin/bash
# Builds the harness from /repo's current working tree and runs one property's check.
# usage: run.sh ID [options of `verif run`]
cd "$(dirname "$0")/harness" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp)
if ! cargo +nightly build --offline --locked >"$log" 2>&1; then
  cat "$log" >&2; rm -f -- "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
rm -f -- "$log"
if [ "$1" = --build ]; then exit 0; fi
exec ./target/x86_64-unknown-linux-gnu/debug/verif run "$@"
