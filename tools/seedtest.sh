#!/bin/bash
# usage: seedtest.sh NAME : checks a planted bug in a scratch copy (demo on both trees, stable tests with the patch)
s=/verif/seeded/$1
W=/tmp/seedw
mkdir -p "$W"
[ -d "$W/repo" ] || cp -a /repo "$W/repo"
rsync -a --delete --exclude target --exclude .git /repo/ "$W/repo/" 2>/dev/null || { for f in src; do rm -rf -- "$W/repo/src"; cp -a /repo/src "$W/repo/src"; done; }
cd "$W/repo" || exit 1
bash "$s/demo.sh" > "$W/log0" 2>&1; echo "clean: $?"
patch -p1 -s < "$s/patch.diff" || exit 1
bash "$s/demo.sh" > "$W/log1" 2>&1; echo "patched: $?"; tail -3 "$W/log1"
cargo test --all-targets --offline > "$W/test" 2>&1; echo "tests: $?"; grep -E "^test .*FAILED|panicked" "$W/test" | head
patch -p1 -R -s < "$s/patch.diff"
