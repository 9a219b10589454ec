#!/bin/bash
# Verify planted bugs: tools/plant.sh ID...   (seeded/ID with patch.diff, main.rs, meta.json)
# Applies the patch in a scratch copy, builds, runs the tests, runs the demo with and without it.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
    d=$PWD/seeded/$id
    [ -e "$d/demo.sh" ] || cp tools/demo/demo.sh "$d/"
    [ -e "$d/hv.rs" ] || cp tools/demo/hv.rs "$d/"
    w=$(mktemp -d /tmp/plant.XXXXXX)
    cp -a /repo/. "$w/"
    (cd "$w" && git checkout -q -- . && bash "$d/demo.sh" >"$w/demo0.log" 2>&1); r0=$?
    (cd "$w" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
    (cd "$w" && cargo test --workspace --all-features --offline >"$w/t.log" 2>&1 && cargo build --workspace --no-default-features --offline >>"$w/t.log" 2>&1); t=$?
    n=$(grep -c '\.\.\. ok$' "$w/t.log")
    (cd "$w" && bash "$d/demo.sh" >"$w/demo1.log" 2>&1); r1=$?
    echo "$id: tests rc=$t passed=$n  demo clean=$r0 patched=$r1"
    if [ $r0 != 0 ]; then tail -5 "$w/demo0.log"; fi
    if [ $t != 0 ]; then grep -E 'error|panicked|warning: unused' -A5 "$w/t.log" | head -30; fi
    if [ -n "$SHOW" ]; then tail -5 "$w/demo1.log"; fi
    rm -rf "$w"
done
