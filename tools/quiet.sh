#!/bin/bash
# tools/quiet.sh DIFF... : apply behaviour-preserving edits to /repo; every quick check must stay quiet.
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
for d in "$@"; do
    git -C /repo apply "$(realpath "$d")" || continue
    bad=""
    for n in $(seq -w 1 24); do
        p=C$n
        [ -n "$ONLY" ] && [[ " $ONLY " != *" $p "* ]] && continue
        out=$(timeout 900 ./check $p quick 2>/dev/null); rc=$?
        [ $rc = 0 ] || bad="$bad $p($rc: $(grep -m1 VIOLATION <<<"$out"))"
    done
    git -C /repo checkout -q -- .
    echo "$(basename "$d"): ${bad:-quiet}"
done
