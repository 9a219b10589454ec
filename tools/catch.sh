#!/bin/bash
# tools/catch.sh [-t] ID...: run the property's check with the planted bug applied to /repo; undo it.
cd "$(dirname "$0")/.." || exit 2
tier=quick
[ "$1" = -t ] && { tier=thorough; shift; }
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
for id in "$@"; do
    p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    s=$SECONDS
    out=$(timeout 900 ./check ${P:-$p} $tier 2>/dev/null); rc=$?
    git -C /repo checkout -q -- .
    echo "$id ($p): exit $rc, $((SECONDS - s)) s: $(grep -m1 VIOLATION <<<"$out" | cut -c1-250)"
done
