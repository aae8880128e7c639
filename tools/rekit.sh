#!/bin/bash
# rekit.sh: brings the files that the demos in seeded/ use up to date with lib, tools and shim,
# then (with -t) shows that each demo passes on the tree in $VERIF_REPO (default /repo) and fails with its patch.
V=$(dirname "$(dirname "$(realpath "$0")")")
R=${VERIF_REPO:-/repo}
for d in "$V"/seeded/*/; do
    for f in lib/build.py lib/jomrun.py lib/tsan.supp tools/jt.cpp tools/minicmd.cpp tools/common.h; do sed 's#/verif#the kit#g' "$V/$f" > "$d/kit/$f"; done
    for f in "$V"/shim/*; do sed 's#/verif#the kit#g' "$f" > "$d/kit/shim/$(basename "$f")"; done
done
[ "$1" = -t ] || exit 0
T=$(mktemp -d /tmp/rekit-XXXXXX)
trap 'rm -rf "$T"' EXIT
git clone -q "$R" "$T/r"
for d in "$V"/seeded/*/; do
    (cd "$T/r" && VERIF_REPO="$T/r" bash "$d/demo.sh" > "$T/o" 2>&1); a=$?
    git -C "$T/r" apply "$d/patch.diff" || { echo "$(basename "$d"): does not apply"; continue; }
    (cd "$T/r" && VERIF_REPO="$T/r" bash "$d/demo.sh" > "$T/o" 2>&1); b=$?
    git -C "$T/r" checkout -q -- .
    [ $a = 0 ] && [ $b != 0 ] && echo "$(basename "$d"): ok" || echo "$(basename "$d"): unchanged $a, patched $b"
done
