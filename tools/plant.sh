#!/bin/bash
# plant.sh ID PROPERTY: makes seeded/ID from the uncommitted diff of the scratch copy /tmp/bug/repo and /tmp/bug/demo.py,
# with the files a demo needs beside it (a demo may use nothing of this repository).
# Then shows that the demo passes on /repo and fails on the scratch copy.
set -e
V=$(dirname "$(dirname "$(realpath "$0")")")
id=$1 prop=$2 needs=$3 breaks=$4
d=$V/seeded/$id
mkdir -p "$d"
git -C /tmp/bug/repo diff -U1 -- src > "$d/patch.diff"
test -s "$d/patch.diff"
cp /tmp/bug/demo.py "$d/demo.py"
mkdir -p "$d/kit/lib" "$d/kit/tools" "$d/kit/shim"
for f in lib/build.py lib/jomrun.py lib/tsan.supp tools/jt.cpp tools/minicmd.cpp tools/common.h; do sed 's#/verif#the kit#g' "$V/$f" > "$d/kit/$f"; done
for f in "$V"/shim/*; do sed 's#/verif#the kit#g' "$f" > "$d/kit/shim/$(basename "$f")"; done
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# builds the real jom from the tree in the current directory with the native stand-in in kit/ and runs demo.py against it
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=${VERIF_REPO:-$PWD}
export VERIF_BUILD=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$VERIF_BUILD"' EXIT
PYTHONPATH="$here/kit/lib" PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
S
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json, sys
d, prop, needs, breaks = sys.argv[1:]
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
P
cd /repo && bash "$d/demo.sh"; echo "unchanged: $?"
rc=0; (cd /tmp/bug/repo && VERIF_REPO=/tmp/bug/repo bash "$d/demo.sh") || rc=$?; echo "patched: $rc"
git -C /tmp/bug/repo checkout -q -- .
