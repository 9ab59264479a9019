#!/bin/bash
# Runs the check of each planted bug's property (or the properties given after the id) with the bug applied in a scratch copy. Usage: catch.sh ID [PROP...]
b=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
W=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; git -C "$W/repo" apply /verif/seeded/$b/patch.diff || exit 3
cd /verif
for p in $P; do VERIF_REPO="$W/repo" /opt/venv/bin/python -m sim.check $p > "$W/out" 2>&1; rc=$?; echo "$b $p rc=$rc $(grep -m1 -E '^(C..:|OK|HARNESS)' "$W/out" | cut -c1-150) $(grep -o 'reproduced.*\|not reproduced.*' "$W/out" | head -1)"; done
