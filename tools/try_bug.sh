#!/bin/bash
# Confirms a planted bug in a scratch copy: applies, demo passes without / fails with it, stable tests still pass.
id=$1; D=/verif/seeded/$id; W=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"
cp -r "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$W/repo"
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 "$W/d0"; tail -2 "$W/d1"
if [ "$2" != nodemo ]; then
mkdir "$W/home"; cp tests/solver/.optigan.yml "$W/home/"
HOME=$W/home NO_GCE_CHECK=true PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:anyio -p no:cacheprovider --timeout=120 --disable-warnings 2>&1 | tail -6
fi
