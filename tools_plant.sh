#!/bin/bash
# tools_plant.sh ID: confirms one planted bug in a scratch copy of /repo:
# patch applies, stable tests pass, demo exits 0 without and nonzero with it.
set -u
id=$1
src=/verif/seeded/$id
tmp=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$tmp/repo"
cp -a "$src" "$tmp/demo"
rm -f "$tmp/demo/patch.diff" "$tmp/demo/meta.json"
run() { (cd "$tmp/repo" && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/out" 2>&1); }
# demos address the tree as the current directory
run; a=$?
[ $a -ne 0 ] && { echo "demo fails on the unchanged tree"; tail -20 "$tmp/out"; }
(cd "$tmp/repo" && git apply "$src/patch.diff") || echo "patch does not apply"
run; b=$?
tail -3 "$tmp/out"
t=$(cd "$tmp/repo" && PYTHONPATH="$tmp/repo" /opt/venv/bin/python -m pytest -q discs/test/model_test/categorical_test.py 2>/dev/null | tail -1)
echo "$id: unchanged=$a patched=$b tests: $t"
rm -rf "$tmp"
