#!/bin/bash
# Development aid: seedtest.sh <seeded id> [check ids...]: in a scratch copy of
# /repo, confirm demo passes, apply the patch, run the stable tests, the demo
# and the given checks (default: the property of meta.json).
id=$1; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
sd=$here/seeded/$id
w=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$sd" "$w/demo"
cd "$w/repo" || exit 1
bash "$w/demo/demo.sh" >"$w/d0" 2>&1; d0=$?
[ $d0 = 0 ] || tail -5 "$w/d0"
git apply "$sd/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
if grep -q '^+++ b/violations' "$sd/patch.diff"; then
  /opt/venv/bin/python setup_violations.py build_ext --inplace --force >/dev/null 2>&1 || echo "build failed"
fi
PYTHONPATH=/opt/vp/plugins timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=60 --junitxml="$w/j.xml" -o junit_family=xunit2 >"$w/t" 2>&1
t=$(tail -1 "$w/t")
bash "$w/demo/demo.sh" >"$w/d1" 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1 tests: $t"
grep -E '^(FAILED|ERROR)' "$w/t" | head -5
props=${*:-$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")}
for p in $props; do
  MON_REPO=$w/repo timeout 900 "$here/check" $p >"$w/c" 2>&1; rc=$?
  echo "$id: check $p -> $rc $(grep -E '^  [0-9]+ x' "$w/c" | head -4 | tr '\n' ';') $(grep -E 'INCONCL' "$w/c"|head -2)"
done
