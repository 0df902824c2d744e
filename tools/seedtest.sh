#!/bin/bash
# seedtest.sh ID...   (development aid) tries planted bugs in the scratch copy /tmp/sr: builds, tests, demo both ways, checks
for ID in "$@"; do S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /tmp/sr; git checkout -q -- .; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD
bash $S/demo.sh >/tmp/demo0.log 2>&1; D0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
ninja -C _build -j8 >/tmp/sb.log 2>&1 || { echo "$ID: does not build"; tail -5 /tmp/sb.log; git checkout -q -- .; continue; }
T=$(ctest --test-dir _build -j8 --timeout 150 2>&1 | grep 'tests passed')
bash $S/demo.sh >/tmp/demo1.log 2>&1; D1=$?
echo "$ID ($P): demo clean=$D0 patched=$D1 ($(tail -1 /tmp/demo1.log | cut -c1-100)) | $T"
[ -n "$NOCHECK" ] || CALIGO_REPO=/tmp/sr python3 /verif/check.py $P | cut -c1-230 | tail -3
git checkout -q -- .; done
