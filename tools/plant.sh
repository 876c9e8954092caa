#!/bin/bash
# plant.sh ID [nocheck]: confirm the planted bug seeded/ID and run its check
id=$1; V=/verif; S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
run() { (cd /repo && timeout 300 bash $D/demo.sh); }
run >/dev/null 2>$D/err; echo "$id demo clean: $?"; 
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >$D/b 2>&1 || { echo "$id BUILD FAILED"; tail -5 $D/b; exit 1; }
bash /opt/vp/test.sh $D/t.json 2>&1 | grep -E "error|passed,|FAILED" 
run 2>&1 | tail -3; echo "$id demo patched: ${PIPESTATUS[0]}"
if [ "$2" != nocheck ]; then
  for p in $prop $3; do
  python3 $V/mc/run.py $p --tier quick > $D/o 2>&1; echo "$id check $p: exit $?"; grep -E "VIOLATION" $D/o | head -2
  grep -iE "sig|msg|error" $D/o | head -4
  done
fi
rm -r "$D"
