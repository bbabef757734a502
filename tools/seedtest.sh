#!/bin/bash
# tools/seedtest.sh <id>...: for each seeded bug, demo on the clean tree, then with the patch: build, stable tests, demo, the check.
# Works on /repo itself and undoes the patch straight afterwards; logs in /tmp/seedlog.
mkdir -p /tmp/seedlog
for id in "$@"; do
  s=/verif/seeded/$id; L=/tmp/seedlog/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $s/demo.sh >$L.demo0 2>&1; d0=$?
  git apply $s/patch.diff || { echo "$id: no apply"; continue; }
  bash /opt/vp/build.sh >$L.build 2>&1; b=$?
  bash /opt/vp/test.sh $L.json >$L.test 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$L.json'))
print([x for x in b['stable'] if x not in set(o['passed'])])")
  bash $s/demo.sh >$L.demo1 2>&1; d1=$?
  st=$(date +%s)
  for p in $prop $EXTRA; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p >$L.check.$p 2>&1); echo "$id: clean demo $d0, build $b, failing tests $t, patched demo $d1, $p check $(grep -c "VIOLATION property=$p" $L.check.$p) $(grep -v '^$' $L.check.$p | grep VIOLATION | head -1 | cut -c1-150) ($(( $(date +%s)-st )) s)"; done
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
