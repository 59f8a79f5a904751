#!/bin/bash
# tools/trybug.sh ID [--notest] [CHECK...]: confirm a planted bug in /repo, then undo it.
ID=$1; shift
NOTEST=; [ "$1" = --notest ] && { NOTEST=1; shift; }
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH="${*:-$P}"
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash $S/demo.sh >/tmp/demo.$ID.clean 2>&1 || { echo "$ID: demo fails on clean tree"; tail -5 /tmp/demo.$ID.clean; exit 2; }
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.$ID 2>&1 || { echo "$ID: build fails"; exit 2; }
bash $S/demo.sh >/tmp/demo.$ID.bug 2>&1 && { echo "$ID: demo passes with the bug"; exit 2; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/bug.$ID.json >/tmp/test.$ID.log 2>&1
python3 - <<PY || { echo "$ID: tests fail"; exit 2; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/bug.$ID.json'))['passed'])
d=b-o
if d: print(sorted(d)[:5]); sys.exit(1)
PY
fi
for c in $CH; do
  t=$(date +%s)
  (cd /verif && ./run.sh $c >/tmp/check.$ID.$c 2>&1); r=$?
  echo "$ID $c rc=$r $(grep -c '^VIOLATION property='$c /tmp/check.$ID.$c) violations $(( $(date +%s)-t ))s"
done
