#!/bin/bash
# tools/seed_check.sh [-n] ID : confirm a planted bug (applies, builds, stable tests pass, demo 0 -> nonzero) and run its check.
# -n: only run the check. Works on /repo's working tree and undoes the change afterwards. Development aid; no check uses it.
only=0; [ "$1" = -n ] && { only=1; shift; }
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
if [ $only = 0 ]; then
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); echo "demo on clean tree: $?"
fi
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 2; }
if [ $only = 0 ]; then
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); echo "demo with the bug: $?"; tail -3 /tmp/demo.out
  bash /opt/vp/test.sh /tmp/o.json >/tmp/b.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print("tests:", "all stable pass" if not miss else f"{len(miss)} FAIL {miss[:4]}")
P
fi
cd /verif && VERIF_SEED=1 python3 run.py $prop quick > /tmp/check.out 2>&1; echo "check $prop: $?"; grep -a VIOLATION /tmp/check.out; grep -a FAILED /tmp/check.out | head -2
