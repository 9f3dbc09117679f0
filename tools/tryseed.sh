#!/bin/bash
# tryseed.sh ID...: applies the seeded change to /repo, builds, runs the stable tests, the demo and the check; undoes it
cd /repo || exit 2
git diff --quiet || { echo "/repo dirty"; exit 2; }
for ID in "$@"; do
 D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
 bash $D/demo.sh >/dev/null 2>/tmp/ts.err; c=$?
 git apply $D/patch.diff || { echo "$ID: does not apply"; continue; }
 bash $D/demo.sh >/dev/null 2>&1; d=$?
 bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
 t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=set(json.load(open('/tmp/ts.json'))['passed'])
s=b['stable']
print(len([x for x in s if x not in o]), "of", len(s), "stable tests fail", [x for x in s if x not in o][:3])
PY
)
 r=$(cd ${VV:-/verif}; timeout 900 python3 check.py $P 2>&1 | grep -E "^VIOLATION|holds:|ERROR" | head -1)
 git checkout -q -- .
 echo "$ID [$P] demo clean=$c patched=$d | $t | $r"
done
