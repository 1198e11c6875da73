#!/bin/bash
# seedtest.sh SLOT ID: builds, tests, demo and check of a planted bug, all on a scratch copy
N=$1; ID=$2; D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cat > /tmp/kvslot.$N.sh <<X
bash /opt/vp/build.sh > /tmp/kvslot.$N.build 2>&1 || { echo "$ID: BUILD FAILED"; tail -5 /tmp/kvslot.$N.build; exit; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh /tmp/kvslot.$N.json > /tmp/kvslot.$N.test 2>&1
python3 - <<Y
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/kvslot.$N.json'))
ok=set(r.get('passed',[])) if isinstance(r,dict) else set()
m=b-ok
print("$ID: tests", "OK" if not m else "BROKEN %s" % sorted(m)[:4])
Y
fi
cd /repo; timeout 300 bash $D/demo.sh > /tmp/kvslot.$N.demo 2>&1; echo "$ID: demo exit \$? (want nonzero): \$(tail -1 /tmp/kvslot.$N.demo)"
cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $PROP > /tmp/kvslot.$N.check 2>&1; echo "$ID: check $PROP exit \$? \$(grep -E 'proof:|VIOLATION' /tmp/kvslot.$N.check | tr '\n' ' ') \$(grep -m1 'failing input' /tmp/kvslot.$N.check | cut -c1-200)"
X
/verif/tools/slot.sh $N $D/patch.diff bash /tmp/kvslot.$N.sh
