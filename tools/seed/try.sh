#!/bin/bash
# try.sh ID...: does the planted bug count (demo fails, tests pass), and does its property's check catch it? Touches /repo and undoes it.
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id: does not build"
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json')); print('$id: tests lost:', set(b['stable'])-set(t['passed']))"
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1; echo "$id: demo with patch: $? $(tail -1 /tmp/demo.log)")
fi
(cd /verif && SIM_SECONDS=${SECS:-60} timeout 900 python3 check.py $prop > /tmp/check.log 2>&1; echo "$id: check $prop: $? $(grep -E 'VIOLATION' /tmp/check.log | head -1 | cut -c1-150)"; tail -3 /tmp/check.log | cut -c1-300)
git -C /repo checkout -q -- .
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1; echo "$id: demo without: $? $(tail -1 /tmp/demo.log)")
fi
done
