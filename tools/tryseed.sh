#!/bin/bash
# tryseed.sh ID [nocheck|notest]: confirm a planted bug: builds, passes the tests, demo fails with it and passes without, which check catches it
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed.$$.json > /tmp/seed.$$.log 2>&1
python3 - /tmp/seed.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1])); base=b.get('stable') or b.get('passed') or b
base=set(base if isinstance(base,list) else base['passed']); bad=base-set(o['passed']); print('tests:', 'ok' if not bad else 'FAILED %s' % sorted(bad)[:5])
P
else bash /opt/vp/build.sh >/dev/null 2>&1; fi
(cd /repo && bash $D/demo.sh > /tmp/seed.$$.out 2>&1); echo "demo with bug: $? ($(tail -1 /tmp/seed.$$.out | cut -c1-150))"
if [ "$2" != nocheck ]; then (cd /verif && VERIF_SEED=1 timeout 900 python3 check.py $P quick > /tmp/seed.$$.chk 2>&1; echo "check $P: $? $(tail -2 /tmp/seed.$$.chk | head -1 | cut -c1-220)"); fi
git -C /repo checkout -q -- .; trap - EXIT
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $D/demo.sh > /tmp/seed.$$.out 2>&1); echo "demo without: $?"; rm -f /tmp/seed.$$.*
