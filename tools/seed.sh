#!/bin/bash
# seed.sh ID [nocheck]: verify the planted bug seeded/ID (patch.diff already there) against /repo:
# builds, passes the stable tests, demo passes without and fails with it; then runs its check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
if ! timeout 300 bash $d/demo.sh >/tmp/seed.log 2>&1; then echo "$id: demo FAILS on clean tree"; tail -20 /tmp/seed.log; exit 1; fi
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
if ! bash /opt/vp/build.sh >/tmp/seed.log 2>&1; then echo "$id: no build"; tail /tmp/seed.log; exit 1; fi
bash /opt/vp/test.sh /tmp/fx.json >/tmp/seed.log 2>&1
python3 - <<'P' || { echo "$id: tests fail"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fx.json'))
st=b.get('stable') or b.get('tests') or b
if isinstance(st,dict): st=st.get('passed') or list(st)
ok=set(o.get('passed') or []); miss=[t for t in st if t not in ok]
if miss: print('missing',miss); sys.exit(1)
P
if timeout 300 bash $d/demo.sh >/tmp/seed.log 2>&1; then echo "$id: demo PASSES with the bug"; exit 1; fi
[ -n "$2" ] && { echo "$id: valid bug"; exit 0; }
cd /verif; out=$(VERIF_SEED=1 python3 check.py $prop 2>&1); rc=$?
echo "$id: valid bug; check $prop rc=$rc: $(echo "$out" | grep VIOLATION | head -1)"
echo "$out" | grep -A2 -i "message\|violat" | head -5 | cut -c1-300
