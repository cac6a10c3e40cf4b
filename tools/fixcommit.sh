#!/bin/bash
# fixcommit.sh "message": build, run the stable tests, commit /repo
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/fx.log 2>&1 || { tail -20 /tmp/fx.log; exit 1; }
bash /opt/vp/test.sh /tmp/fx.json >/tmp/fx.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fx.json'))
st=b.get('stable') or b.get('tests') or b
if isinstance(st,dict): st=st.get('passed') or list(st)
ok=set(o.get('passed') or [])
miss=[t for t in st if t not in ok]
print(len(st),'stable; missing',miss)
sys.exit(1 if miss else 0)
P
git add -A && git commit -qm "$1" && git log --oneline | head -1
