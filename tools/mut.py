#!/usr/bin/env python3
"""mut.py SPEC [-j N] [--only NAME]: try changes of arpc against the checks, each in a copy of /repo that is
bind-mounted over /repo in its own mount and network namespace (nothing real is touched).

SPEC:  ### name C01[,C02]
       === path
       <<<<
       old
       ====
       new
       >>>>
"""
import sys, os, re, subprocess, shutil, argparse, json
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("spec"); ap.add_argument("-j", type=int, default=2); ap.add_argument("--only"); ap.add_argument("--notest", action="store_true"); ap.add_argument("--skip", help="output of an earlier run")
a = ap.parse_args()
RUN = r'''
set -e
mkdir -p $W/logs; mount --bind $W/logs /opt/vp/logs; mount --bind $W/repo /repo; mount --bind $W/verif /verif
ip link set lo up 2>/dev/null || true
cd /repo
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo NOBUILD; tail -5 $W/build.log; exit 0; }
 bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1 || true
 python3 - $W/t.json <<'P' || exit 0
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('tests') or b
if isinstance(st,dict): st=st.get('passed') or list(st)
ok=set(o.get('passed') or []); miss=[t for t in st if t not in ok]
if miss: print('TESTSFAIL',miss[:3]); sys.exit(1)
P
fi
cd /verif
for p in $PROPS; do
 set +e
 VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p >$W/out.$p 2>&1; rc=$?
 echo "$p rc=$rc $(grep -m1 '^part' $W/out.$p | cut -c1-220)"
 [ $rc = 0 ] && grep -m1 'held' $W/out.$p
 [ $rc -gt 1 ] && tail -5 $W/out.$p
done
exit 0
'''
def parse(text):
    for m in re.split(r'(?m)^### ', text)[1:]:
        head, _, body = m.partition('\n')
        name, props = head.split()[:2]
        edits = []
        for f in re.split(r'(?m)^=== ', body)[1:]:
            path, _, rest = f.partition('\n')
            for e in re.findall(r'(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>', rest):
                edits.append((path.strip(), e[0], e[1]))
        yield name, props.split(','), edits
def one(x):
    name, props, edits = x
    W = "/tmp/mut/" + name
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    subprocess.run(["cp", "-a", SNAP, W + "/verif"], check=True)
    for path, old, new in edits:
        p = os.path.join(W, "repo", path); s = open(p).read()
        if s.count(old) != 1:
            old, new = old[:-1], new[:-1]  # the last line may be a part of a line
        if s.count(old) != 1:
            return "%-28s BADSPEC %s: %d matches of %r" % (name, path, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    e = dict(os.environ, W=W, PROPS=" ".join(props))
    if a.notest: e["NOTEST"] = "1"
    r = subprocess.run(["unshare", "-mn", "bash", "-c", RUN], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(W, ignore_errors=True)
    return "%-28s %s" % (name, r.stdout.strip())
SNAP = "/tmp/mut/_snap%d" % os.getpid()
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.run(["cp", "-a", "/verif", SNAP], check=True); shutil.rmtree(SNAP + "/.git"); shutil.rmtree(SNAP + "/seeded", ignore_errors=True)
skip = {l.split()[0] for l in open(a.skip) if l.strip()} if a.skip else set()
jobs = [x for x in parse(open(a.spec).read()) if (not a.only or re.search(a.only, x[0])) and x[0] not in skip]
with ThreadPoolExecutor(a.j) as ex:
    for out in ex.map(one, jobs):
        print(out, flush=True)
shutil.rmtree(SNAP, ignore_errors=True)
