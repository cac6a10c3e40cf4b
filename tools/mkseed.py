#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' < spec ; spec: blocks
=== path
<<<<
old
====
new
>>>>
followed by '=== main.go' and the demonstration. Writes /verif/seeded/ID from a scratch copy of /repo."""
import sys, os, re, subprocess, json, shutil
sid, prop, needs, breaks = sys.argv[1:5]
spec = sys.stdin.read()
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
w = '/tmp/sw'
subprocess.run(['rm', '-rf', '/tmp/sw'], check=True)
subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
for sec in re.split(r'^=== ', spec, flags=re.M)[1:]:
    path, body = sec.split('\n', 1)
    if path == 'main.go':
        open(d + '/main.go', 'w').write(body)
        continue
    p = os.path.join(w, path)
    s = open(p).read()
    for m in re.finditer(r'<<<<\n(.*?)====\n(.*?)>>>>\n', body, flags=re.S):
        old, new = m.group(1), m.group(2)
        if s.count(old) < 1:
            sys.exit('not found in %s:\n%s' % (path, old))
        if s.count(old) > 1:
            sys.exit('%d matches in %s:\n%s' % (s.count(old), path, old))
        s = s.replace(old, new)
    open(p, 'w').write(s)
    subprocess.run(['gofmt', '-w', p]) if p.endswith('.go') else None
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
if os.path.exists(d + '/main.go'):
    shutil.copy('/verif/tools/demo/lib.go', d + '/lib.go')
    shutil.copy('/verif/tools/demo/demo.sh', d + '/demo.sh')
