#!/usr/bin/env python3
"""run.py OUT [-j N] [--sample PCT] [--scale PCT] [--lines A-B] [--props C01,..] FILE...: small generated mutations of /repo's files, through go's
-overlay, against the checks of MAP; appends one line per mutant to OUT (killed by / survived / does not build)."""
import sys, os, json, subprocess, tempfile, shutil, random, argparse, time, signal
from concurrent.futures import ThreadPoolExecutor
import types
check = types.ModuleType("check"); check.__file__ = "/verif/check.py"
exec(open("/verif/check.py").read().rsplit("\nmain()", 1)[0], check.__dict__)
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-j", type=int, default=5); ap.add_argument("--sample", type=int, default=100)
ap.add_argument("--scale", type=int, default=25); ap.add_argument("--ops"); ap.add_argument("--lines"); ap.add_argument("--props"); ap.add_argument("files", nargs="+")
a = ap.parse_args()
MAP = {
 "client.go": "C02 C07 C03 C10 C09 C28 C04 C08 C31 C25 C05 C06 C17 C14 C01 C33 C16 C26 C13",
 "handler.go": "C12 C05 C06 C02 C08 C11 C28 C16 C01 C13 C26 C25 C09 C07",
 "server.go": "C14 C33 C15 C12 C13 C10 C31",
 "stream.go": "C08 C10 C31 C25 C02 C13 C16",
 "proto.go": "C26 C01 C05 C25 C16 C11 C13 C06",
 "context.go": "C12 C05 C26 C06 C02 C25 C16 C10",
 "allocator.go": "C16 C25 C15",
 "pubsub": "C18 C19 C31 C25 C11 C16",
 "listener": "C20", "service.go": "C23 C24", "redis": "C24", "etcd": "C32", "coder": "C13 C11 C25", "router": "C27",
 "protocol": "C21", "arpchttp": "C22", "log": "C30", "util": "C05 C25 C12 C11 C16",
}
def props(f):
    if a.props: return a.props.split(',')
    for k, v in MAP.items():
        if f == k or ('/' in f and (k in f.split('/')[:-1] or f.endswith('micro/' + k))):
            return v.split()
    raise SystemExit(f)
def one(m):
    f = m["File"]
    src = open('/repo/' + f, 'rb').read()
    t = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
    w = tempfile.mkdtemp(prefix="am-")
    try:
        mf = w + '/m.go'; open(mf, 'wb').write(t)
        ov = w + '/ov.json'; json.dump({"Replace": {'/repo/' + f: mf}}, open(ov, 'w'))
        built = {}
        verdict = None
        for p in props(f):
            spec = check.PKG[p]
            pkg = spec["pkg"]
            if pkg not in built:
                for n in ("go.mod", "go.sum"):
                    shutil.copy(os.path.join(check.HARNESS, n), w)
                e = check.env(); e["GOFLAGS"] = "-mod=mod -modfile=" + w + "/go.mod"; e["GOCACHE"] = "/tmp/am/cache"
                exe = w + '/' + pkg + '.test'
                b = subprocess.run([check.GO, "test", "-vet=off", "-c", "-overlay", ov, "-o", exe, "./" + pkg], cwd=check.HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if b.returncode:
                    verdict = "nobuild"; break
                built[pkg] = exe
            out = w + '/o' + p; os.mkdir(out)
            sc = max(1, check.QUICK_SCALE.get(p, 100) * a.scale // 100)
            e = check.env(); e.update(VERIF_PROP=p, VERIF_SEED="1", VERIF_TIER="quick", VERIF_KNOWN="", VERIF_SCALE=str(sc), VERIF_DIR=w, VERIF_OUT=out, VERIF_SHARD="0", VERIF_SHARDS="8", TMPDIR=out, GOMAXPROCS="2")
            reg = "/verif/regress/" + p
            if os.path.isdir(reg): e["VERIF_REGRESS"] = reg
            with open(out + '/log', 'wb') as lf:
                pr = subprocess.Popen([built[pkg], "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=out, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                try: pr.wait(150)
                except subprocess.TimeoutExpired: verdict = p + "(time)"
                try: os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                pr.wait()
            if verdict: break
            try: r = json.load(open(out + '/result.json'))
            except Exception: r = {}
            if r.get("fail") or not r.get("done"):
                verdict = p; break
        return verdict or "SURVIVED"
    finally:
        shutil.rmtree(w, ignore_errors=True)
muts = []
for f in a.files:
    o = subprocess.run(['/tmp/am/automut', f], cwd='/repo', capture_output=True, text=True, check=True).stdout
    muts += [json.loads(l) for l in o.splitlines()]
if a.ops: muts = [m for m in muts if m["Op"] in a.ops.split(',')]
if a.lines:
    lo, hi = map(int, a.lines.split('-')); muts = [m for m in muts if lo <= m["Line"] <= hi]
random.seed(7)
muts = [m for m in muts if random.random() * 100 < a.sample]
print(len(muts), "mutants", flush=True)
def job(m):
    t0 = time.time(); v = one(m)
    with open(a.out, 'a') as fh:
        fh.write("%-10s %s:%d %s %r -> %r (%.0f s)\n" % (v, m["File"], m["Line"], m["Op"], m["Old"], m["New"][:80], time.time() - t0))
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(job, muts))
print("end", flush=True)
