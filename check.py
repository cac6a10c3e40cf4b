#!/usr/bin/env python3
"""Run one property check.

  check.py C01                 quick tier (or VERIF_TIER)
  check.py C01 --replay FILE   replay one saved case
"""
import sys, os, json, time, subprocess, shutil, struct, tempfile, signal, argparse

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
GO = "/opt/veriftools/go1.27.3/bin/go"
if not os.path.exists(GO):
    GO = shutil.which("go") or "go"

PKG = json.load(open(os.path.join(VERIF, "checks.json")))


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on", GOWORK="off",
             HOME=e.get("HOME", "/root"))
    e.pop("GOROOT", None)
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(pkg, dst):
    """go test -c of the harness package against /repo's working tree."""
    for name in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, name), os.path.join(dst, name))
    e = env()
    e["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(dst, "go.mod")
    out = os.path.join(dst, "t.test")
    p = subprocess.run([GO, "test", "-vet=off", "-c", "-o", out, "./" + pkg], cwd=HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    return out, ""


def known_keys(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # known: property=C08 key=F47 <what fails>
            if line.startswith("known: "):
                kv = dict(w.split("=", 1) for w in line.split()[1:3])
                if kv.get("property") == prop:
                    keys[kv["key"]] = line.split(None, 3)[3]
    return keys


# per cent of the quick case counts in the harness: cheap checks explore more
QUICK_SCALE = {"C01": 250, "C02": 150, "C03": 500, "C04": 500, "C05": 250, "C06": 200, "C09": 400, "C10": 400, "C12": 250,
               "C14": 300, "C15": 150, "C17": 500, "C19": 250, "C21": 150, "C22": 300, "C23": 200, "C24": 150, "C26": 500,
               "C27": 500, "C28": 400, "C29": 250, "C30": 300, "C33": 400}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--scale", type=int)
    ap.add_argument("--limit", type=int)
    a = ap.parse_args()
    if a.setup:
        for pkg in sorted({v["pkg"] for v in PKG.values()}):
            with tempfile.TemporaryDirectory(prefix="verif-setup-") as d:
                exe, err = build(pkg, d)
                if exe is None:
                    print("build of %s failed:\n%s" % (pkg, err[-4000:]))
                    sys.exit(2)
                print("built", pkg)
        sys.exit(0)
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PKG[prop]
    if a.scale is None:
        a.scale = QUICK_SCALE.get(prop, 100) if tier == "quick" else 100
    shards = a.shards or spec.get("shards", 8)
    limit = a.limit or (780 if tier == "quick" else 5400)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(a, prop, tier, seed, spec, shards, limit, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def crash_verdict(text):
    """Is the death of a shard a crash of the code under test?"""
    for mark in ("fatal error: all goroutines are asleep", "fatal error: concurrent map", "panic:", "fatal error: sync:",
                 "unexpected fault address", "SIGSEGV", "fatal error: stack overflow", "goroutine stack exceeds"):
        i = text.find(mark)
        if i >= 0:
            tail = text[i:]
            # the first goroutine printed is the one that died
            first = tail.split("\n\ngoroutine ", 2)
            head = "\n\ngoroutine ".join(first[:2])
            if "lesismal/arpc" in head or "/repo/" in head:
                return head[:6000]
    return None


def run(a, prop, tier, seed, spec, shards, limit, work, t0):
    exe, err = build(spec["pkg"], work)
    if exe is None:
        print("build failed:\n" + err[-4000:])
        return 2
    build_s = time.time() - t0
    known = known_keys(prop)
    base = env()
    base.update(VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_KNOWN=",".join(known), VERIF_SCALE=str(a.scale),
                VERIF_DIR=VERIF)
    if a.part:
        base["VERIF_PART"] = a.part
    reg = os.path.join(VERIF, "regress", prop)
    if os.path.isdir(reg) and not a.part:
        base["VERIF_REGRESS"] = reg
    if a.replay:
        base["VERIF_REPLAY"] = os.path.abspath(a.replay)
        shards = 1
    procs = []
    for i in range(shards):
        out = os.path.join(work, "s%d" % i)
        os.mkdir(out)
        e = dict(base, VERIF_OUT=out, VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), TMPDIR=out)
        # different scheduler shapes in different shards
        e["GOMAXPROCS"] = str([1, 2, 4, 8, 2, 1, 4, 3][i % 8])
        e["GOTRACEBACK"] = "all"
        lf = open(os.path.join(out, "log"), "wb")
        p = subprocess.Popen([exe, "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.v"], cwd=out, env=e,
                             stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, out, lf))
    end = t0 + limit
    fails, errors, results = [], [], []
    timed_out = False
    for p, out, lf in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        lf.close()
        rp = os.path.join(out, "result.json")
        res = None
        if os.path.exists(rp):
            try:
                res = json.load(open(rp))
            except ValueError:
                res = None
        if res and res.get("fail"):
            fails.append(res["fail"])
        if res:
            results.append((res, out))
        if not res or (not res.get("done") and not res.get("fail")):
            text = open(os.path.join(out, "log"), errors="replace").read()
            v = None if timed_out else crash_verdict(text)
            if v:
                cur = os.path.join(out, "current.bin")
                doc = None
                if os.path.exists(cur):
                    b = open(cur, "rb").read()
                    if len(b) > 8:
                        n = struct.unpack("<Q", b[:8])[0]
                        try:
                            doc = json.loads(b[8:8 + n])
                        except ValueError:
                            doc = None
                if doc is None:
                    doc = {"property": prop, "part": "?", "case": None}
                doc["message"] = "the process died:\n" + v
                fails.append(doc)
            else:
                et = os.path.join(out, "error.txt")
                extra = open(et, errors="replace").read()[:6000] if os.path.exists(et) else ""
                errors.append("shard ended with code %s%s\n%s\n%s" % (p.returncode, " (time limit)" if timed_out else "", extra, (text[:2500] + "\n.....\n" + text[-1500:])))

    if a.replay:
        for f in fails:
            print(f.get("message", "")[:8000])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        if errors:
            print(errors[0])
            return 2
        print("replay passed")
        return 0

    # merge
    parts = {}
    seen_known = {}
    for res, out in results:
        seen_known.update(res.get("known") or {})
        for name, pr in res["parts"].items():
            m = parts.setdefault(name, {"evaluations": 0, "nontrivial": 0, "classes": {}, "samples": [], "rule": pr["rule"],
                                        "budget_hit": 0, "leaks": 0, "hashes": set()})
            m["evaluations"] += pr["evaluations"]
            m["nontrivial"] += pr["nontrivial"]
            m["budget_hit"] += 1 if pr["budget_hit"] else 0
            m["leaks"] += pr["leaks"]
            for k, v in (pr["classes"] or {}).items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            if len(m["samples"]) < 2:
                m["samples"] += (pr["samples"] or [])[:1]
            hp = os.path.join(out, "hashes-" + name)
            if os.path.exists(hp):
                b = open(hp, "rb").read()
                m["hashes"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
    ev = sum(m["evaluations"] for m in parts.values())
    nt = sum(len(m["hashes"]) for m in parts.values())
    samples = [{"part": n, "case": s} for n, m in sorted(parts.items()) for s in m["samples"]]
    rule = "Every case is drawn by rapid from the generator of its part and executed against /repo; non-trivial: " + "; ".join(
        "[%s] %s" % (n, m["rule"]) for n, m in sorted(parts.items()) if not n.startswith("regress-"))
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples,
            "parts": {n: {"evaluations": m["evaluations"], "nontrivial": m["nontrivial"], "distinct_nontrivial": len(m["hashes"]),
                          "classes": dict(sorted(m["classes"].items())), "shards_out_of_budget": m["budget_hit"],
                          "cases_with_goroutines_left": m["leaks"]} for n, m in sorted(parts.items())},
            "shards": shards, "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)

    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s [%s] %s%s" % (prop, k, what, "" if k in seen_known else " (not hit in this run)"))
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f.get("case"))))
        f = fails[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (prop, f.get("part", "x")))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        print("part %s: %s" % (f.get("part"), f.get("message", "")[:4000]))
        print("case: %s" % json.dumps(f.get("case"))[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("check error:\n" + "\n---\n".join(errors)[:8000])
        return 2
    print("%s %s seed=%d: held on %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, ev, nt, time.time() - t0))
    return 0


main()
