#!/usr/bin/env python3
"""handmut.py LIST.py WORKER NWORKERS [ID...] (development aid, not a check): applies hand-written changes (LIST.py: M = [(id, property, [[file, old, new]...])])
one at a time in a scratch copy, runs the repository's own tests and then the suites of the named property, and prints whether the suite rejects it."""
import json, os, re, shutil, subprocess, sys, time
LIST, W, NW = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
IDS = set(sys.argv[4:])
B = "/tmp/mut/h%d" % W
SRC = os.environ.get("HM_REPO", "/repo")
ns = {}
exec(open(LIST).read(), ns)
def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f %s/" % B, shell=True)
        class R: returncode = 124; stdout = "timeout"
        return R()
os.makedirs(B + "/verif", exist_ok=True)
sh("rm -rf %s/verif/spec %s/verif/harness; mkdir -p %s/repo; rsync -a --delete --exclude target %s/ %s/repo/ || (rm -rf %s/repo; cp -a %s %s/repo)" % (B, B, B, SRC, B, B, SRC, B))
sh("cp -a /verif/run.py /verif/suites.py /verif/spec /verif/harness %s/verif/" % B)
if not os.path.exists(B + "/verif/target"): sh("cp -a /verif/target %s/verif/target" % B)
p = B + "/verif/harness/Cargo.toml"
s0 = open(p).read(); open(p, "w").write(s0.replace('"/repo"', '"%s/repo"' % B))
sys.path.insert(0, B + "/verif")
os.chdir(B + "/verif")
import run as R
R.NCPU = max(2, 8 // NW)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, CARGO_TARGET_DIR=B + "/repo/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
def failed(o):
    f = set(re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M))
    return {x for x in f if any(s.endswith(x) for s in stable) and "performance" not in x}
for k, (i, prop, edits) in enumerate(ns["M"]):
    if IDS and i not in IDS or k % NW != W: continue
    saved = {}
    t1 = time.time()
    try:
        for f, a, b in edits:
            q = B + "/repo/" + f
            t = open(q).read()
            saved.setdefault(q, t)
            assert t.count(a) >= 1, (i, f, a)
            open(q, "w").write(t.replace(a, b, 1))
        r = sh("true" if os.environ.get("NOTESTS") else "cargo test --lib --offline --all-features -- --test-threads 4 2>&1", 400, cwd=B + "/repo", env=env)
        if "could not compile" in r.stdout:
            print(i, prop, "NOCOMPILE", r.stdout[-1500:], flush=True); continue
        f = failed(r.stdout)
        if f: print(i, prop, "tests", sorted(f)[:3], flush=True); continue
        r = sh("true" if os.environ.get("NOTESTS") else "cargo test --test '*' --offline --all-features --no-fail-fast -- --test-threads 4 2>&1", 600, cwd=B + "/repo", env=env)
        f = failed(r.stdout)
        if f: print(i, prop, "tests", sorted(f)[:3], flush=True); continue
        res, other = set(), set()
        for name in R.PROPS[prop]["suites"] if "suites" in R.PROPS[prop] else R.PROPS[prop]:
            s = R.SUITES[name]
            work = B + "/verif/work"
            shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
            R.build([s["bin"]])
            trace = work + "/t.ndjson"
            cmd = [R.TARGET + "/debug/" + s["bin"], "--seed", "1", "--n", str(int(s["n"]["quick"] * (lambda sc: sc.get(name, sc.get("*", 1)))(R.PROPS[prop].get("scale", {})))), "--mode", s.get("mode", ""), "--out", trace, "--tier", "quick"]
            if s.get("use_cases", True) and os.path.exists("/tmp/mut/cases/" + name): cmd += ["--cases", "/tmp/mut/cases/" + name]
            rc, o = R.sh(cmd, 800)
            if rc: print(i, prop, "ERROR", name, o[-300:], flush=True); continue
            v = R.validate(s["trace"], trace, work, 800, R.NCPU)
            for b in v["bad"]:
                for c in b[3]:
                    (res if c.startswith(prop) else other).add(c)
            if res: break
        print(i, prop, "CAUGHT" if res else "MISSED", sorted(res), "| other:", sorted(other), round(time.time() - t1), flush=True)
    except Exception as e:
        print(i, prop, "EXC", repr(e)[-800:], flush=True)
    finally:
        for q, t in saved.items(): open(q, "w").write(t)
