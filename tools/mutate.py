#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): mutates single places of the library in scratch copies, drops the
mutants that do not compile or that the repository's own stable tests already notice, and reports which of the rest
the suites reject.   mutate.py WORKER NWORKERS SECONDS SEED [FILE-SUBSTRING...]   -> /tmp/mut/out.WORKER.jsonl"""
import json, os, random, re, subprocess, sys, time, shutil
W, NW, SECS, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ONLY = sys.argv[5:]
B = "/tmp/mut/w%d" % W
MAP = [("preprocessing/silence", "silence pipeline"), ("preprocessing/norm", "norm pipeline"), ("preprocessing/chan", "mix"),
       ("onset/consensus", "consensus pipeline"), ("onset/hpss", "hpss detectors chroma"), ("onset/", "detectors pipeline"),
       ("period/multi_res", "multires pipeline"), ("period/novelty", "tempogram"), ("period/tempogram", "tempogram multires"),
       ("period/candidate", "legacy"), ("period/", "legacy pipeline"), ("beat_tracking/", "grid segments tempo"),
       ("key/key_changes", "changes"), ("key/templates", "key"), ("key/", "key changes"), ("chroma/", "chroma pipeline"),
       ("analysis/confidence", "conf"), ("analysis/result", "notation pipeline"), ("src/lib.rs", "pipeline escalate robust steady"), ("config", "pipeline steady robust")]

def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f %s/" % B, shell=True)
        class R: returncode = 124; stdout = "timeout"
        return R()

def setup():
    os.makedirs(B, exist_ok=True)
    sh("rm -rf %s/repo %s/verif/spec %s/verif/harness" % (B, B, B))
    os.makedirs(B + "/verif", exist_ok=True)
    sh("cp -a /repo %s/repo; cp -a /verif/run.py /verif/suites.py /verif/spec /verif/harness %s/verif/" % (B, B))
    if not os.path.exists(B + "/verif/target"): sh("cp -a /verif/target %s/verif/target" % B)
    p = B + "/verif/harness/Cargo.toml"
    s = open(p).read().replace('"/repo"', '"%s/repo"' % B)
    open(p, "w").write(s)

def code_lines(t):
    """line numbers of code outside tests and comments"""
    out, lines = [], t.split("\n")
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "log::" in s or "Err(" in s or "format!" in s or s.startswith('"'): continue
        out.append(i)
    return out, lines

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" == ", " != "), (r" != ", " == "), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.\.=", ".."), (r" \+= ", " -= "), (r"\bif ", "if !"), (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\.sqrt\(\)", ".abs()"), (r"\.ceil\(\)", ".floor()"), (r"\.floor\(\)", ".ceil()"), (r"\.round\(\)", ".floor()"), (r"continue;", ""), (r"break;", "")]

def mutants(path, rng):
    t = open(path).read()
    idx, lines = code_lines(t)
    ms = []
    for i in idx:
        l = lines[i]
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a == r"\bif " and ("let" in code or "{" not in code): continue
                if a == r"\bif ":
                    mm = re.match(r"(.*\bif )(.*)( \{.*)$", code)
                    if not mm: continue
                    ms.append((i, mm.group(1) + "!(" + mm.group(2) + ")" + mm.group(3)))
                    continue
                ms.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r"(?<![\w.\[])(\d+\.\d+|\d+)(?![\w.]|\])", code):
            v = m.group(1)
            alts = []
            if "." in v:
                f = float(v)
                alts = [repr(f * 1.25 if f else 0.5), repr(f * 0.8 if f else 1.0), repr(f + 1.0)]
            else:
                n = int(v)
                alts = [str(n + 1)] + ([str(n - 1)] if n > 0 else [])
            for a in alts: ms.append((i, code[:m.start()] + a + code[m.end():]))
        if re.match(r"\s*[\w.\[\]]+(\(.*\))? ?([+*-]?=.*)?;\s*$", code) and "let " not in code and "return" not in code:
            ms.append((i, "// " + code))
    return ms

def main():
    setup()
    rng = random.Random(SEED * 1000 + W)
    sys.path.insert(0, B + "/verif")
    os.chdir(B + "/verif")
    import run as R
    R.NCPU = max(2, 8 // NW)
    files = [os.path.join(dp, f) for dp, _, fs in os.walk(B + "/repo/src") for f in fs if f.endswith(".rs")]
    files = [f for f in files if "/ml/" not in f and "mod.rs" not in f.replace("period/mod.rs", "").replace("beat_tracking/mod.rs", "")]
    if ONLY: files = [f for f in files if any(o in f for o in ONLY)]
    pool = [(f, m) for f in sorted(files) for m in mutants(f, rng)]
    # files in equal shares
    byf = {}
    for f, m in pool: byf.setdefault(f, []).append(m)
    for f in byf: rng.shuffle(byf[f])
    print(W, {os.path.basename(f): len(v) for f, v in byf.items()}, flush=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = open("/tmp/mut/out.%d.jsonl" % W, "a")
    t0 = time.time()
    order = sorted(byf)
    weights = [len(byf[f]) ** 0.7 for f in order]
    env = dict(os.environ, CARGO_TARGET_DIR=B + "/repo/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    while time.time() - t0 < SECS:
        f = rng.choices(order, weights)[0]
        if not byf[f]: continue
        i, new = byf[f].pop()
        src = open(f).read()
        lines = src.split("\n")
        old = lines[i]
        lines[i] = new
        open(f, "w").write("\n".join(lines))
        rec = {"file": f[len(B) + 6:], "line": i + 1, "old": old.strip(), "new": new.strip()}
        t1 = time.time()
        try:
            r = sh("cargo test --lib --offline --all-features -- --test-threads 2 2>&1", 240, cwd=B + "/repo", env=env)
            if "could not compile" in r.stdout:
                continue
            if r.returncode == 124: rec["r"] = "tests-timeout"; continue
            failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M))
            failed = {x for x in failed if any(s.endswith(x) for s in stable) and "performance" not in x}
            if failed: rec["r"] = "tests"; continue
            r = sh("cargo test --tests --doc --offline --all-features -- --test-threads 2 2>&1" if False else "cargo test --test '*' --offline --all-features --no-fail-fast -- --test-threads 2 2>&1", 400, cwd=B + "/repo", env=env)
            failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M))
            failed = {x for x in failed if any(s.endswith(x) for s in stable) and "performance" not in x}
            if failed: rec["r"] = "tests"; continue
            suites = next(s for k, s in MAP if k in f).split()
            rec["r"] = "SURVIVED"
            work = B + "/verif/work"
            for name in suites:
                s = R.SUITES[name]
                shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
                try:
                    R.build([s["bin"]])
                    trace = work + "/t.ndjson"
                    cmd = [R.TARGET + "/debug/" + s["bin"], "--seed", "1", "--n", str(s["n"]["quick"]), "--mode", s.get("mode", ""), "--out", trace, "--tier", "quick"]
                    if s.get("use_cases", True) and os.path.exists("/tmp/mut/cases/" + name):
                        cmd += ["--cases", "/tmp/mut/cases/" + name]
                    rc, o = R.sh(cmd, 600)
                    if rc: rec["r"] = "ERROR"; rec["o"] = o[-500:]; break
                    v = R.validate(s["trace"], trace, work, 600, R.NCPU)
                    cl = sorted({c for b in v["bad"] for c in b[3]})
                    if cl:
                        rec["r"] = "caught"; rec["clauses"] = cl; rec["suite"] = name; break
                except R.ToolError as e:
                    rec["r"] = "ERROR"; rec["o"] = str(e)[-600:]; break
        finally:
            open(f, "w").write(src)
            rec["s"] = round(time.time() - t1)
            if "r" in rec:
                out.write(json.dumps(rec) + "\n"); out.flush()

main()
