#!/usr/bin/env python3
"""Driver: decides one property (or a list) by model checking the specification and validating
recorded behaviour of the real code against it.

  run.py check C21 [--tier quick|thorough] [--seed N]
  run.py setup

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the check itself.
"""
import argparse, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from suites import PROPS, SUITES  # noqa: E402


class ToolError(Exception):
    pass


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, env=None, cwd=None, pre=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise ToolError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))
    return p.returncode, out.decode("utf-8", "replace")


def build(bins):
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    rc, out = sh(cmd, 800, env={"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": "-Awarnings"})
    if rc != 0:
        raise ToolError("harness build failed:\n" + out[-3000:])


def tlc(module, cfg, env, workdir, workers, timeout, heap="3g", extra=()):
    meta = os.path.join(workdir, "meta_" + hashlib.md5((module + cfg + json.dumps(env, sort_keys=True)).encode()).hexdigest()[:10])
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Djava.io.tmpdir=" + workdir, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        rc, out = sh(cmd, timeout, env=env, cwd=SPEC)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
    if not m:
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_mc(mc, tier, workdir):
    """Exhaustive check of a model; also dumps the cases it enumerates."""
    cfg = mc.get("cfg_" + tier) or mc["cfg"]
    cases = os.path.join(workdir, mc["module"] + ".cases.ndjson")
    t0 = time.time()
    rc, out = tlc(mc["module"], cfg, {"CASES": cases, "TIER": tier, "TRACE": "/dev/null"}, workdir, mc.get("workers", NCPU), mc.get("timeout", 600), heap="6g")
    if mc.get("expect"):
        # a deliberately wrong design: the invariant has to reject it
        if "Invariant %s is violated" % mc["expect"] not in out:
            raise ToolError("model %s (%s) does not reject the wrong design:\n%s" % (mc["module"], cfg, out[-3000:]))
    elif rc != 0 or "Model checking completed. No error has been found" not in out:
        raise ToolError("model %s (%s) does not check:\n%s" % (mc["module"], cfg, out[-3000:]))
    g, d = counts(out)
    return {"model": mc["module"], "cfg": cfg, "transitions": g, "states": d, "wall_s": round(time.time() - t0, 1), "cases": cases if os.path.exists(cases) else None}


def validate(spec, trace_path, workdir, timeout, parts):
    """Trace validation in parallel chunks. Chunks are cut at case boundaries."""
    with open(trace_path) as f:
        lines = f.readlines()
    if not lines:
        raise ToolError("empty trace " + trace_path)
    ids = [json.loads(x)["id"] for x in lines]
    per = max(1, (len(lines) + parts - 1) // parts)
    chunks, start = [], 0
    while start < len(lines):
        end = min(len(lines), start + per)
        while end < len(lines) and ids[end] == ids[end - 1]:
            end += 1
        chunks.append((start, end))
        start = end

    def one(k):
        s, e = chunks[k]
        g = d = 0
        bad = []
        for _ in range(12):
            p = trace_path + ".part%d" % k
            with open(p, "w") as f:
                f.writelines(lines[s:e])
            try:
                rc, out = tlc(spec, spec + ".cfg" if os.path.exists(os.path.join(SPEC, spec + ".cfg")) else "Trace.cfg", {"TRACE": p}, workdir, 1, timeout)
            finally:
                os.remove(p)
            gg, dd = counts(out)
            g, d = g + gg, d + dd
            flat = re.sub(r"\s+", " ", out)
            nb = 0
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(-?\d+),\s*"([^"]*)",\s*\{([^}]*)\}\s*>>', flat):
                nb += 1
                bad.append((s + int(m.group(1)) - 1, int(m.group(2)), m.group(3), re.findall(r'"([^"]+)"', m.group(4))))
            if out.count('"BAD"') != nb:
                raise ToolError("unparsed rejection in %s:\n%s" % (spec, out[-2000:]))
            if rc == 0 and "Model checking completed. No error has been found" in out:
                return g, d, bad
            # the specification's expressions have no value on the event at l: values outside every domain it
            # describes. That event is not a behaviour of the specification; go on behind it.
            at = re.findall(r"^l = (\d+)\s*$", out, re.M)
            if not at or "The error occurred when TLC was evaluating" not in out and "Error: The first argument of" not in out and "Error: Attempted to" not in out:
                raise ToolError("trace specification %s failed on lines %d..%d:\n%s" % (spec, s, e, out[-3500:]))
            line = s + int(at[-1]) - 1
            ev = json.loads(lines[line])
            bad.append((line, ev["id"], ev["ev"], ["*.outside"]))
            s = line + 1
            if s >= e:
                return g, d, bad
        return g, d, bad

    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        rs = list(ex.map(one, range(len(chunks))))
    return {"lines": len(lines), "cases": len(set(ids)), "transitions": sum(r[0] for r in rs), "states": sum(r[1] for r in rs),
            "bad": [b for r in rs for b in r[2]], "text": lines}


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    work = os.path.join(VERIF, "scratch", "%s_%s_%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        suites = [(n, SUITES[n]) for n in P["suites"]]
        build(sorted({s["bin"] for _, s in suites}))
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "suites": [], "exhaustive": False}
        violations, known = [], []
        t_build = time.time() - t0
        mcs = {}
        for name, s in suites:
            for mc in s.get("mc", []):
                key = mc["module"] + (mc.get("cfg_" + tier) or mc["cfg"])
                if key not in mcs:
                    mcs[key] = run_mc(mc, tier, work)
                    cov["states"] += mcs[key]["states"]
                    cov["transitions"] += mcs[key]["transitions"]
                    cov["models"].append({k: v for k, v in mcs[key].items() if k != "cases"})
        for mc in P.get("mc", []):
            r = run_mc(mc, tier, work)
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["models"].append({k: v for k, v in r.items() if k != "cases"})
        for name, s in suites:
            trace = os.path.join(work, name + ".ndjson")
            ts = time.time()
            n = s["n"][tier] if tier in s["n"] else s["n"]["quick"]
            if tier == "quick":
                n = int(n * P.get("scale", {}).get(name, P.get("scale", {}).get("*", 1)))
            cmd = [os.path.join(TARGET, "debug", s["bin"]), "--seed", str(seed), "--n", str(n), "--mode", s.get("mode", ""), "--out", trace, "--tier", tier]
            if s.get("mc") and s.get("use_cases", True):
                for mc in s["mc"]:
                    key = mc["module"] + (mc.get("cfg_" + tier) or mc["cfg"])
                    if mcs[key]["cases"]:
                        cmd += ["--cases", mcs[key]["cases"]]
                        break
            rc, out = sh(cmd, s.get("gen_timeout", 700 if tier == "quick" else 6000), pre=limit_memory)
            if rc in (-6, -8, -11, -7, -4, -9, 134, 139):
                # the library took the whole process down (stack or memory exhausted, abort): no specified behaviour does
                violations.append((name, 0, -1, ["*.aborted"], json.dumps({"ev": "aborted", "signal": -rc, "output": out[-500:]}), []))
                continue
            if rc != 0:
                raise ToolError("suite %s ended with %d:\n%s" % (name, rc, out[-2000:]))
            v = validate(s["trace"], trace, work, s.get("tlc_timeout", 700 if tier == "quick" else 6000), NCPU)
            cov["states"] += v["states"]
            cov["transitions"] += v["transitions"]
            cov["traces_validated_against_impl"] += v["cases"]
            cov["suites"].append({"suite": name, "trace_spec": s["trace"], "cases": v["cases"], "events": v["lines"], "wall_s": round(time.time() - ts, 1)})
            if v["text"]:
                mid = v["text"][len(v["text"]) // 2].strip()
                cov["samples"].append({"suite": name, "event": mid[:1500]})
            for line, cid, ev, clauses in v["bad"]:
                mine = [c for c in clauses if c.startswith(prop + ".") or c.startswith("*.")]
                if not mine:
                    continue
                kf = [k for k in known_findings() if k[0] == prop and all(m == k[1].split("@")[0] for m in mine) and ("@" not in k[1] or k[1].split("@")[1] in v["text"][line])]
                (known if kf else violations).append((name, line, cid, mine, v["text"][line].strip(), kf))
        for k in sorted({x[5][0] for x in known}):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        replay = None
        if violations:
            rdir = os.path.join(VERIF, "scratch", "replay")
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, "%s_%s_%d.json" % (prop, tier, seed))
            with open(replay, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed,
                           "how": "suite binary with the same --seed/--mode and --only <case>; the event is rejected by the named clauses of the trace specification",
                           "violations": [{"suite": s, "bin": SUITES[s]["bin"], "mode": SUITES[s].get("mode", ""), "trace_spec": SUITES[s]["trace"],
                                           "case": cid, "line": line + 1, "clauses": cl, "event": json.loads(tx)} for s, line, cid, cl, tx, _ in violations[:20]]}, f, indent=1)
        cov["exhaustive"] = False
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        ev["coverage"]["build_s"] = round(t_build, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violations:
            cl = sorted({c for v in violations for c in v[3]})
            print("%d rejected events; clauses: %s" % (len(violations), ", ".join(cl)))
            print("first: suite %s case %d: %s" % (violations[0][0], violations[0][2], violations[0][4][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("%s: held; %d states, %d traces, %.1fs (build %.1fs)" % (prop, cov["states"], cov["traces_validated_against_impl"], time.time() - t0, t_build))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "setup"])
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            build(sorted({s["bin"] for s in SUITES.values()}))
            return 0
        return check(a.prop, a.tier, a.seed)
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
