#!/usr/bin/env python3
"""mkseed.py ID: confirms the planted bug /verif/seeded/ID in a scratch copy of /repo: it applies, builds,
passes the stable tests, and its demonstration passes without and fails with it.
mkseed.py --new ID PROP FILE: (stdin: JSON {old,new,needs,breaks,demo}) creates it first; old/new may be lists of
[file, old, new] under key "edits"."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
S = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# exit 0: the property held in the demonstrated case
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || true
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stratum-dsp = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
debug = 0
T
cd "$t"
CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings cargo build --offline --quiet
timeout 200 "$t/target/debug/demo"
'''
def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.exists(S):
        run("cp -a /repo " + S)
    run("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq" % (S, S, S))
def new(i, prop, spec):
    fresh()
    for f, a, b in spec["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))
    d = os.path.join(V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(run("git -C %s diff" % S).stdout)
    open(d + "/demo.sh", "w").write(DEMO.replace("[workspace]", 'serde_json = "1"\n[workspace]') if "serde_json" in spec["demo"] else DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(spec["demo"])
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def confirm(i):
    d = os.path.join(V, i)
    fresh()
    r = run("bash %s/demo.sh" % d, cwd=S)
    if r.returncode != 0:
        print(i, "demo fails on the unchanged tree", r.stdout[-1500:]); return False
    r = run("git -C %s apply %s/patch.diff" % (S, d))
    if r.returncode: print(i, "does not apply", r.stdout); return False
    r = run("bash %s/demo.sh" % d, cwd=S)
    if r.returncode == 0 or "error" in r.stdout and "could not compile" in r.stdout:
        print(i, "demo passes with the bug / no build", r.stdout[-1500:]); return False
    env = dict(os.environ, CARGO_TARGET_DIR=S + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
    r = run("timeout 840 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 1 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log", cwd=S, env=env)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/seed.json"))
    miss = sorted(b - set(o["passed"]))
    if miss: print(i, "breaks tests", miss[:6]); return False
    print(i, "confirmed"); return True
if sys.argv[1] == "--new":
    ns = {}
    exec(open(sys.argv[2]).read(), ns)
    for i, prop, spec in ns["BUGS"]:
        if len(sys.argv) > 3 and i not in sys.argv[3:]: continue
        try:
            new(i, prop, spec); ok = confirm(i)
        except AssertionError as e:
            print(i, "edit does not match", e); ok = False
        if not ok: shutil.rmtree(os.path.join(V, i), ignore_errors=True)
else:
    for i in sys.argv[1:]: confirm(i)
