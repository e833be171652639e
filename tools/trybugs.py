#!/usr/bin/env python3
"""trybugs.py [ID...]: applies each planted bug to /repo, runs the check of its property, undoes it; prints the outcome."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip() == ""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r = subprocess.run(["python3", "run.py", "check", p], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    cl = [x for x in r.stdout.splitlines() if "clauses" in x]
    print(i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), (cl[0][:150] if cl else r.stdout[-300:] if r.returncode not in (0, 1) else ""), "%.0fs" % (time.time() - t), flush=True)
