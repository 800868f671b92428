#!/usr/bin/env python3
"""trybug.py BUG [CHECK...]: run checks (default: the bug's property) against a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(bug, checks):
    d = os.path.join(V, "seeded", bug); w = "/tmp/trybug-" + bug
    if os.path.isdir(w): shutil.rmtree(w)
    subprocess.check_call(["git", "clone", "-q", "/repo", w]); subprocess.check_call(["git", "-C", w, "apply", os.path.join(d, "patch.diff")])
    checks = checks or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    for c in checks:
        r = subprocess.run(["python3", os.path.join(V, "run.py"), c, "--tier", "quick", "--evidence", "/tmp/trybug-ev.json"], env=dict(os.environ, VP_REPO=w), cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(bug, c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR", (r.stdout.strip().splitlines() or [""])[-1][:160], flush=True)
    shutil.rmtree(w)
a = sys.argv[1:]
bugs = sorted(os.listdir(os.path.join(V, "seeded"))) if not a or a[0] == "all" else [a[0]]
for b in bugs: run(b, a[1:])
