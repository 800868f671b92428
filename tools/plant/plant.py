#!/usr/bin/env python3
"""Write a planted bug to /verif/seeded: plant.py bugs.py [ID...]; each bug is a dict
{id, property, edits: [(file, old, new)], needs, breaks, demo, cli?}. Confirms the demo on both trees."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
env = {}; exec(open(sys.argv[1]).read(), env)
for b in env["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    d = os.path.join(V, "seeded", b["id"])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    w = "/tmp/plant-scratch"
    if os.path.isdir(w): shutil.rmtree(w)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in b["edits"]:
        p = os.path.join(w, f) if f.startswith("src/cli") else os.path.join(w, "src/DRAMPower/DRAMPower", f)
        t = open(p).read(); assert t.count(old) == 1, (b["id"], f, t.count(old)); open(p, "w").write(t.replace(old, new))
    patch = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    shutil.copy(os.path.join(H, "demo.sh"), d); shutil.copy(os.path.join(H, "demo.hpp"), d); shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    if b.get("cli"): open(os.path.join(d, "cli"), "w").write("build the command line library too\n")
    if b.get("flags"): open(os.path.join(d, "flags"), "w").write(b["flags"] + "\n")
    open(os.path.join(d, "demo.cpp"), "w").write('#include "demo.hpp"\n' + b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    base = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = base.returncode == 0 and bad.returncode not in (0, 3, 124)
    print(b["id"], "OK" if ok else "NOT CONFIRMED", base.returncode, bad.returncode, "" if ok else base.stdout[-1500:] + "\n---\n" + bad.stdout[-1500:], flush=True)
    if ok: print("   ", bad.stdout.strip().splitlines()[0][:150])
    shutil.rmtree(w)
