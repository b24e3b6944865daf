#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against it.

catch.py [ID...]     the results go to tools/catches.json
Applies the patch in /repo and undoes it straight afterwards.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("OUT", os.path.join(HERE, "catches.json"))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
for i in ids:
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "does not apply")
        continue
    t = time.time()
    try:
        r = subprocess.run(["python3", os.path.join(VERIF, "lib", "check.py"), prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    via = next((l.strip().split(" rejects")[0] for l in lines if " rejects" in l), "")
    res[i] = {"property": prop, "exit": r.returncode, "via": via, "seconds": round(time.time() - t)}
    print(i, prop, "CAUGHT" if r.returncode == 1 else "rc %d" % r.returncode, via, "%ds" % (time.time() - t), flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-800:], r.stderr[-1500:])
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
    if VERIF != "/verif":
        pass
