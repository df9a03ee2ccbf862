#!/usr/bin/env python3
"""seedcheck.py [ID...]: applies each planted change to /repo, runs the check of its property (or all with ALL=1), undoes it"""
import sys, os, json, subprocess
R = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(R))
claimed = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if False else None
missed = []
for i in ids:
    d = os.path.join(R, i)
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        r = subprocess.run(["timeout", "900", "/verif/bin/check", "-p", p], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        ok = r.returncode == 1 and v
        print(i, p, "caught" if ok else "MISSED rc=%d" % r.returncode, (v or [""])[0][:150])
        if not ok: missed.append(i)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
print("missed:", missed)
