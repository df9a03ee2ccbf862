#!/usr/bin/env python3
"""mut.py OBLIGATIONS FILE OLD NEW [FILE OLD NEW...]: the verdict of some obligations (comma separated) on a mutated scratch copy of /repo."""
import sys, os, subprocess, shutil, tempfile
obl, ed = sys.argv[1].split(","), sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
    for f, o, n in zip(ed[::3], ed[1::3], ed[2::3]):
        p = f"{d}/r/{f}"; t = open(p).read()
        if t.count(o) < 1: sys.exit(f"NO MATCH {f} {o}")
        open(p, "w").write(t.replace(o, n, 1))
    b = subprocess.run(". /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | grep -i 'not used\\|undefined'", shell=True, cwd=d + "/r", capture_output=True, text=True)
    if b.returncode not in (0, 1) or b.stderr.strip(): print("BUILD", b.stderr[:300])
    for o in obl:
        r = subprocess.run([os.environ.get("VC", "/tmp/vc"), "-repo", d + "/r", "-o", o], capture_output=True, text=True, errors="replace", timeout=900)
        print("  ", *[l[:220] for l in r.stdout.splitlines()[:3]], r.stderr[:200], sep="\n   ")
finally:
    shutil.rmtree(d)
