#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of refactors/ to a scratch copy of /repo and runs every obligation on it."""
import os, sys, subprocess, shutil, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
R = {}
for f in sorted(os.listdir(os.path.join(here, "refactors"))):
    if f.endswith(".py"):
        s = importlib.util.spec_from_file_location("m", os.path.join(here, "refactors", f)); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        R.update(m.R)
args = sys.argv[1:]
test = "--test" in args
names = [a for a in args if not a.startswith("--")] or sorted(R)
d = "/tmp/rc_work%d" % os.getpid()
vc = os.environ.get("VC", "/tmp/vc")
for n in names:
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
    bad = False
    for f, old, new in R[n]:
        p = os.path.join(d, f); t = open(p).read()
        if t.count(old) < 1:
            print(n, "NO MATCH", f, repr(old[:60])); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad: continue
    r = subprocess.run(". /opt/vp/env.sh; go build ./... 2>&1" + (" && go test ./circuit ./common ./gkr ./hash ./polynomial ./sumcheck ./examples 2>&1 | grep -v '^ok\\|no test files'; true" if test else ""), shell=True, cwd=d, capture_output=True, text=True)
    if r.stdout.strip(): print(n, "BUILD/TEST", r.stdout[:400])
    if "--build" in args: continue
    r = subprocess.run([vc, "-repo", d], capture_output=True, text=True, timeout=900)
    bad = [l.split()[0] for l in r.stdout.splitlines() if "ok=false" in l and "InitialPoint" not in l]
    rules = [l for l in r.stdout.splitlines() if " rule " in l and " holds " not in l]
    print(n, "quiet" if not bad and not rules and "failing:" in r.stdout else "ALARM " + " ".join(bad + rules) + ("" if "failing:" in r.stdout else r.stdout[-300:]), flush=True)
shutil.rmtree(d, ignore_errors=True)
