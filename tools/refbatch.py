#!/usr/bin/env python3
"""As refcheck.py, with many edits applied together; the obligations that alarm are then run on each edit alone."""
import os, sys, subprocess, shutil, importlib.util, json
here = os.path.dirname(os.path.abspath(__file__))
R = {}
sys.path.insert(0, os.path.join(here, "refactors"))
for f in sorted(os.listdir(os.path.join(here, "refactors"))):
    if f.endswith(".py"):
        s = importlib.util.spec_from_file_location("m_" + f[:-3], os.path.join(here, "refactors", f)); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        R.update(m.R)
vc = os.environ.get("VC", "/tmp/vc")
args = sys.argv[1:]
size = 100
if "-n" in args: i = args.index("-n"); size = int(args[i + 1]); del args[i:i + 2]
todo = args or sorted(R)
d = "/tmp/rb_work%d" % os.getpid()
def fresh():
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
def apply(n):
    saved = {}
    for f, old, new in R[n]:
        p = os.path.join(d, f); t = open(p).read(); saved.setdefault(p, t)
        if t.count(old) < 1:
            for q, x in saved.items(): open(q, "w").write(x)
            return False
        open(p, "w").write(t.replace(old, new, 1))
    r = subprocess.run(". /opt/vp/env.sh; go build ./... 2>&1", shell=True, cwd=d, capture_output=True, text=True)
    if r.stdout.strip():
        for q, x in saved.items(): open(q, "w").write(x)
        return False
    return True
def suite():
    r = subprocess.run([vc, "-repo", d], capture_output=True, text=True, errors="replace", timeout=1800)
    bad = [l.split()[0] for l in r.stdout.splitlines() if "ok=false" in l and "InitialPoint" not in l]
    rules = [l for l in r.stdout.splitlines() if " rule " in l and " holds " not in l]
    return bad, rules + ([] if "failing:" in r.stdout else [r.stdout[-300:]])
while todo:
    fresh(); used, left = [], []
    for n in todo:
        if len(used) < size and apply(n): used.append(n)
        else: left.append(n)
    if not used: print("cannot apply", left); break
    bad, rules = suite()
    print("batch of", len(used), "ALARM" if bad or rules else "quiet", *bad, *rules, flush=True)
    if not (bad or rules): print("   ", *used, flush=True)
    else:
        procs = []
        for n in used:
            fresh()
            if not apply(n): print("   ", n, "does not apply alone"); continue
            al = []
            ps = [(o, subprocess.Popen([vc, "-repo", d, "-verif", os.path.dirname(here), "-child", o], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")) for o in bad]
            for o, p in ps:
                try: st = json.loads(p.communicate(timeout=600)[0])["status"]
                except Exception: st = "none"
                if st != "holds": al.append(o)
            if rules:
                o = subprocess.run([vc, "-repo", d, "-all", "-o", "NONE"], capture_output=True, text=True).stdout
                al += [l for l in o.splitlines() if " rule " in l and " holds " not in l]
            print("   ", n, "ALARM " + " ".join(al) if al else "quiet", flush=True)
    todo = left
shutil.rmtree(d, ignore_errors=True)
