#!/usr/bin/env python3
"""mutants.py FILE [name...]: runs the mutants of FILE (name, obligations, [(file, old, new)...]) and prints which are noticed."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
ms = []
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
def one(m):
    name, obls, eds = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
        for f, o, n in eds:
            p = f"{d}/r/{f}"; t = open(p).read()
            if o not in t: return f"{name}: NO MATCH {o[:60]!r}"
            i = t.rindex(o) if n.startswith("LAST:") else t.index(o)
            n = n.removeprefix("LAST:")
            open(p, "w").write(t[:i] + n + t[i+len(o):])
        b = subprocess.run(". /opt/vp/env.sh; go build ./...", shell=True, cwd=d + "/r", capture_output=True, text=True)
        if b.returncode: return f"{name}: BUILD {b.stderr[:200]}"
        out = []
        for o in obls.split(","):
            r = subprocess.run([os.environ.get("VC", "/tmp/vc"), "-repo", d + "/r", "-p" if o[0] == "P" else "-o", o], capture_output=True, text=True, errors="replace")
            l = r.stdout.splitlines()
            bad = [x for x in l if "ok=false" in x or "VIOLATION" in x]
            if o[0] == "P": l = [""] + [x for x in l if ": holds (" not in x]
            out.append(("caught " if bad else "MISSED ") + o + (": " + " ".join(l[1].split())[:150] if bad and len(l) > 1 else ""))
        return f"{name}: " + "; ".join(out)
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [m for m in ms if not want or m[0] in want]): print(r, flush=True)
