#!/usr/bin/env python3
"""seed.py ID: (re)builds /verif/seeded/ID from tools/seeds/ID.py and confirms it.

tools/seeds/ID.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], PKG and DEMO (a Go test
body placed in package PKG). The change is made in a scratch copy of /repo; it must build, pass the stable
tests, and the demonstration must pass without it and fail with it."""
import sys, os, json, subprocess, shutil, tempfile, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd):
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return r.returncode, r.stdout

DEMO_SH = '''#!/bin/bash
# runs demo.go.txt as an in-package test of %(pkg)s
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$tmp/zz_demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''

def main(ident):
    ns = {}
    exec(open(os.path.join(ROOT, "tools/seeds", ident + ".py")).read(), ns)
    out = os.path.join(ROOT, "seeded", ident)
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.sh", "w") as f:
        f.write(DEMO_SH % {"pkg": ns["PKG"], "flags": ns.get("FLAGS", "")})
    os.chmod(out + "/demo.sh", 0o755)
    with open(out + "/demo.go.txt", "w") as f:
        f.write(ns["DEMO"].lstrip())
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    scratch = tempfile.mkdtemp(prefix="seed-")
    repo = scratch + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        rc, o = sh("bash %s/demo.sh" % out, repo)
        if rc != 0:
            print(ident, "DEMO FAILS ON UNCHANGED TREE\n" + o[-3000:]); return 1
        for file, old, new in ns["EDITS"]:
            p = repo + "/" + file
            s = open(p).read()
            if s.count(old) != 1:
                print(ident, "edit of %s matches %d times" % (file, s.count(old))); return 1
            open(p, "w").write(s.replace(old, new))
        subprocess.check_call("git diff > %s/patch.diff" % out, shell=True, cwd=repo)
        rc, o = sh("go build ./... && go vet ./... 2>/dev/null; go build ./...", repo)
        if rc != 0:
            print(ident, "DOES NOT BUILD\n" + o[-2000:]); return 1
        rc, o = sh("bash %s/demo.sh" % out, repo)
        if rc == 0:
            print(ident, "DEMO PASSES WITH THE CHANGE"); return 1
        why = [l for l in o.splitlines() if l.strip()][:6]
        rc, o = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", repo)
        if "FAIL" in o:
            print(ident, "TESTS FAIL\n" + "\n".join(l for l in o.splitlines() if "FAIL" in l or "Error" in l)[:1500]); return 1
        print(ident, "ok:", " | ".join(why)[:300])
        if "CHECK" not in os.environ:
            return 0
        checks = os.environ["CHECK"] or ns["PROPERTY"]
        return 0
    finally:
        shutil.rmtree(scratch)

if __name__ == "__main__":
    sys.exit(max([main(i) for i in sys.argv[1:]]))
