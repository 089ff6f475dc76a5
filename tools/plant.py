#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates seeded/ID from tools/bugs.py, confirming each.

Development tool, used by no check: edits a scratch copy of /repo, requires that
it builds and passes the existing tests in both configurations, that the demo
passes on /repo and fails on the copy, and reports which check catches it.
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS
WT = "/tmp/plant_wt_%d" % os.getpid()
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")

DEMO = """#!/bin/bash
# exit 0 if the property's demonstration holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go" || exit 3
cat > "$t/go.mod" <<EOF
module demo
go 1.21
require github.com/bwesterb/go-ristretto v1.0.0
replace github.com/bwesterb/go-ristretto => $repo
EOF
cd "$t" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off %s
%s
"""

def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout + p.stderr

def one(b, checks):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree("/repo", WT, symlinks=True)
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != b.get("count", 1):
            return "edit matches %d times in %s: %r" % (n, f, old)
        open(p, "w").write(s.replace(old, new))
    rc, o = sh("gofmt -l . ; go vet ./... 2>&1 | tail -3; go test -count=1 ./... && go test -count=1 -tags forcegeneric ./...", WT)
    if rc:
        return "TESTS FAIL " + o[-600:]
    rc, diff = sh("git diff", WT)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    name = "/main.c" if b.get("cfile") else "/main.go"
    open(d + name, "w").write(b["demo"].lstrip("\n"))
    if name == "/main.go":
        sh("gofmt -w main.go", d)
    open(d + "/demo.sh", "w").write((DEMO % (b.get("env", ""), b.get("run", "timeout 280 go run ."))).replace("main.go", name[1:]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("bash %s/demo.sh" % d, "/repo")
    if rc:
        return "demo fails on /repo: " + o[-500:]
    rc, o = sh("bash %s/demo.sh" % d, WT)
    if not rc:
        return "demo passes with the bug"
    msg = "demo ok (%s)" % o.strip().split("\n")[0][:100]
    for c in checks or [b["property"]]:
        t = time.time()
        rc, o = sh("python3 %s/check.py %s" % (V, c), V, 1200, dict(os.environ, VERIF_REPO=WT, VERIF_TIER="quick", VERIF_SEED="1"))
        v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        msg += "\n    %s rc=%d %.0fs %s" % (c, rc, time.time() - t, (v or [o[-300:]])[0][:200])
    return msg

if __name__ == "__main__":
    args = sys.argv[1:]
    checks = [a for a in args if re.match(r"^C\d\d$", a)]
    ids = [a for a in args if a not in checks]
    try:
        for b in BUGS:
            if not ids or b["id"] in ids:
                print(b["id"], one(b, checks), flush=True)
    finally:
        shutil.rmtree(WT, ignore_errors=True)
