#!/usr/bin/env python3
"""probe.py FILE [ID...] [--workers K]: trial bugs without a demonstration
(development tool, used by no check). FILE defines PROBES, a list of
(id, "Cnn Cmm", [(file, old, new)...]): each is applied to a scratch copy of
/repo, must pass the tests, and is given to the quick checks named.
Properties after a '?' are run for information only."""
import importlib.util, os, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    except subprocess.TimeoutExpired:
        return -99, "timeout"
    return p.returncode, p.stdout + p.stderr

def main():
    a = sys.argv[1:]
    workers = 2
    if "--workers" in a:
        i = a.index("--workers"); workers = int(a[i + 1]); del a[i:i + 2]
    sp = importlib.util.spec_from_file_location("probes", a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    q = queue.Queue()
    for b in m.PROBES:
        if len(a) == 1 or b[0] in a[1:]:
            q.put(b)
    def work(k):
        wt = "/tmp/probe_%d_%d" % (os.getpid(), k)
        while True:
            try:
                pid, props, edits = q.get_nowait()
            except queue.Empty:
                break
            shutil.rmtree(wt, ignore_errors=True)
            shutil.copytree("/repo", wt, symlinks=True)
            bad = ""
            for f, old, new in edits:
                p = os.path.join(wt, f); s = open(p).read()
                n = s.count(old)
                if n < 1:
                    bad = "NO MATCH %s %r" % (f, old)
                    break
                open(p, "w").write(s.replace(old, new, 1))
            if bad:
                print(pid, bad, flush=True); continue
            rc, o = sh("go test -count=1 ./... && go test -count=1 -tags forcegeneric ./...", wt)
            if rc:
                print(pid, "TESTS FAIL", [l for l in o.split("\n") if "FAIL" in l or ".go:" in l][:3], flush=True); continue
            msg = pid
            for c in props.split():
                t = time.time()
                rc, o = sh("python3 %s/check.py %s" % (V, c), V, 900, dict(os.environ, VERIF_REPO=wt, VERIF_TIER="quick", VERIF_SEED="1"))
                msg += "  %s:%s(%.0fs)" % (c, {0: "MISSED", 1: "caught"}.get(rc, "rc%d %s" % (rc, o[-200:])), time.time() - t)
            print(msg, flush=True)
        shutil.rmtree(wt, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
