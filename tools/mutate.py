#!/usr/bin/env python3
"""mutate.py FILE... [--max N] [--out F] [--props C01,...]: automatic mutation of the
Go sources (development tool, used by no check). A mutant that compiles and
passes the existing tests is given to the monitors, in the order of its file.
Survivors of everything are written to the output for a look by hand."""
import json, os, random, shutil, subprocess, sys, threading, queue, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
ORDER = {
    "scalar.go": "C01 C02 C07 C13 C17 C14 C20 C06",
    "ristretto.go": "C05 C03 C06 C09 C10 C13 C04 C17 C07 C14 C20",
    "curve.go": "C18 C05 C03 C04 C06 C07 C14 C20",
    "field.go": "C11 C18 C04 C03 C09 C14 C20",
    "elligator.go": "C09 C10 C18 C14 C20",
    "table.go": "C18 C06 C08 C14 C20",
    "vartime.go": "C18 C06 C14 C20",
}
DEF = "C11 C08 C18 C05 C03 C06 C14 C20"

def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, "timeout"

def main():
    a = sys.argv[1:]
    def opt(n, d):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
        return d
    mx, out, props, workers, seed = int(opt("--max", "400")), opt("--out", "/tmp/mut.jsonl"), opt("--props", ""), int(opt("--workers", "6")), int(opt("--seed", "1"))
    divide = int(opt("--divide", "6"))
    muts = []
    for f in a:
        ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", f], cwd="/repo", capture_output=True, text=True).stdout.splitlines()]
        random.Random(seed).shuffle(ms)
        muts += ms[:mx]
    random.Random(seed).shuffle(muts)
    q = queue.Queue()
    for m in muts:
        q.put(m)
    lock, sem = threading.Lock(), threading.Semaphore(3)
    stat = {}
    fo = open(out, "w")
    def note(k, m, extra=""):
        with lock:
            stat[k] = stat.get(k, 0) + 1
            m["verdict"] = k + " " + extra
            fo.write(json.dumps(m) + "\n"); fo.flush()
            n = sum(stat.values())
            if k == "SURVIVED":
                print("SURVIVED %s:%d %s | %s" % (m["file"], m["line"], m["kind"], m["text"]), flush=True)
            if n % 100 == 0:
                print(n, len(muts), stat, flush=True)
    def work(k):
        wt = "/tmp/mw_%d_%d" % (os.getpid(), k)
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        mod = os.path.join(wt, "harness.mod")
        s = open(V + "/harness/go.mod").read().replace("=> /repo", "=> " + wt)
        open(mod, "w").write(s)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(wt, m["file"])
            src = open("/repo/" + m["file"], "rb").read()
            m["text"] = src.split(b"\n")[m["line"] - 1].decode().strip()
            open(p, "wb").write(src[:m["from"]] + m["repl"].encode() + src[m["to"]:])
            generic = "generic" in m["file"]
            try:
                if generic:
                    rc, o = sh("go build -tags forcegeneric ./... && go test -tags forcegeneric -count=1 . ./edwards25519", wt, 40)
                    if rc:
                        note("nobuild" if "FAIL" not in o and rc != -99 or "build failed" in o else "tests", m); continue
                else:
                    rc, o = sh("go build ./... && go test -count=1 . ./edwards25519", wt, 40)
                    if rc:
                        note("nobuild" if "FAIL" not in o and rc != -99 or "build failed" in o else "tests", m); continue
                exe = os.path.join(wt, "mon")
                rc, o = sh("go build -modfile=%s -o %s %s ./cmd/monitor" % (mod, exe, "-tags forcegeneric" if generic else ""), V + "/harness", 120)
                if rc:
                    note("nobuild", m, o[-200:]); continue
                killed = None
                with sem:
                    for c in (props or ORDER.get(os.path.basename(m["file"]), DEF)).replace(",", " ").split():
                        res = os.path.join(wt, "res.json")
                        if os.path.exists(res): os.unlink(res)
                        rc, o = sh("%s -prop %s -tier quick -config x -seed 65 -divide %d -out %s" % (exe, c, divide, res), wt, 150)
                        try:
                            r = json.load(open(res))
                            if r.get("n_violations"):
                                killed = c; break
                            if r.get("inconclusive"):
                                m.setdefault("inconclusive", []).append(c)
                        except (OSError, ValueError):
                            killed = c + ("(hang)" if rc == -99 else "(crash)"); break
                note("killed" if killed else "SURVIVED", m, killed or "")
            finally:
                open(p, "wb").write(src)
        shutil.rmtree(wt, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("done", stat)
    first = {}
    for l in open(out):
        v = json.loads(l)["verdict"]
        first[v] = first.get(v, 0) + 1
    print(first)
main()
