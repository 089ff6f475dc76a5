#!/usr/bin/env python3
"""Mutates cref/cref.c (development tool, used by no check)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
src = open("/repo/cref/cref.c").read()
clean = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
muts = []
depth_start = clean.index("{")
for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", clean):
    v = int(m.group(), 0)
    for d in (1, -1):
        if v + d >= 0:
            muts.append((m.start(), m.end(), str(v + d), "literal %s%+d" % (m.group(), d)))
ops = {"+": ["-"], "-": ["+"], "*": ["+"], "&": ["|"], "|": ["&"], "^": ["|"], "<<": [">>"], ">>": ["<<"], "<": ["<="], "<=": ["<"], ">": [">="], "==": ["!="], "!=": ["=="], "+=": ["-=", "="], "-=": ["+=", "="], "&=": ["|="], "|=": ["&=", "="], "^=": ["|="]}
for m in re.finditer(r"(?<=[\w)\] ])\s*(<<=|>>=|<<|>>|<=|>=|==|!=|\+=|-=|&=|\|=|\^=|[-+*&|^<>])(?=\s*[\w(\[&])", clean):
    for r in ops.get(m.group(1), []):
        if m.group(1) in "+-" and clean[m.end(1)] in "+-": continue
        muts.append((m.start(1), m.end(1), r, "op %s -> %s" % (m.group(1), r)))
for m in re.finditer(r"^[ \t]+[a-z_0-9]+\([^;{}]*\);", clean, re.M):
    muts.append((m.start(), m.end(), "", "drop " + m.group().strip()))
for m in re.finditer(r"&(\w+)->?(\w)\b|&(\w+)\.(\w)\b", clean):
    pass
for m in re.finditer(r"^#", clean, re.M):
    e = clean.index("\n", m.start())
    muts = [x for x in muts if not (m.start() <= x[0] < e)]
random.Random(seed).shuffle(muts)
print(len(muts), "possible")
q = queue.Queue()
for x in muts[:N]: q.put(x)
lock, sem, stat = threading.Lock(), threading.Semaphore(2), {}
def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -99, "timeout"
def work(k):
    wt = "/tmp/cw_%d_%d" % (os.getpid(), k)
    shutil.rmtree(wt, ignore_errors=True); shutil.copytree("/repo", wt, symlinks=True)
    while True:
        try: a, b, r, kind = q.get_nowait()
        except queue.Empty: break
        open(wt + "/cref/cref.c", "w").write(src[:a] + r + src[b:])
        line = src.count("\n", 0, a) + 1
        text = src.split("\n")[line - 1].strip()
        rc, o = sh("go build ./... && go test -count=1 ./...", wt, 60)
        if rc: res = "tests/nobuild"
        else:
            with sem:
                rc, o = sh("python3 %s/check.py C19" % V, V, 900, dict(ENV, VERIF_REPO=wt, VERIF_TIER="quick", VERIF_SEED="1"))
            res = "killed" if rc == 1 and "VIOLATION" in o else "SURVIVED" if rc == 0 else "NOVERDICT " + o[-300:]
        with lock:
            stat[res[:9]] = stat.get(res[:9], 0) + 1
            if res[0] in "SN": print("%s cref.c:%d %s | %s" % (res, line, kind, text), flush=True)
            if sum(stat.values()) % 50 == 0: print(stat, flush=True)
    shutil.rmtree(wt, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", stat)
