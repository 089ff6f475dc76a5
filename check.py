#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property of go-ristretto at run time.

Builds the monitors against /repo's working tree in every configuration the
property is about, runs them, and writes evidence/ID.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import threading
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from spec import RULES, ASSUME  # noqa: E402

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
SEED &= (1 << 31) - 1

COVERPKG = "github.com/bwesterb/go-ristretto,github.com/bwesterb/go-ristretto/edwards25519,verif.local/harness/cmd/ct"

# configurations: name -> (go command, build tags, extra args, extra env)
CONFIGS = {
    "default": dict(),
    "generic": dict(tags=["forcegeneric"]),
    "asm": dict(overlay=True),
    "386": dict(env={"GOARCH": "386", "CGO_ENABLED": "0"}),
    "go123": dict(go="go1.23"),
    "generic-386": dict(tags=["forcegeneric"], env={"GOARCH": "386", "CGO_ENABLED": "0"}),
    "noopt": dict(args=["-gcflags=all=-N -l"]),
    "race": dict(args=["-race"]),
    "race-generic": dict(args=["-race"], tags=["forcegeneric"]),
    "valgrind": dict(tags=["valgrind"]),
    "valgrind-generic": dict(tags=["valgrind", "forcegeneric"]),
    # branches of the source that the optimiser turns into moves are branches here
    "valgrind-noopt": dict(tags=["valgrind"], args=["-gcflags=github.com/bwesterb/go-ristretto/...=-N -l"]),
    "valgrind-generic-noopt": dict(tags=["valgrind", "forcegeneric"], args=["-gcflags=github.com/bwesterb/go-ristretto/...=-N -l"]),
    "valgrind-asm": dict(tags=["valgrind"], overlay=True),
    "guided": dict(tags=["libfuzzer"], args=["-gcflags=github.com/bwesterb/go-ristretto/...=-d=libfuzzer"]),
    "guided-generic": dict(tags=["libfuzzer", "forcegeneric"], args=["-gcflags=github.com/bwesterb/go-ristretto/...=-d=libfuzzer"]),
    "cover": dict(args=["-cover", "-covermode=atomic", "-coverpkg=" + COVERPKG]),
    "cover-generic": dict(tags=["forcegeneric"], args=["-cover", "-covermode=atomic", "-coverpkg=" + COVERPKG]),
}
# asm is not a supported build of today's tree, and guided search only adds inputs: skipped if they do not build
OPTIONAL = {"asm", "valgrind-asm", "guided", "guided-generic"}

QUICK = {p: ["default", "generic"] for p in RULES}
THOROUGH = {p: ["default", "generic", "386", "asm", "noopt"] for p in RULES}
QUICK["C11"] = ["default", "generic", "asm", "386"]
QUICK["C12"] = ["default", "generic", "asm", "386"]
THOROUGH["C12"] = ["default", "generic", "asm", "386", "generic-386", "go123", "noopt"]
QUICK["C15"] = ["race", "race-generic", "default"]
THOROUGH["C15"] = ["race", "race-generic", "default", "generic"]
QUICK["C16"] = ["valgrind", "valgrind-generic", "valgrind-noopt", "valgrind-generic-noopt", "valgrind-asm", "cover", "cover-generic"]
THOROUGH["C16"] = QUICK["C16"]
QUICK["C17"] = ["default", "go123"]
THOROUGH["C17"] = ["default", "go123", "generic"]
QUICK["C19"] = ["default"]
THOROUGH["C19"] = ["default"]
QUICK["C21"] = ["-O2"]  # what cgo compiles it with
THOROUGH["C21"] = ["-O2", "-O3"]

QUICK["C23"] = THOROUGH["C23"] = ["default"]

BUDGET = 840 if TIER == "quick" else 4 * 3600


class NoVerdict(Exception):
    pass


class BuildError(NoVerdict):
    pass


def left():
    return BUDGET - (time.time() - T0)


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO_"))}
    h = hashlib.sha256()
    cref = os.path.join(REPO, "cref")
    for f in sorted(os.listdir(cref)) if os.path.isdir(cref) else []:
        if f.endswith(".data"):
            h.update(open(os.path.join(cref, f), "rb").read())
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off", GOWORK="off", GO111MODULE="on",
             GOSUMDB="off", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOMODCACHE="/root/go/pkg/mod",
             GOPATH="/root/go", CGO_ENABLED="1",
             # cref.c includes a data file that the build cache does not look at
             CGO_CFLAGS="-O2 -g -DVP_DATA_HASH=0x" + h.hexdigest()[:16])
    e.update(extra or {})
    return e


def run(cmd, timeout, **kw):
    """Runs cmd in its own process group; returns (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         start_new_session=True, text=True, errors="replace", **kw)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def strip_constraints(src, dst):
    with open(src) as f:
        s = f.read().split("\n")
    s = [l for l in s if not re.match(r"^//\s*(go:build|\+build)", l)]
    with open(dst, "w") as f:
        f.write("\n".join(s))


def asm_overlay(out):
    """The assembly backend is selected before go1.13 only; this builds it anyway."""
    d = os.path.join(REPO, "edwards25519")
    for f in ("field_amd64.go", "field_amd64.s", "field_mul64.go"):
        if not os.path.exists(os.path.join(d, f)):
            return None
    strip_constraints(os.path.join(d, "field_amd64.go"), os.path.join(out, "asm_go.go"))
    strip_constraints(os.path.join(d, "field_amd64.s"), os.path.join(out, "asm_s.s"))
    with open(os.path.join(out, "empty.go"), "w") as f:
        f.write("package edwards25519\n")
    ov = os.path.join(out, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(d, "field_amd64.go"): os.path.join(out, "asm_go.go"),
                               os.path.join(d, "field_amd64.s"): os.path.join(out, "asm_s.s"),
                               os.path.join(d, "field_mul64.go"): os.path.join(out, "empty.go")}}, f)
    return ov


def build(out, config, pkg):
    c = CONFIGS[config]
    exe = os.path.join(out, os.path.basename(pkg) + "-" + config)
    h = os.path.join(VERIF, "harness")
    modfile = os.path.join(out, "go.%s.mod" % config)
    mod = open(os.path.join(h, "go.mod")).read()
    with open(modfile, "w") as f:
        f.write(mod.replace("=> /repo", "=> " + REPO))
    cmd = [c.get("go", "go"), "build", "-modfile=" + modfile, "-o", exe]
    if c.get("tags"):
        cmd.append("-tags=" + ",".join(c["tags"]))
    if c.get("overlay"):
        ov = asm_overlay(out)
        if ov is None:
            raise BuildError("no assembly backend in this tree")
        cmd.append("-overlay=" + ov)
    cmd += c.get("args", []) + ["./" + pkg]
    rc, o, e = run(cmd, min(left(), 600), cwd=h, env=env(c.get("env")))
    if rc != 0:
        raise BuildError("build of %s (%s) failed: %s" % (pkg, config, (o + e)[-3000:]))
    return exe


def build_all(out, configs, pkg):
    """Builds in parallel; optional configurations that do not build are dropped."""
    exes, notes = {}, []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {c: ex.submit(build, out, c, pkg) for c in configs}
        for c, f in futs.items():
            try:
                exes[c] = f.result()
            except BuildError as e:
                if c not in OPTIONAL:
                    raise
                notes.append("configuration %s skipped: %s" % (c, str(e)[:400]))
    return exes, notes


class Verdict:
    def __init__(self, prop, out):
        self.prop, self.out = prop, out
        self.violations, self.known, self.notes = [], {}, []
        self.runs, self.samples, self.inconclusive = [], [], []
        self.evaluations = self.checks = self.distinct = 0
        self.counters = {}

    def violation(self, rec):
        self.violations.append(rec)

    def absorb(self, r, count_distinct=True):
        self.evaluations += r.get("cases") or 0
        self.checks += r.get("checks") or 0
        if count_distinct:
            self.distinct += r.get("distinct") or 0
        for k, v in (r.get("counters") or {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        per = max(2, 10 - 3 * len(self.runs))
        self.samples += ["[%s] %s" % (r["config"], s) for s in (r.get("samples") or [])[:per]]
        self.notes += ["[%s] %s" % (r["config"], n) for n in (r.get("notes") or [])]
        self.known.update(r.get("known") or {})
        if r.get("inconclusive"):
            self.inconclusive.append("[%s] %s" % (r["config"], r["inconclusive"]))
        self.runs.append(dict(config=r["config"], seed=r["seed"], cases=r.get("cases"), checks=r.get("checks"),
                              distinct=r.get("distinct"), workloads=r.get("workloads"), wall_s=round(r.get("wall_s") or 0, 2),
                              violations=r.get("n_violations") or 0))
        for v in r.get("violations") or []:
            self.violation(v)


CRASH = re.compile(r"(fatal error:|panic:|SIGSEGV|SIGBUS|SIGILL|SIGFPE|unexpected fault address|checkptr)")


LOCK = threading.Lock()


def run_monitor(v, exe, config, seed, extra=(), more_env=None, wrapper=(), count_distinct=True):
    res = os.path.join(v.out, "res-%s-%d.json" % (config, seed))
    cmd = list(wrapper) + [exe, "-prop", v.prop, "-tier", TIER, "-config", config, "-seed", str(seed), "-out", res] + list(extra)
    rc, o, e = run(cmd, left() - 10, env=env(dict(more_env or {}, GOTRACEBACK="all")), cwd=v.out)
    if rc is None:
        raise NoVerdict("%s did not finish in time" % config)
    if not os.path.exists(res):
        if rc == 2 and "oracle is broken" in e:
            raise NoVerdict(e)
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT) or CRASH.search(e):
            v.violation(dict(property=v.prop, config=config, tier=TIER, seed=seed, workload="", index=-1,
                             message="the process crashed (%s):\n%s" % (rc, e[:6000])))
            v.runs.append(dict(config=config, seed=seed, crashed=True))
            return None
        raise NoVerdict("%s ended with %s and no result: %s" % (config, rc, (o + e)[-2000:]))
    with open(res) as f:
        r = json.load(f)
    os.unlink(res)
    with LOCK:
        v.absorb(r, count_distinct)
    return r


def cfg_seed(i):
    # other inputs in every configuration
    return SEED * 64 + i


def mine(out):
    """Values that the source mentions, as seeds for the workloads."""
    os.environ.pop("VERIF_DICT", None)
    exe = os.path.join(out, "mine")
    rc, o, e = run(["go", "build", "-o", exe, "./cmd/mine"], 300, cwd=os.path.join(VERIF, "harness"), env=env({"CGO_ENABLED": "0"}))
    if rc == 0:
        rc, o, e = run([exe, REPO], 60, env=env())
    if rc != 0:
        return ["no values mined from the source: " + (o + e)[-300:]]
    p = os.path.join(out, "dict.json")
    with open(p, "w") as f:
        f.write(o)
    os.environ["VERIF_DICT"] = p
    d = json.loads(o)
    return ["workloads seeded with %d compared values, %d other literals and %d strings of the source" % (len(d["cmp"]), len(d["lit"]), len(d["strs"]))]


def check_generic(v, configs):
    exes, notes = build_all(v.out, configs, "cmd/monitor")
    v.notes += notes
    for i, c in enumerate(configs):
        if c in exes:
            run_monitor(v, exes[c], c, cfg_seed(i))
            if v.violations:
                break


def check_guided(v, configs):
    """The workloads as usual, then guided by what their choices reach in the library."""
    gs = ["guided", "guided-generic"]
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build_all, v.out, gs, "cmd/monitor")
        check_generic(v, configs)
        exes, notes = fut.result()
    if v.violations or v.inconclusive:
        return
    v.notes += notes
    secs = 12 if TIER == "quick" else 900
    n = max(2, min(8, os.cpu_count() or 2))
    jobs = [("guided" if k % 3 != 2 else "guided-generic", cfg_seed(32 + k)) for k in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(run_monitor, v, exes[c], c, s, ["-guide", "%ds" % secs], {"GOMAXPROCS": "2"}) for c, s in jobs if c in exes]
        for f in fs:
            f.result()


def check_c12(v, configs):
    exes, notes = build_all(v.out, configs, "cmd/monitor")
    v.notes += notes
    base = None
    for i, c in enumerate(configs):
        if c not in exes:
            continue
        r = run_monitor(v, exes[c], c, SEED, count_distinct=(base is None))
        if r is None or v.violations:
            return
        if base is None:
            base = (c, r["transcript"])
            v.counters["cases compared"] = 0
            continue
        if len(r["transcript"]) != len(base[1]):
            raise NoVerdict("transcripts of different length")
        bad = [k for k in range(len(base[1])) if base[1][k] != r["transcript"][k]]
        v.counters["cases compared"] += len(base[1])
        v.runs[-1]["compared_with"] = base[0]
        v.runs[-1]["digests_equal"] = len(base[1]) - len(bad)
        for k in bad[:3]:
            rec = dict(property="C12", config=c, against=base[0], tier=TIER, seed=SEED, workload="api", index=k)
            rec["message"] = c12_explain(v, exes, rec)
            v.violation(rec)
        if bad:
            return


def c12_explain(v, exes, rec):
    """Replays one case in both builds and names the calls that differ."""
    f = os.path.join(v.out, "c12-replay.json")
    with open(f, "w") as h:
        json.dump(rec, h)
    outs = []
    for c in (rec["against"], rec["config"]):
        res = os.path.join(v.out, "c12-%s.json" % c)
        run([exes[c], "-replay", f, "-out", res], 120, env=env())
        try:
            with open(res) as h:
                outs.append(json.load(h)["transcript"] or [])
        except OSError:
            outs.append([])
    lines = []
    for a, b in zip(*outs):
        if a != b:
            lines.append("  %s: %s\n  %s: %s" % (rec["against"], a[:700], rec["config"], b[:700]))
    return "case %d gives different results in the builds %s and %s:\n%s" % (
        rec["index"], rec["against"], rec["config"], "\n".join(lines[:6]))


def check_c15(v, configs):
    exes, _ = build_all(v.out, configs, "cmd/monitor")
    n = {"race": 4, "race-generic": 2, "default": 1} if TIER == "quick" else {"race": 16, "race-generic": 8, "default": 4, "generic": 2}
    races = [0]

    def one(job):
        i, c, k = job
        if v.violations:
            return
        log = os.path.join(v.out, "race-%s-%d" % (c, k))
        seed = cfg_seed(i * 20 + k)
        run_monitor(v, exes[c], c, seed, more_env={"GORACE": "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=" + log})
        reports = ""
        for f in sorted(os.listdir(v.out)):
            if f.startswith(os.path.basename(log) + "."):
                with open(os.path.join(v.out, f), errors="replace") as h:
                    reports += h.read()
        m = reports.count("WARNING: DATA RACE")
        with LOCK:
            races[0] += m
            if m:
                v.violation(dict(property="C15", config=c, tier=TIER, seed=seed, workload="shared", index=-1,
                                 message="%d data races; the first:\n%s" % (m, reports[:5000])))

    # two processes at a time: each has stretches in which it is sequential
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(one, (i, c, k)) for i, c in enumerate(configs) for k in range(n[c])]:
            f.result()
    v.counters["data races"] = races[0]
    v.counters["processes (cold starts)"] = sum(n[c] for c in configs)


def ct_run(v, exe, config, seed, rounds, op=None):
    log = os.path.join(v.out, "vg-%s-%s.log" % (config, (op or "all").replace("/", "_")))
    cmd = ["valgrind", "--log-file=" + log, "--error-limit=no", "--num-callers=30", exe, "-seed", str(seed), "-rounds", str(rounds)]
    if op:
        cmd += ["-op", op]
    rc, o, e = run(cmd, left() - 10, env=env({"GOMAXPROCS": "1", "GODEBUG": "asyncpreemptoff=1", "GOGC": "off"}))
    if rc is None:
        raise NoVerdict("valgrind did not finish in time")
    ops = {}
    for l in o.splitlines():
        try:
            r = json.loads(l)
            ops[r["op"]] = r
        except ValueError:
            pass
    if rc != 0 or not ops:
        if CRASH.search(e):
            v.violation(dict(property="C16", config=config, tier=TIER, seed=seed, workload="ct", index=-1,
                             message="the process crashed: " + e[:4000]))
            return ops, ""
        raise NoVerdict("valgrind run (%s) ended with %s: %s" % (config, rc, (o + e)[-1500:]))
    with open(log, errors="replace") as f:
        return ops, f.read()


def ct_report(log, op):
    """The first report of valgrind inside the operation."""
    out, inside = [], False
    for l in log.splitlines():
        if "OP " in l and not l.startswith("=="):
            inside = (" " + op + " ") in (l + " ")
        elif "**" in l and "OP " in l:
            inside = (" " + op + " ") in (l + " ")
        if inside:
            out.append(l)
            if len(out) > 45:
                break
    return "\n".join(out)


def ct_only_outcome(log, op):
    """For operations that may reveal their outcome: are all reports inside it conditional jumps in the
    library's own code, as in 'if x == 1 { return true }'? Whether these decide more than the outcome is for
    the counters to judge, which see every block of the library. A jump in the standard library (a comparison
    that stops early) or an address is never needed to report an outcome, and counters do not see it."""
    inside, n, take = False, 0, False
    for l in log.splitlines():
        if "OP " in l and ("**" in l or not l.startswith("==")):
            inside = (" " + op + " ") in (l + " ")
            continue
        if not inside:
            continue
        if "Use of uninitialised value" in l:
            return False
        if "Conditional jump or move" in l:
            n, take = n + 1, True
        elif take and re.search(r"\bat 0x", l):
            take = False
            f = l.split(": ", 1)[-1]
            if not re.search(r"go-ristretto|^main\.ops\.", f):
                return False
    return n > 0


def check_c16(v, configs):
    if not shutil.which("valgrind"):
        raise NoVerdict("no valgrind")
    exes, notes = build_all(v.out, configs, "cmd/ct")
    v.notes += notes
    rounds = 4 if TIER == "quick" else 80
    taint = [c for c in configs if c in exes and not c.startswith("cover")]
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        futs = {c: ex.submit(ct_run, v, exes[c], c, cfg_seed(configs.index(c)), rounds) for c in taint}
        results = {c: f.result() for c, f in futs.items()}
    if v.violations:
        return
    for c in taint:
        seed = cfg_seed(configs.index(c))
        ops, log = results[c]
        ctl = [o for n, o in ops.items() if n.startswith("control:")]
        real = {n: o for n, o in ops.items() if not n.startswith("control:")}
        if len(ctl) < 2 or any(o["errors"] == 0 for o in ctl):
            raise NoVerdict("the instrument does not see the leaks of the control operations: %s" % ctl)
        for n, o in sorted(real.items()):
            v.evaluations += o["runs"]
            v.checks += o["runs"]
            if o.get("panic"):
                v.violation(dict(property="C16", config=c, tier=TIER, seed=seed, workload=n, index=-1,
                                 message="%s panics: %s" % (n, o["panic"])))
            elif o["errors"]:
                again, log2 = ct_run(v, exes[c], c, seed, rounds, n)
                o2 = again.get(n, {})
                if o2.get("errors") and o.get("outcome") and ct_only_outcome(log2, n):
                    v.distinct += o["runs"]
                    v.notes.append("[%s] %s branches on its result only" % (c, n))
                elif o2.get("errors"):
                    v.violation(dict(property="C16", config=c, tier=TIER, seed=seed, workload=n, index=-1,
                                     message="%s: %d decisions or addresses depend on secret bits (%s)\n%s" % (
                                         n, o["errors"], o.get("sample"), ct_report(log2, n)[:5000])))
                else:
                    v.notes.append("[%s] %s: %d reports that did not come back" % (c, n, o["errors"]))
                    v.inconclusive.append("[%s] %s: reports that did not come back" % (c, n))
            elif o["tainted_output_bits"] <= 0:
                v.inconclusive.append("[%s] %s: the secrets never reached the result" % (c, n))
            else:
                v.distinct += o["runs"]
                v.counters["tainted result bits"] = v.counters.get("tainted result bits", 0) + o["tainted_output_bits"]
        v.counters["operations [%s]" % c] = len(real)
        v.counters["control reports [%s]" % c] = sum(o["errors"] for o in ctl)
        v.samples += ["[%s] %s: %d runs, %d reports, %d tainted result bits; %s" % (
            c, n, o["runs"], o["errors"], o["tainted_output_bits"], o.get("sample", "")) for n, o in sorted(real.items())[:4]]
        v.runs.append(dict(config=c, seed=seed, operations=len(real), rounds=rounds, wall_s=round(time.time() - t, 2)))
        if len(v.violations) >= 12:
            return
    for c in configs:
        if c.startswith("cover"):
            ct_cover(v, exes[c], c, cfg_seed(configs.index(c)), 60 if TIER == "quick" else 3000)


def ct_cover(v, exe, c, seed, rounds):
    """Same operation, other secrets: every block of the library has to be entered as often as before."""
    t = time.time()
    d = os.path.join(v.out, "dirs-" + c)
    os.makedirs(os.path.join(d, "end"))
    rc, o, e = run([exe, "-seed", str(seed), "-rounds", str(rounds), "-dir", d], left() - 10,
                   env=env({"GOMAXPROCS": "1", "GOGC": "off", "GOMEMLIMIT": "2GiB", "GODEBUG": "asyncpreemptoff=1", "GOCOVERDIR": os.path.join(d, "end")}))
    if rc is None:
        raise NoVerdict("%s did not finish in time" % c)
    ops = {}
    for l in o.splitlines():
        try:
            r = json.loads(l)
            ops[r["op"]] = r
        except ValueError:
            pass
    if rc != 0 or not ops:
        if CRASH.search(e):
            v.violation(dict(property="C16", config=c, tier=TIER, seed=seed, workload="ct", index=-1,
                             message="the process crashed: " + e[:4000]))
            return
        raise NoVerdict("%s ended with %s: %s" % (c, rc, (o + e)[-1500:]))
    if not ops.get("control:branch", {}).get("errors"):
        raise NoVerdict("the counters do not see the branch of the control operation")
    n = 0
    for name, r in sorted(ops.items()):
        if name.startswith("control:"):
            continue
        n += 1
        v.evaluations += r["runs"]
        v.checks += r["runs"] - r["classes"]
        v.distinct += r["runs"]
        if r.get("panic"):
            v.violation(dict(property="C16", config=c, tier=TIER, seed=seed, workload=name, index=-1,
                             message="%s panics: %s" % (name, r["panic"])))
        elif r["errors"]:
            lines = []
            for k in r.get("dirs") or []:
                f = os.path.join(k, "text")
                run(["go", "tool", "covdata", "textfmt", "-i=" + k, "-o=" + f], 60, env=env())
                try:
                    lines.append(set(open(f).read().split("\n")))
                except OSError:
                    pass
            diff = "\n".join("  " + x for x in sorted(lines[0] ^ lines[1])[:12]) if len(lines) == 2 else ""
            v.violation(dict(property="C16", config=c, tier=TIER, seed=seed, workload=name, index=-1,
                             message="%s enters other blocks for other secrets (%d of %d runs): %s\n%s" % (
                                 name, r["errors"], r["runs"], r.get("sample"), diff)))
    v.counters["operations [%s]" % c] = n
    v.counters["control differences [%s]" % c] = ops["control:branch"]["errors"]
    v.runs.append(dict(config=c, seed=seed, operations=n, rounds=rounds, wall_s=round(time.time() - t, 2)))


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=shift", "-O1"],
    "msan": ["-fsanitize=memory", "-O1"],
    "msan-O0": ["-fsanitize=memory", "-O0"],  # an optimiser may settle an undefined value before MSan sees it
    "asan-O3": ["-fsanitize=address,undefined", "-fno-sanitize=shift", "-O3"],
}


def check_c19(v, configs):
    def cc(name):
        exe = os.path.join(v.out, "driver-" + name)
        rc, o, e = run(["clang", "-g", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all", "-w"] + SAN[name] +
                       ["-I" + os.path.join(REPO, "cref"), "-o", exe, os.path.join(VERIF, "cdriver", "driver.c"),
                        os.path.join(REPO, "cref", "cref.c")], 300)
        if rc != 0:
            raise BuildError("driver (%s): %s" % (name, (o + e)[-3000:]))
        return name + "=" + exe
    names = ["asan", "msan", "msan-O0"] if TIER == "quick" else list(SAN)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(cc, n) for n in names]
        exe = build(v.out, "default", "cmd/crefmon")
        drivers = ",".join(f.result() for f in fs)
    run_monitor(v, exe, "default", cfg_seed(0), extra=["-drivers", drivers])


def check_c21(v, configs):
    if not shutil.which("valgrind"):
        raise NoVerdict("no valgrind")
    rounds = 12 if TIER == "quick" else 600

    def one(i, opt):
        exe = os.path.join(v.out, "ct" + opt)
        rc, o, e = run(["gcc", opt, "-g", "-w", "-I" + os.path.join(REPO, "cref"), "-o", exe, os.path.join(VERIF, "cdriver", "ct.c"),
                        os.path.join(REPO, "cref", "cref.c")], 300)
        if rc != 0:
            raise BuildError("driver (%s): %s" % (opt, (o + e)[-3000:]))

        def taint(op):
            log = os.path.join(v.out, "vg%s-%s.log" % (opt, op.replace(":", "-")))
            rc, o, e = run(["valgrind", "--log-file=" + log, "--error-limit=no", "--num-callers=20", exe, str(cfg_seed(i)), str(rounds)] +
                           ([op] if op else []), left() - 10)
            ops = {}
            for l in o.splitlines():
                try:
                    r = json.loads(l)
                    ops[r["op"]] = r
                except ValueError:
                    pass
            if rc != 0 or not ops:
                raise NoVerdict("valgrind run (gcc %s) ended with %s: %s" % (opt, rc, (o + e)[-1500:]))
            with open(log, errors="replace") as f:
                return ops, f.read()
        ops, _ = taint("")
        return exe, ops, taint

    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        results = list(ex.map(one, range(len(configs)), configs))
    for i, (opt, (exe, ops, taint)) in enumerate(zip(configs, results)):
        ctl = [o for n, o in ops.items() if n.startswith("control:")]
        real = {n: o for n, o in ops.items() if not n.startswith("control:")}
        if len(ctl) < 2 or any(o["errors"] == 0 for o in ctl):
            raise NoVerdict("the instrument does not see the leaks of the control operations: %s" % ctl)
        for n, o in sorted(real.items()):
            v.evaluations += o["runs"]
            v.checks += o["runs"]
            if o["errors"]:
                again, log = taint(n)
                if again.get(n, {}).get("errors"):
                    v.violation(dict(property="C21", config="gcc" + opt, tier=TIER, seed=cfg_seed(i), workload=n, index=-1,
                                     message="%s: %d decisions or addresses depend on secret bits\n%s" % (n, o["errors"], ct_report(log, n)[:5000])))
                else:
                    v.inconclusive.append("[gcc %s] %s: reports that did not come back" % (opt, n))
            elif o["tainted_output_bits"] <= 0:
                v.inconclusive.append("[gcc %s] %s: the secrets never reached the result" % (opt, n))
            else:
                v.distinct += o["runs"]
                v.counters["tainted result bits"] = v.counters.get("tainted result bits", 0) + o["tainted_output_bits"]
        v.counters["operations [gcc %s]" % opt] = len(real)
        v.counters["control reports [gcc %s]" % opt] = sum(o["errors"] for o in ctl)
        v.samples += ["[gcc %s] %s: %d runs, %d reports, %d tainted result bits" % (opt, n, o["runs"], o["errors"], o["tainted_output_bits"])
                      for n, o in sorted(real.items())]
        v.runs.append(dict(config="gcc " + opt, seed=cfg_seed(i), operations=len(real), rounds=rounds, wall_s=round(time.time() - t, 2)))


def check_c23(v, configs):
    """cref called in other orders and on several threads, against what each call gives in a process of its own."""
    def cc(name):
        exe = os.path.join(v.out, "conc-" + name)
        cmd = {"plain": ["gcc", "-O2"], "tsan": ["clang", "-fsanitize=thread", "-O1"], "tsan-O0": ["clang", "-fsanitize=thread", "-O0"]}[name]
        rc, o, e = run(cmd + ["-g", "-w", "-I" + os.path.join(REPO, "cref"), "-o", exe, os.path.join(VERIF, "cdriver", "conc.c"),
                              os.path.join(REPO, "cref", "cref.c"), "-lpthread"], 300)
        if rc != 0:
            raise BuildError("driver (%s): %s" % (name, (o + e)[-3000:]))
        return exe
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {n: ex.submit(cc, n) for n in ("plain", "tsan", "tsan-O0")}
        race = build(v.out, "race", "cmd/crefmon")
        exes = {n: f.result() for n, f in fs.items()}
    names = run([exes["plain"], "names"], 60)[1].split()
    if len(names) < 50:
        raise NoVerdict("the driver lists no operations")
    thorough = TIER == "thorough"

    def fail(mode, workload, seed, message):
        with LOCK:
            v.violation(dict(property="C23", config=mode, tier=TIER, seed=seed, workload=workload, index=-1, message=message))

    def reports(log):
        s = ""
        for f in sorted(os.listdir(v.out)):
            if f.startswith(os.path.basename(log) + "."):
                with open(os.path.join(v.out, f), errors="replace") as h:
                    s += h.read()
        return s

    def go(build_, mode, seed, *args, timeout=150, must=None):
        """One process of the driver; returns its records by operation."""
        log = os.path.join(v.out, "-".join([build_, mode, str(seed)] + [str(a) for a in args[1:]]))
        rc, o, e = run([exes[build_], mode] + [str(a) for a in args], min(timeout, left() - 10), cwd=v.out,
                       env=env({"TSAN_OPTIONS": "exitcode=0 halt_on_error=0 history_size=4 log_path=" + log}))
        what = build_ + "-" + mode
        if rc is None and left() > 20:
            fail(what, mode, seed, "the calls do not come back (%s, %d s)" % (" ".join(str(a) for a in args[1:]), timeout))
            return {}
        if rc == 3 or rc is None:
            raise NoVerdict("driver (%s): %s %s" % (what, rc, (o + e)[-1500:]))
        recs, stray = {}, []
        for l in o.splitlines():
            try:
                r = json.loads(l)
                recs.setdefault(r["op"], r)
                if r["bad"]:
                    recs[r["op"]] = r
            except (ValueError, KeyError, TypeError):
                stray.append(l)
        if "FATAL: ThreadSanitizer" in e:
            raise NoVerdict("ThreadSanitizer does not run here: " + e[-1500:])
        if rc != 0:
            fail(what, mode, seed, "the process died (%s): %s" % (rc, (e + reports(log))[:4000]))
        if stray or (e.strip() and not build_.startswith("tsan")):
            fail(what, mode, seed, "the library prints: %s" % ("\n".join(stray[:5]) + e[:2000]))
        for n, r in sorted(recs.items()):
            if r["bad"] and n == "operands":
                fail(what, n, seed, "operands that are only read were modified")
            elif r["bad"]:
                fail(what, n, seed, "%s on set %d gives %s (%d of %d calls), and %s in a process that makes the calls one after the other" % (
                    n, r["set"], r["got"], r["bad"], r["runs"], r["alone"]))
            elif mode == "history" and r.get("grew") and min(r["grew"]) > 0:
                fail(what, n, seed, "%s: memory in use grows and grows: by %s bytes" % (n, r["grew"]))
        rep = reports(log)
        m = rep.count("WARNING: ThreadSanitizer")
        with LOCK:
            v.evaluations += sum(r["runs"] for r in recs.values())
            v.checks += sum(r["runs"] for r in recs.values())
            k = "calls [%s]" % what
            v.counters[k] = v.counters.get(k, 0) + sum(r["runs"] for r in recs.values())
            if mode == "threads":
                v.counters["overlapping pairs of threads [%s]" % what] = v.counters.get("overlapping pairs of threads [%s]" % what, 0) + \
                    sum(r["overlaps"] for r in recs.values())
                v.samples += ["[%s] %s: %d calls, %d pairs of threads in it at once" % (what, n, r["runs"], r["overlaps"]) for n, r in sorted(recs.items())][::9]
            if m and mode == "control":
                v.counters["control races"] = v.counters.get("control races", 0) + m
            elif m:
                v.violation(dict(property="C23", config=what, tier=TIER, seed=seed, workload="threads", index=-1,
                                 message="%d data races; the first:\n%s" % (m, rep[:5000])))
        return recs

    t = time.time()
    for b in ("tsan", "tsan-O0"):
        go(b, "control", 0)
    if v.counters.get("control races", 0) < 2:
        raise NoVerdict("ThreadSanitizer does not see the race of the control")
    rounds = 3 if not thorough else 60
    nsets = 64
    for i in range(rounds):
        seed = cfg_seed(i)
        ops = os.path.join(v.out, "sets-%d" % i)
        rc, o, e = run([exes["plain"], "prepare", ops, str(seed), str(nsets)], 100)
        if rc != 0 or not os.path.exists(ops):
            if rc is None or rc == 3:
                raise NoVerdict("driver (prepare): %s" % (o + e)[-1500:])
            fail("plain-prepare", "prepare", seed, "the process died (%s): %s" % (rc, (o + e)[-3000:]))
        if v.violations:
            return
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(go, "plain", "cold", seed, ops, n) for n in names]
            fs += [ex.submit(go, b, "first", seed, ops, seed, 4, n) for n in names for b in ("tsan", "tsan-O0")]
            fs += [ex.submit(go, "plain", "history", seed, ops, seed, 200 if not thorough else 1500, n) for n in names]
            seen = set()
            for f in fs:
                seen |= set(f.result())
        if set(names) - seen and not v.violations:
            raise NoVerdict("operations without a record: %s" % sorted(set(names) - seen))
        # one at a time: these have threads of their own
        for b, th, ms in (("tsan", 8, 30), ("tsan-O0", 4, 30), ("plain", 8, 20)):
            r = go(b, "threads", seed, ops, seed, th, ms)
            if not v.violations and set(names) - set(r):
                raise NoVerdict("operations without a record: %s" % sorted(set(names) - set(r)))
        os.unlink(ops)
        v.distinct += len(names) * nsets
        if v.violations:
            return
    if v.counters.get("overlapping pairs of threads [tsan-threads]", 0) < len(names):
        raise NoVerdict("the threads did not overlap")
    v.runs.append(dict(config="cref gcc -O2, clang TSan -O1 and -O0", seed=SEED, operations=len(names), rounds=rounds, wall_s=round(time.time() - t, 2)))
    log = os.path.join(v.out, "gorace")
    run_monitor(v, race, "race", cfg_seed(0), more_env={"GORACE": "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=" + log})
    rep = reports(log)
    if "WARNING: DATA RACE" in rep:
        fail("race", "concurrent bindings", cfg_seed(0), "data races in the bindings; the first:\n" + rep[:5000])


GUIDED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C18", "C20", "C24"]
SPECIAL = {"C12": check_c12, "C15": check_c15, "C16": check_c16, "C19": check_c19, "C21": check_c21, "C23": check_c23}
SPECIAL.update({p: check_guided for p in GUIDED})


def known_keys(prop):
    keys = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    keys[m.group(2)] = m.group(3)
    except OSError:
        pass
    return keys


def evidence(v, rc):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=v.prop, tier=TIER, seed=SEED, level="exploration",
              coverage=dict(evaluations=v.evaluations, distinct_nontrivial=v.distinct, rule=RULES[v.prop], samples=v.samples[:24],
                            oracle_checks=v.checks, configurations=v.runs, observed=dict(sorted(v.counters.items())), notes=v.notes),
              assumptions=ASSUME, wall_s=round(time.time() - T0, 2), violations=len(v.violations))
    if v.known:
        ev["coverage"]["known_findings"] = v.known
    if rc == 2:
        ev["coverage"]["inconclusive"] = v.inconclusive
    p = os.path.join(VERIF, "evidence", v.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def decide(prop):
    out = os.path.join(VERIF, "out", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    v = Verdict(prop, out)
    configs = (QUICK if TIER == "quick" else THOROUGH)[prop]
    rc = 0
    try:
        v.notes += mine(out)
        SPECIAL.get(prop, check_generic)(v, configs)
    except NoVerdict as e:
        v.inconclusive.append(str(e))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    listed = known_keys(prop)
    for k, msg in sorted(v.known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
        else:
            v.violation(dict(property=prop, config="default", tier=TIER, seed=SEED, workload=k, index=-1, message=msg))
    if v.violations:
        rc = 1
        d = os.path.join(VERIF, "replays", prop)
        os.makedirs(d, exist_ok=True)
        first = None
        for i, rec in enumerate(v.violations[:12]):
            p = os.path.join(d, "%s-seed%d-%d.json" % (rec.get("config", "x"), rec.get("seed", SEED), i))
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            first = first or p
            if i < 3:
                print("%s [%s] %s#%s: %s" % (prop, rec.get("config"), rec.get("workload"), rec.get("index"), rec["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, first))
    elif v.inconclusive:
        rc = 2
        for m in v.inconclusive:
            print("NO VERDICT %s: %s" % (prop, m))
    else:
        print("%s held: %d executions, %d oracle checks, %d distinct non-trivial cases in %s; %.1f s" % (
            prop, v.evaluations, v.checks, v.distinct, ", ".join(sorted({r["config"] for r in v.runs})), time.time() - T0))
    evidence(v, rc)
    return rc


def replay(prop, path):
    """Runs the recorded case again."""
    with open(path) as f:
        rec = json.load(f)
    out = os.path.join(VERIF, "out", "replay-%d" % os.getpid())
    os.makedirs(out)
    try:
        global TIER
        TIER = rec["tier"]
        v = Verdict(prop, out)
        mine(out)
        if prop == "C12":
            exes, _ = build_all(out, [rec["against"], rec["config"]], "cmd/monitor")
            m = c12_explain(v, exes, rec)
            print(m)
            return 1 if "\n  " in m else 0
        if prop in ("C15", "C16", "C19", "C21", "C23") or rec.get("index", -1) < 0:
            global SEED
            SEED = rec["seed"] // 64
            print("replaying the whole run with seed %d" % SEED)
            return decide(prop)
        if rec["config"].startswith("guided"):  # found under guidance: the recorded choices will do
            rec["config"] = "generic" if rec["config"].endswith("generic") else "default"
        exes, _ = build_all(out, [rec["config"]], "cmd/monitor")
        r = run_monitor(v, exes[rec["config"]], rec["config"], rec["seed"], extra=["-replay", os.path.abspath(path)])
        for x in v.violations:
            print(x["message"])
        print("REPRODUCED" if v.violations else "not reproduced: %s" % (r and r.get("cases")))
        return 1 if v.violations else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in RULES:
        print("usage: check.py ID [--replay FILE]; ids: " + " ".join(sorted(RULES)))
        return 2
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        return replay(sys.argv[1], sys.argv[3])
    return decide(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
