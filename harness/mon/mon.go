// Package mon is the runtime of the monitors: it drives deterministic
// workloads over several workers, collects what was observed, and turns
// oracle failures into replayable violations.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rng is splitmix64: every case owns one, seeded by (seed, property,
// workload, index), so that any case can be replayed alone.
type Rng struct {
	s    uint64
	tape *Tape
}

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	if r.tape != nil {
		return r.onTape(r.mix)
	}
	return r.mix()
}

func (r *Rng) mix() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }
func (r *Rng) Bool() bool     { return r.U64()&1 == 1 }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}
func (r *Rng) Arr32() (a [32]byte) { copy(a[:], r.Bytes(32)); return }
func (r *Rng) Arr64() (a [64]byte) { copy(a[:], r.Bytes(64)); return }

type Violation struct {
	Property string `json:"property"`
	Config   string `json:"config"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Workload string `json:"workload"`
	Index    int    `json:"index"`
	Message  string `json:"message"`
	// the random choices of a case that guided search found
	Tape []uint64 `json:"tape,omitempty"`
}

type Result struct {
	Property   string            `json:"property"`
	Config     string            `json:"config"`
	Tier       string            `json:"tier"`
	Seed       uint64            `json:"seed"`
	Cases      int64             `json:"cases"`
	Checks     int64             `json:"checks"`
	Distinct   int64             `json:"distinct"`
	Counters   map[string]int64  `json:"counters"`
	Workloads  map[string]int64  `json:"workloads"`
	Samples    []string          `json:"samples"`
	Notes      []string          `json:"notes"`
	Violations []Violation       `json:"violations"`
	NViol      int64             `json:"n_violations"`
	Known      map[string]string `json:"known,omitempty"`
	Inconcl    string            `json:"inconclusive"`
	Transcript []string          `json:"transcript,omitempty"`
	Wall       float64           `json:"wall_s"`
}

type Ctx struct {
	Prop, Config, Tier string
	Seed               uint64
	Only               string // replay: workload
	OnlyIdx            int
	mu                 sync.Mutex
	res                Result
	seen               map[uint64]struct{}
	start              time.Time
	nviol, ncases      atomic.Int64
	guide              *guide
	tapeNow            *Tape
	Tape               []uint64 // replay
}

func New(prop, config, tier string, seed uint64) *Ctx {
	c := &Ctx{Prop: prop, Config: config, Tier: tier, Seed: seed, OnlyIdx: -1}
	c.res = Result{Property: prop, Config: config, Tier: tier, Seed: seed,
		Counters: map[string]int64{}, Workloads: map[string]int64{}}
	c.seen = map[uint64]struct{}{}
	c.start = time.Now()
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	if f := Scale[c.Prop]; f > 1 && quick >= 1000 {
		quick *= f
	}
	if Divide > 1 && quick > 100 {
		return quick/Divide + 1
	}
	return quick
}

// Scale lengthens the quick workloads of properties that are cheap to watch.
var Scale = map[string]int{"C01": 5, "C02": 4, "C03": 3, "C04": 3, "C05": 4, "C06": 2, "C07": 4, "C08": 3, "C09": 4,
	"C10": 5, "C13": 3, "C19": 3, "C20": 3}

// Divide shortens quick workloads; for development only.
var Divide = 1

func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	c.res.Notes = append(c.res.Notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Ctx) Inconclusive(f string, a ...any) {
	c.mu.Lock()
	if c.res.Inconcl == "" {
		c.res.Inconcl = fmt.Sprintf(f, a...)
	}
	c.mu.Unlock()
}

func (c *Ctx) Transcript(s string) {
	c.mu.Lock()
	c.res.Transcript = append(c.res.Transcript, s)
	c.mu.Unlock()
}

// T is the state of one worker while it executes one case.
type T struct {
	Rng
	c        *Ctx
	Workload string
	Index    int
	counters map[string]int64
	seen     map[uint64]struct{}
	samples  []string
	checks   int64
	trail    []string
	failed   bool
	context  func() string
	tape     *Tape
	seedNow  uint64
}

// Context sets a function that describes the case if it fails.
func (t *T) Context(f func() string) { t.context = f }

func (t *T) Thorough() bool { return t.c.Thorough() }
func (t *T) Config() string { return t.c.Config }

// Count records that an event of the given category was observed.
func (t *T) Count(cat string)           { t.counters[cat]++ }
func (t *T) CountN(cat string, n int64) { t.counters[cat] += n }

// Check counts one oracle evaluation.
func (t *T) Check() { t.checks++ }

// Checks records n of them.
func (t *T) Checks(n int64) { t.checks += n }

// Seen records a distinct non-trivial case by its content.
func (t *T) Seen(parts ...any) {
	if len(t.seen) >= 400000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(t.Workload))
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	t.seen[h.Sum64()] = struct{}{}
}

func (t *T) Sample(f string, a ...any) {
	if t.Index < 2 && len(t.samples) < 60 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		t.samples = append(t.samples, t.Workload+"#"+fmt.Sprint(t.Index)+": "+s)
	}
}

// Trail adds context that is printed if the case fails.
func (t *T) Trail(f string, a ...any) { t.trail = append(t.trail, fmt.Sprintf(f, a...)) }

// Fail reports a violation of the property.
func (t *T) Fail(f string, a ...any) {
	t.failed = true
	msg := fmt.Sprintf(f, a...)
	if len(t.trail) > 0 {
		msg += "\n  context: " + strings.Join(t.trail, "\n           ")
	}
	if t.context != nil {
		msg += "\n  " + t.context()
	}
	t.c.violation(t.Workload, t.Index, msg)
}

func (t *T) Failed() bool { return t.failed }

// Assert is Fail unless ok; it counts one check.
func (t *T) Assert(ok bool, f string, a ...any) bool {
	t.checks++
	if !ok {
		t.Fail(f, a...)
	}
	return ok
}

func (c *Ctx) violation(w string, i int, msg string) {
	c.nviol.Add(1)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.NViol++
	if len(c.res.Violations) < 12 {
		v := Violation{
			Property: c.Prop, Config: c.Config, Tier: c.Tier, Seed: c.Seed,
			Workload: w, Index: i, Message: msg}
		if c.tapeNow != nil {
			v.Tape = append(v.Tape, c.tapeNow.w...)
		}
		c.res.Violations = append(c.res.Violations, v)
	}
}

// Violate reports a violation outside of a case.
func (c *Ctx) Violate(w string, f string, a ...any) { c.violation(w, -1, fmt.Sprintf(f, a...)) }

func caseSeed(seed uint64, prop, w string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, w, i)
	return h.Sum64()
}

func newT(c *Ctx, name string) *T {
	return &T{c: c, Workload: name, counters: map[string]int64{}, seen: map[uint64]struct{}{}}
}

func (t *T) one(f func(*T), i int) {
	t.Index = i
	t.Rng = *NewRng(caseSeed(t.c.Seed, t.c.Prop, t.Workload, i))
	if t.tape != nil { // i is the number of cases: the tape picks one
		t.Rng = Rng{s: t.seedNow, tape: t.tape}
		t.Index = t.Intn(i)
	}
	t.trail = t.trail[:0]
	t.failed = false
	t.context = nil
	defer func() {
		if e := recover(); e != nil {
			st := debug.Stack()
			if ownFault(string(st)) {
				t.c.Inconclusive("the generator or model panicked in %s#%d: %v\n%s", t.Workload, i, e, trimStack(st))
				return
			}
			t.Fail("panic: %v\n%s", e, trimStack(st))
		}
	}()
	f(t)
}

// ownFault says whether the innermost frame that is not of the standard
// library belongs to the generators, the model or this package.
func ownFault(st string) bool {
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		st = st[i+1:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/bwesterb/") || strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif.local/harness/cmd/") || strings.HasPrefix(l, "verif.local/harness/sut") {
			return false
		}
		if strings.HasPrefix(l, "verif.local/harness/") {
			return true
		}
	}
	return false
}

func trimStack(s []byte) string {
	l := strings.Split(string(s), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// HangLimit is how long a single case may take before the run is declared
// to be stuck: cases normally take milliseconds.
var HangLimit = 150 * time.Second

// Run executes cases 0..n-1 of a workload on all cores.
func (c *Ctx) Run(name string, n int, f func(*T)) { c.run(name, n, runtime.NumCPU(), f) }

// RunSeq executes them on one goroutine.
func (c *Ctx) RunSeq(name string, n int, f func(*T)) { c.run(name, n, 1, f) }

func (c *Ctx) run(name string, n, workers int, f func(*T)) {
	if c.Only != "" && c.Only != name {
		return
	}
	if c.guide != nil {
		c.runGuided(name, n, f)
		return
	}
	if len(c.Tape) > 0 {
		t := newT(c, name)
		t.tape = &Tape{w: c.Tape}
		t.one(f, n)
		c.ncases.Add(1)
		return
	}
	lo, hi := 0, n
	if c.Only != "" && c.OnlyIdx >= 0 {
		lo, hi = c.OnlyIdx, c.OnlyIdx+1
	}
	if workers > hi-lo {
		workers = hi - lo
	}
	next := int64(lo)
	var wg sync.WaitGroup
	ts := make([]*T, workers)
	busy := make([]int64, workers) // unix nanos of the start of the case
	cur := make([]int64, workers)
	done := make(chan struct{})
	for w := range ts {
		ts[w] = newT(c, name)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= hi || c.nviol.Load() >= 12 {
					atomic.StoreInt64(&busy[w], 0)
					return
				}
				atomic.StoreInt64(&cur[w], int64(i))
				atomic.StoreInt64(&busy[w], time.Now().UnixNano())
				ts[w].one(f, i)
				c.ncases.Add(1)
			}
		}(w)
	}
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			for w := range busy {
				b := atomic.LoadInt64(&busy[w])
				if b != 0 && time.Since(time.Unix(0, b)) > HangLimit {
					c.violation(name, int(atomic.LoadInt64(&cur[w])),
						fmt.Sprintf("the operation does not terminate: case still running after %v", HangLimit))
					c.res.Workloads[name] = int64(hi - lo)
					c.Finish(outPath)
					os.Exit(0)
				}
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range ts {
		for k, v := range t.counters {
			c.res.Counters[k] += v
		}
		for h := range t.seen {
			if len(c.seen) < 4000000 {
				c.seen[h] = struct{}{}
			}
		}
		if len(c.res.Samples) < 40 {
			c.res.Samples = append(c.res.Samples, t.samples...)
		}
		c.res.Checks += t.checks
	}
	c.res.Workloads[name] += int64(hi - lo)
}

// Require makes the run inconclusive if a category was never observed.
func (c *Ctx) Require(cats ...string) {
	if c.Only != "" || c.nviol.Load() > 0 || c.guide != nil {
		return
	}
	c.mu.Lock()
	var miss []string
	for _, k := range cats {
		if c.res.Counters[k] == 0 {
			miss = append(miss, k)
		}
	}
	c.mu.Unlock()
	if len(miss) > 0 {
		sort.Strings(miss)
		c.Inconclusive("never observed: %s", strings.Join(miss, ", "))
	}
}

// Counter returns the merged count of a category so far.
func (c *Ctx) Counter(k string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.Counters[k]
}

var outPath string

func SetOut(p string) { outPath = p }

func (c *Ctx) Finish(out string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Cases = c.ncases.Load()
	c.res.Distinct = int64(len(c.seen))
	c.res.Wall = time.Since(c.start).Seconds()
	if len(c.res.Samples) > 40 {
		c.res.Samples = c.res.Samples[:40]
	}
	b, err := json.MarshalIndent(&c.res, "", " ")
	if err != nil {
		panic(err)
	}
	if out == "" || out == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(out+".tmp", out); err != nil {
		panic(err)
	}
}

// ClearTrail forgets the context collected so far.
func (t *T) ClearTrail() { t.trail = t.trail[:0] }

// Known reports a deviation that the known-findings file may list under this
// key; the driver turns it into a violation if the file does not.
func (t *T) Known(key, f string, a ...any) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if t.c.res.Known == nil {
		t.c.res.Known = map[string]string{}
	}
	t.c.res.Known[key] = fmt.Sprintf(f, a...)
}

// FoldCounters replaces the counters with a prefix by how many there were.
func (c *Ctx) FoldCounters(prefix, name string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := int64(0)
	for k := range c.res.Counters {
		if strings.HasPrefix(k, prefix) {
			n++
			delete(c.res.Counters, k)
		}
	}
	c.res.Counters[name] = n
}

// CtxInconclusive marks the whole run as inconclusive.
func (t *T) CtxInconclusive(f string, a ...any) { t.c.Inconclusive(f, a...) }
