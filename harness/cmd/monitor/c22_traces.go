package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"log"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C22"] = c22 }

// C22: calls leave nothing behind. Every call has a process of its own, which
// performs it on many operands and watches its own heap, goroutines, files and
// settings; this process watches what it prints and which files it makes.
func c22(c *mon.Ctx) {
	self, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	calls := traceCalls()
	c.Run("traces", c.N(1, 4)*len(calls), func(t *mon.T) {
		a := calls[t.Index%len(calls)]
		dir, err := os.MkdirTemp("", "traces")
		if err != nil {
			t.CtxInconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		r, w, err := os.Pipe()
		if err != nil {
			t.CtxInconclusive("%v", err)
			return
		}
		defer r.Close()
		cmd := exec.Command(self, "-child", fmt.Sprintf("traces:%d:%d", t.Index%len(calls), t.U64()))
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "TMPDIR="+dir, "HOME="+dir, "GOMAXPROCS=2")
		cmd.ExtraFiles = []*os.File{w}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err = cmd.Start(); err != nil {
			w.Close()
			t.CtxInconclusive("%v", err)
			return
		}
		w.Close()
		var rep traceReport
		derr := json.NewDecoder(r).Decode(&rep)
		if err = cmd.Wait(); err != nil || derr != nil {
			t.Fail("the process that calls %s ended with %v (%v): %.2000s", a.name, err, derr, out.String())
			return
		}
		t.Assert(out.Len() == 0, "%s prints %.300q", a.name, out.String())
		l, _ := os.ReadDir(dir)
		t.Assert(len(l) == 0, "%s leaves files behind: %v", a.name, l)
		for _, b := range rep.Bad {
			t.Fail("%s %s", a.name, b)
		}
		t.Checks(int64(rep.Checks))
		t.Count("call:" + a.name)
		t.CountN("calls watched", int64(rep.Calls))
		t.CountN("operand sets collected", rep.Collected)
		t.Seen(a.name, t.Index)
		t.Sample("%s: %d calls in %d rounds, heap objects per round %v, bytes %v, %d of %d operand sets collected, reads and writes per round %v", a.name, rep.Calls, rep.Rounds, rep.Objects, rep.Bytes, rep.Collected, rep.Sets, rep.IO)
	})
	for _, a := range calls {
		c.Require("call:" + a.name)
	}
	c.Require("calls watched", "operand sets collected")
	// the instrument sees what it is there to see
	c.Run("controls", len(controls), func(t *mon.T) {
		r, w, err := os.Pipe()
		if err != nil {
			t.CtxInconclusive("%v", err)
			return
		}
		defer r.Close()
		cmd := exec.Command(self, "-child", fmt.Sprintf("traces:%d:1", -1-t.Index))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		cmd.ExtraFiles = []*os.File{w}
		err = cmd.Start()
		w.Close()
		if err != nil {
			t.CtxInconclusive("%v", err)
			return
		}
		var rep traceReport
		json.NewDecoder(r).Decode(&rep)
		cmd.Wait()
		if len(rep.Bad) == 0 {
			t.CtxInconclusive("the instrument does not see %s", controls[t.Index].name)
		}
		t.Count("controls seen")
	})
	c.Require("controls seen")
}

// traceCalls is what C22 watches: the calls of the API and random generation.
func traceCalls() []api {
	return append(append(apiCalls(), inPlace()...),
		api{"Point.Rand", func(e *env, r *mon.Rng) []byte { var p sut.Point; return p.Rand().Bytes() }},
		api{"Scalar.Rand", func(e *env, r *mon.Rng) []byte { var s sut.Sc; return s.Rand().Bytes() }})
}

// inPlace is the calls whose result replaces an operand.
func inPlace() []api {
	pt := func(name string, f func(p, q *sut.Point, e *env)) api {
		return api{name, func(e *env, r *mon.Rng) []byte { p, q := e.P[0], e.P[1]; f(&p, &q, e); return p.Bytes() }}
	}
	sc := func(name string, f func(s, t *sut.Sc)) api {
		return api{name, func(e *env, r *mon.Rng) []byte { s, t := e.S[0], e.S[1]; f(&s, &t); return s.Bytes() }}
	}
	fe := func(name string, f func(a, b *sut.FE)) api {
		return api{name, func(e *env, r *mon.Rng) []byte { a, b := e.F[3], e.F[1]; f(&a, &b); x := a.Bytes(); return x[:] }}
	}
	return []api{
		pt("p.Add(p,q)", func(p, q *sut.Point, e *env) { p.Add(p, q) }),
		pt("p.Add(q,p)", func(p, q *sut.Point, e *env) { p.Add(q, p) }),
		pt("p.Add(p,p)", func(p, q *sut.Point, e *env) { p.Add(p, p) }),
		pt("p.Sub(p,q)", func(p, q *sut.Point, e *env) { p.Sub(p, q) }),
		pt("p.Sub(q,p)", func(p, q *sut.Point, e *env) { p.Sub(q, p) }),
		pt("p.Neg(p)", func(p, q *sut.Point, e *env) { p.Neg(p) }),
		pt("p.Double(p)", func(p, q *sut.Point, e *env) { p.Double(p) }),
		pt("p.Set(p)", func(p, q *sut.Point, e *env) { p.Set(p) }),
		pt("p.ScalarMult(p)", func(p, q *sut.Point, e *env) { p.ScalarMult(p, &e.S[0]) }),
		pt("p.PublicScalarMult(p)", func(p, q *sut.Point, e *env) { p.PublicScalarMult(p, &e.S[0]) }),
		pt("p.Equals(p)", func(p, q *sut.Point, e *env) { p.Equals(p) }),
		pt("p.ConditionalSet(p)", func(p, q *sut.Point, e *env) { p.ConditionalSet(p, 1) }),
		sc("s.Add(s,s)", func(s, t *sut.Sc) { s.Add(s, s) }),
		sc("s.Add(s,t)", func(s, t *sut.Sc) { s.Add(s, t) }),
		sc("s.Sub(s,t)", func(s, t *sut.Sc) { s.Sub(s, t) }),
		sc("s.Sub(t,s)", func(s, t *sut.Sc) { s.Sub(t, s) }),
		sc("s.Neg(s)", func(s, t *sut.Sc) { s.Neg(s) }),
		sc("s.Mul(s,t)", func(s, t *sut.Sc) { s.Mul(s, t) }),
		sc("s.Mul(s,s)", func(s, t *sut.Sc) { s.Mul(s, s) }),
		sc("s.Square(s)", func(s, t *sut.Sc) { s.Square(s) }),
		sc("s.Inverse(s)", func(s, t *sut.Sc) { s.Inverse(s) }),
		sc("s.MulAdd(s,t,s)", func(s, t *sut.Sc) { s.MulAdd(s, t, s) }),
		sc("s.MulSub(t,s,t)", func(s, t *sut.Sc) { s.MulSub(t, s, t) }),
		sc("s.Set(s)", func(s, t *sut.Sc) { s.Set(s) }),
		sc("s.Equals(s)", func(s, t *sut.Sc) { s.Equals(s) }),
		fe("a.Add(a,b)", func(a, b *sut.FE) { a.Add(a, b) }),
		fe("a.Sub(b,a)", func(a, b *sut.FE) { a.Sub(b, a) }),
		fe("a.Mul(a,b)", func(a, b *sut.FE) { a.Mul(a, b) }),
		fe("a.Mul(a,a)", func(a, b *sut.FE) { a.Mul(a, a) }),
		fe("a.Square(a)", func(a, b *sut.FE) { a.Square(a) }),
		fe("a.DoubledSquare(a)", func(a, b *sut.FE) { a.DoubledSquare(a) }),
		fe("a.Neg(a)", func(a, b *sut.FE) { a.Neg(a) }),
		fe("a.Abs(a)", func(a, b *sut.FE) { a.Abs(a) }),
		fe("a.Inverse(a)", func(a, b *sut.FE) { a.Inverse(a) }),
		fe("a.InvSqrt(a)", func(a, b *sut.FE) { a.InvSqrt(a) }),
		fe("a.InvSqrtI(a)", func(a, b *sut.FE) { a.InvSqrtI(a) }),
		fe("a.Sqrt(a)", func(a, b *sut.FE) { a.Sqrt(a) }),
		fe("a.Exp22523(a)", func(a, b *sut.FE) { a.Exp22523(a) }),
	}
}

// things that a library should not do
var leaked [][]byte
var leakedEnv *env
var controls = []api{
	{"control:growth", func(e *env, r *mon.Rng) []byte { leaked = append(leaked, make([]byte, 32)); return nil }},
	{"control:reference", func(e *env, r *mon.Rng) []byte { leakedEnv = e; return nil }},
	{"control:file", func(e *env, r *mon.Rng) []byte {
		if f, err := os.Open("/dev/null"); err == nil {
			f.Read(make([]byte, 1))
			f.Close()
		}
		return nil
	}},
}

type traceReport struct {
	Bad           []string
	Calls, Rounds int
	Checks        int
	Objects, IO   []int64
	Bytes         []int64
	Sets          int64
	Collected     int64
}

const traceRound = 64
const traceRounds = 6

// refresh gives e other operands, cheaply.
func refresh(e *env, r *mon.Rng) {
	for i := range e.P {
		e.P[i] = sut.PointStyle(r, gen.Represent(r, ref.PAdd(sut.POfPoint(&e.P[i]), ref.B)))
	}
	for i := range e.E {
		m, _ := curvePoint(r)
		e.E[i] = sut.EPStyle(r, m)
	}
	for i := range e.S {
		k, _ := gen.Scalar(r)
		e.S[i] = sut.ScOf(k)
	}
	for i := range e.F {
		f, _ := gen.F(r)
		if i == 3 {
			f = ref.Sq(f)
		}
		e.F[i] = sut.FEStyle(r, f)
	}
	for i := range e.B {
		e.B[i], _ = gen.Buf32(r)
	}
	if r.Bool() {
		p, _ := gen.Element(r)
		e.B[1] = p.Encode()
	}
	copy(e.B64[:], ref64(r))
	k, _ := gen.Nat(r, 253)
	e.Low = ref.LE32(k)
	copy(e.Liz[:], r.Bytes(16))
	e.LizP = sut.PointStyle(r, gen.Represent(r, ref.Lizard(&e.Liz)))
	e.Data = r.Bytes(64 + r.Intn(100))
	for i := range e.Text {
		var b [32]byte
		if i < 2 {
			p, _ := gen.Element(r)
			b = p.Encode()
		} else {
			b = e.B[i]
		}
		t, _ := hostileText(r, b)
		if len(t) > 300 {
			t = t[:300]
		}
		e.Text[i] = append(make([]byte, 0, 512), t...)
		e.Bin[i] = append(make([]byte, 0, 64), b[:]...)
	}
	e.Bin[3] = e.Bin[3][:r.Intn(33)]
	e.Big, _ = gen.Nat(r, 300)
}

func mem() (objects, size int64) {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

// ioCalls is how many reads and writes this process has made. The file is
// read without package os, which would start the runtime's poller.
func ioCalls() int64 {
	fd, err := syscall.Open("/proc/self/io", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return -1
	}
	defer syscall.Close(fd)
	var b [512]byte
	n, _ := syscall.Read(fd, b[:])
	var s int64
	for _, l := range strings.Split(string(b[:max(n, 0)]), "\n") {
		if x, ok := strings.CutPrefix(l, "syscr: "); ok {
			v, _ := strconv.ParseInt(x, 10, 64)
			s += v
		}
		if x, ok := strings.CutPrefix(l, "syscw: "); ok {
			v, _ := strconv.ParseInt(x, 10, 64)
			s += v
		}
	}
	return s
}

func openFiles() string {
	var l []string
	for fd := 0; fd < 64; fd++ {
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil {
			l = append(l, strconv.Itoa(fd))
		}
	}
	return strings.Join(l, " ")
}

func settings() string {
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	ml := debug.SetMemoryLimit(-1)
	wd, _ := syscall.Getwd()
	um := syscall.Umask(0o22)
	syscall.Umask(um)
	return fmt.Sprintf("GOMAXPROCS %d, GC %d, memory limit %d, environment %q, arguments %q, directory %s, umask %o, rand.Reader %T, log %d %q, SIGINT ignored %v",
		runtime.GOMAXPROCS(0), gc, ml, os.Environ(), os.Args, wd, um, crand.Reader, log.Flags(), log.Prefix(), signal.Ignored(os.Interrupt))
}

// watchTraces is the process that makes one call many times.
func watchTraces(i int, seed uint64) {
	syscall.CloseOnExec(3)
	var a api
	if i < 0 {
		a = controls[-1-i]
	} else {
		a = traceCalls()[i]
	}
	time.Sleep(2 * time.Millisecond) // the runtime opens files of its own for timers
	files, set, gos := openFiles(), settings(), runtime.NumGoroutine()
	r := mon.NewRng(seed)
	var rep traceReport
	base := make([]*env, 4)
	for k := range base {
		base[k] = newEnv(r)
	}
	var collected atomic.Int64
	stuck := int64(0)
	// settle waits until the operands that were dropped are gone.
	settle := func(tries int) {
		for k := 0; k < tries && collected.Load()+stuck < rep.Sets; k++ {
			runtime.GC()
			time.Sleep(time.Duration(k) * time.Millisecond)
		}
		stuck = rep.Sets - collected.Load()
	}
	round := func() (objects, size, io int64) {
		settle(30)
		done := make(chan struct{})
		go func() {
			defer close(done)
			es := make([]*env, traceRound)
			for k := range es {
				es[k] = base[k%4].clone()
				refresh(es[k], r)
				if k%3 == 2 {
					extremes(es[k], r, k/3)
				}
				rep.Sets++
				runtime.SetFinalizer(es[k], func(*env) { collected.Add(1) })
				for _, s := range [][]byte{es[k].Data, es[k].Text[0], es[k].Bin[0]} {
					rep.Sets++
					runtime.SetFinalizer(&s[:1][0], func(*byte) { collected.Add(1) })
				}
				rep.Sets++
				es[k].Big = new(big.Int).Set(es[k].Big)
				runtime.SetFinalizer(es[k].Big, func(*big.Int) { collected.Add(1) })
			}
			for k := range base { // other points in the next round
				for j := range base[k].P {
					base[k].P[j] = es[traceRound-4+k].P[j]
				}
			}
			null := -ioCalls()
			null += ioCalls()
			o0, s0 := mem()
			io = -ioCalls()
			for _, e := range es {
				a.call(e, r)
			}
			io += ioCalls() - null
			o1, s1 := mem()
			objects, size = o1-o0, s1-s0
			runtime.KeepAlive(es)
		}()
		<-done
		rep.Calls += traceRound
		rep.Rounds++
		return
	}
	round() // tables and caches that are filled once
	round()
	// rounds tells how much more memory is in use after n rounds than before.
	rounds := func(n int) (objects, size int64, ios int) {
		for k := 0; k < n; k++ {
			o, s, io := round()
			objects, size = objects+o, size+s
			rep.Objects, rep.Bytes, rep.IO = append(rep.Objects, o), append(rep.Bytes, s), append(rep.IO, io)
			if io > 0 {
				ios++
			}
			rep.Checks += 2
		}
		return
	}
	o, s, ios := rounds(traceRounds)
	grows := func(o, s int64, n int) bool { return o >= int64(n*traceRound/12) || s >= int64(n*traceRound*6) }
	// a thread of the runtime takes memory once, a cache of bounded size is full some day
	more := 0
	for _, n := range []int{1, 2, 4, 12} {
		if !grows(o, s, max(more, 1)*traceRounds) {
			more = -1
			break
		}
		more = n
		o, s, _ = rounds(n * traceRounds)
	}
	if more > 0 && grows(o, s, more*traceRounds) {
		rep.Bad = append(rep.Bad, fmt.Sprintf("keeps memory: %d more objects, %d more bytes after %d more calls", o, s, more*traceRounds*traceRound))
	}
	if ios >= traceRounds/2 {
		rep.Bad = append(rep.Bad, fmt.Sprintf("reads or writes files: %v reads and writes in rounds of %d calls", rep.IO, traceRound))
	}
	stuck = 0
	settle(100)
	if stuck > 0 { // a busy machine, perhaps
		stuck = 0
		settle(200)
	}
	rep.Collected = collected.Load()
	if rep.Collected < rep.Sets {
		rep.Bad = append(rep.Bad, fmt.Sprintf("keeps references to operands: %d of %d operands can still be reached", rep.Sets-rep.Collected, rep.Sets))
	}
	now := runtime.NumGoroutine()
	for k := 0; k < 50 && now > gos; k++ {
		time.Sleep(20 * time.Millisecond)
		now = runtime.NumGoroutine()
	}
	if now > gos {
		rep.Bad = append(rep.Bad, fmt.Sprintf("leaves goroutines running: %d instead of %d", now, gos))
	}
	if f := openFiles(); f != files && len(f) > len(files) {
		rep.Bad = append(rep.Bad, fmt.Sprintf("leaves files open: %s instead of %s", f, files))
	}
	if s := settings(); s != set {
		rep.Bad = append(rep.Bad, fmt.Sprintf("changes settings of the process: %s instead of %s", s, set))
	}
	rep.Checks += 4
	b, _ := json.Marshal(rep)
	f := os.NewFile(3, "report")
	f.Write(b)
	f.Close()
}
