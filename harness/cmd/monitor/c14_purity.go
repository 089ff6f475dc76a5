package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() {
	props["C12"] = c12
	props["C14"] = c14
	props["C15"] = c15
}

var _ ristretto.Point

// C12: every call of the API on the same operands gives the same result in
// every build of the library. This process only writes down a digest of the
// results; the driver compares the digests of all builds.
func c12(c *mon.Ctx) {
	calls := apiCalls()
	n := c.N(3000, 60000)
	lines := make([]string, n)
	perCall := make([]hash.Hash, len(calls))
	var mu sync.Mutex
	_ = perCall
	c.Run("api", n, func(t *mon.T) {
		e := newEnv(&t.Rng)
		if t.Index%6 == 5 {
			extremes(e, &t.Rng, t.Index/6)
		}
		h := sha256.New()
		var detail []string
		for _, a := range calls {
			o := a.call(e, &t.Rng)
			t.Check()
			t.Count("call:" + a.name)
			if c.Only != "" {
				detail = append(detail, fmt.Sprintf("%s = %x", a.name, o))
			}
			s := sha256.Sum256(o)
			h.Write(s[:])
			t.Seen(a.name, o)
		}
		mu.Lock()
		lines[t.Index] = fmt.Sprintf("%d %x", t.Index, h.Sum(nil)[:12])
		mu.Unlock()
		for _, d := range detail {
			c.Transcript(d)
		}
		t.Sample("operands p0=%x s0=%x f0=%x: digest of %d results %s", e.P[0].Bytes(), e.S[0].Bytes(), e.F[0].Bytes(), len(calls), lines[t.Index])
	})
	if c.Only == "" {
		for _, l := range lines {
			c.Transcript(l)
		}
	}
	for _, a := range calls {
		c.Require("call:" + a.name)
	}
}

// C14: operands are only read, results are a function of the operands.
func c14(c *mon.Ctx) {
	calls := apiCalls()
	base := ed.BaseScalarMultTable
	// results of the constants, taken before anything else ran
	c.Run("pure", c.N(1500, 50000), func(t *mon.T) {
		e := newEnv(&t.Rng)
		if t.Index%6 == 5 {
			extremes(e, &t.Rng, t.Index/6)
		}
		keep := e.clone()
		res := make([][]byte, len(calls))
		unchanged := func(name string) bool {
			if d := e.diff(keep); d != "" {
				t.Fail("%s modified %s that it was given to read", name, d)
				return false
			}
			return true
		}
		for i, a := range calls {
			res[i] = a.call(e, &t.Rng)
			t.Check()
			if bytes.Contains(res[i], []byte("RETURN-VALUE")) {
				t.Fail("%s does not return its receiver", a.name)
			}
			if !unchanged(a.name) {
				return
			}
			t.Count("call:" + a.name)
			t.Seen(a.name, res[i])
		}
		// again, in another order, with other garbage in the receivers, on a
		// copy of the operands at another address
		for k := range calls {
			i := (k*37 + t.Index) % len(calls)
			if len(calls)%37 == 0 {
				i = k
			}
			e2 := e
			if k%2 == 1 {
				e2 = keep
			}
			o := calls[i].call(e2, &t.Rng)
			t.Assert(bytes.Equal(o, res[i]), "%s gave %x at first and %x later for the same operands (receiver held other garbage)", calls[i].name, res[i], o)
		}
		unchanged("a repeated call")
		t.Assert(sut.SameMem(&ed.BaseScalarMultTable, sut.Mem(&base)), "BaseScalarMultTable was modified")
		t.Sample("%d calls twice on p0=%x s0=%x", len(calls), e.P[0].Bytes(), e.S[0].Bytes())
	})
	// the same memory holds other values from one call to the next
	c.Run("reused-memory", c.N(150, 4000), func(t *mon.T) {
		e := newEnv(&t.Rng)
		vals := []*env{e.clone(), newEnv(&t.Rng), e.clone()}
		// the third differs from the first in single bits and related values only
		x := vals[2]
		for i := range x.S {
			k := sut.ScBig(&x.S[i])
			x.S[i] = sut.ScOf(ref.ModL(k.Add(k, new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(252))))))
		}
		for i := range x.P {
			x.P[i] = sut.PointOf(relatedPoint(&t.Rng, sut.POfPoint(&x.P[i])))
		}
		for i := range x.E {
			x.E[i] = sut.EPOf(relatedPoint(&t.Rng, sut.POf(&x.E[i])))
		}
		for i := 0; i < 3; i++ { // the last one stays a square
			v := sut.FOf(&x.F[i]).Big()
			x.F[i] = sut.FEOf(ref.FromBig(v.Xor(v, new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(254))))))
		}
		x.LizP = sut.PointOf(relatedPoint(&t.Rng, sut.POfPoint(&x.LizP)))
		x.B64[t.Intn(64)] ^= 1 << uint(t.Intn(8))
		x.Big.Xor(x.Big, new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(300))))
		for i := range x.Bin {
			if len(x.Bin[i]) > 0 {
				x.Bin[i][t.Intn(len(x.Bin[i]))] ^= 1
			}
			if k := len(x.Text[i]); k > 0 && t.Bool() {
				x.Text[i][t.Intn(k)] ^= 1
			}
		}
		for i := range x.B {
			x.B[i][t.Intn(32)] ^= 1 << uint(t.Intn(7))
		}
		x.Low[t.Intn(31)] ^= 1
		x.Liz[t.Intn(16)] ^= 1 << uint(t.Intn(8))
		if len(x.Data) > 0 {
			x.Data[t.Intn(len(x.Data))] ^= 1
		}
		var want [3][][]byte
		for v := range vals {
			for i, a := range calls { // each on memory of its own
				_ = i
				want[v] = append(want[v], a.call(vals[v].clone(), &t.Rng))
			}
		}
		for k := 0; k < 9; k++ {
			v := []int{0, 2, 0, 1, 2, 1, 0, 0, 2}[k]
			n := vals[v].clone()
			e.flat = n.flat
			e.Data, e.Text, e.Bin = n.Data, n.Text, n.Bin
			e.Big.Set(n.Big)
			off := t.Intn(len(calls))
			for j := range calls {
				i := (j + off) % len(calls)
				o := calls[i].call(e, &t.Rng)
				t.Assert(bytes.Equal(o, want[v][i]), "%s gave %x on fresh memory and %x in memory that held other operands before", calls[i].name, want[v][i], o)
			}
		}
		// one call after the other, on operands that differ in one bit, sign or coordinate
		for i := range calls {
			for _, v := range []int{0, 2, 1, 2, 0} {
				o := calls[i].call(vals[v], &t.Rng)
				t.Assert(bytes.Equal(o, want[v][i]), "%s gave %x at first and %x right after a call on related operands", calls[i].name, want[v][i], o)
			}
		}
		t.Count("reused-memory")
		t.Seen(sut.Mem(&e.flat))
	})
	// results do not depend on which memory the operands share with the result
	c.Run("addresses", c.N(1500, 40000), func(t *mon.T) { addresses(t) })
	c.Require("reused-memory", "shared memory")
	if c.Guided() {
		return
	}
	// the very first call of a process gives what the same call gives later
	self, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	c.Run("cold", c.N(3, 40)*len(calls), func(t *mon.T) {
		i, kind := t.Index%len(calls), t.Index/len(calls)
		seed := t.U64()
		e, r := coldEnv(kind, seed)
		want := calls[i].call(e, r)
		o, err := exec.Command(self, "-child", fmt.Sprintf("cold:%d:%d:%d", i, kind, seed)).Output()
		if err != nil {
			t.Fail("%s as the first call of a process: %v: %s", calls[i].name, err, o)
			return
		}
		t.Assert(string(o) == fmt.Sprintf("%x", want), "%s gives %s as the first call of a process and %x later", calls[i].name, o, want)
		t.Count("cold calls")
		t.Seen(calls[i].name, kind)
		t.Sample("%s in a fresh process: %s", calls[i].name, o)
	})
	c.Require("cold calls")
	// the same call very often, on operands that take turns
	budget := 700 * time.Millisecond
	if c.Thorough() {
		budget = 20 * time.Second
	}
	c.Run("endurance", len(calls), func(t *mon.T) {
		a := calls[t.Index]
		es := []*env{newEnv(&t.Rng), newEnv(&t.Rng), newEnv(&t.Rng)}
		var want [3][]byte
		for i, e := range es {
			want[i] = a.call(e, &t.Rng)
		}
		n := 0
		for start := time.Now(); n < 1<<20; n++ {
			i := t.Intn(3)
			if o := a.call(es[i], &t.Rng); !bytes.Equal(o, want[i]) {
				t.Fail("%s gave %x at first and %x as call number %d", a.name, want[i], o, n)
				return
			}
			if n%16 == 0 && time.Since(start) > budget {
				break
			}
		}
		t.CountN("endurance calls", int64(n))
		t.Seen("endurance", a.name)
	})
	c.Require("endurance calls")
	for _, a := range calls {
		c.Require("call:" + a.name)
	}
}

// relatedPoint is another even point that shares much with q: coordinates up to
// sign, the same Z, or the same class in other coordinates.
func relatedPoint(r *mon.Rng, q ref.P) ref.P {
	m := func(f ref.F) ref.F { return ref.Neg(f) }
	switch r.Intn(7) {
	case 0: // -q
		return ref.P{X: m(q.X), Y: q.Y, Z: q.Z, T: m(q.T)}
	case 1: // (x,-y)
		return ref.P{X: q.X, Y: m(q.Y), Z: q.Z, T: m(q.T)}
	case 2: // (-x,-y)
		return ref.P{X: m(q.X), Y: m(q.Y), Z: q.Z, T: q.T}
	case 3: // the same, other Z only
		return ref.P{X: m(q.X), Y: m(q.Y), Z: m(q.Z), T: m(q.T)}
	case 4: //
		return ref.P{X: m(q.X), Y: q.Y, Z: m(q.Z), T: q.T}
	case 5:
		return ref.PAdd(q, ref.B)
	}
	return ref.PAdd(q, q)
}

// coldEnv is what the first call of a process gets.
func coldEnv(kind int, seed uint64) (*env, *mon.Rng) {
	r := mon.NewRng(seed)
	e := newEnv(r)
	if kind > 0 {
		return e, r
	}
	// zeroes everywhere: what an empty cache would take for an old key
	for i := range e.P {
		e.P[i] = sut.PointOf(ref.Ident)
	}
	for i := range e.E {
		e.E[i] = sut.EPOf(ref.Ident)
	}
	e.S = [4]sut.Sc{}
	e.F = [4]sut.FE{}
	e.B = [4][32]byte{}
	e.B64 = [64]byte{}
	e.Liz = [16]byte{}
	e.LizP = sut.PointOf(ref.Lizard(&e.Liz))
	e.Low = [32]byte{}
	e.Data = nil
	for i := range e.Text {
		e.Text[i] = []byte("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA")
		e.Bin[i] = make([]byte, 32)
	}
	e.Big = new(big.Int)
	return e, r
}

// extremes puts values in e that calls may treat on their own.
func extremes(e *env, r *mon.Rng, k int) {
	one := big.NewInt(1)
	lm := new(big.Int).Sub(ref.LBig, one)
	ss := []*big.Int{new(big.Int), one, lm, big.NewInt(2), big.NewInt(8), new(big.Int).Rsh(ref.LBig, 1), new(big.Int).Lsh(one, 252), big.NewInt(16)}
	for i := range e.S {
		e.S[i] = sut.ScOf(ss[r.Intn(len(ss))])
	}
	fs := []ref.F{ref.Zero, ref.One, ref.Neg(ref.One), ref.SqrtM, ref.SqrtID, ref.SqrtIOverD, ref.Neg(ref.SqrtM)}
	for i := range e.F[:3] {
		e.F[i] = sut.FEStyle(r, fs[r.Intn(len(fs))])
	}
	e.F[3] = sut.FEStyle(r, fs[r.Intn(3)])
	ps := []ref.P{ref.Ident, ref.B, ref.PNeg(ref.B), ref.PAdd(ref.B, ref.B)}
	for i := range e.P {
		e.P[i] = sut.PointStyle(r, gen.Represent(r, ps[r.Intn(len(ps))]))
	}
	switch k % 4 {
	case 0:
		e.Big = new(big.Int)
	case 1:
		e.Big = new(big.Int).Lsh(one, uint(250+r.Intn(300)))
	case 2:
		e.Big = new(big.Int).Neg(new(big.Int).SetBytes(r.Bytes(1 + r.Intn(60))))
	case 3:
		e.Big = new(big.Int).Set([]*big.Int{ref.LBig, lm, ref.PBig, one}[r.Intn(4)])
	}
}

// C15: goroutines that share operands and the package's tables. Built with
// the race detector; the driver counts its reports.
func c15(c *mon.Ctx) {
	calls := apiCalls()
	maxPar := 0
	// the very first use of the library happens concurrently
	run := func(t *mon.T, es []*env, goroutines, rounds int, pick func(g, k int, r *mon.Rng) int) {
		keep := make([]*env, len(es))
		for i, e := range es {
			keep[i] = e.clone()
		}
		type rec struct {
			i, e     int
			from, to time.Time
			o        []byte
		}
		type randVal struct {
			p sut.Point
			s sut.Sc
		}
		outs := make([][]rec, goroutines)
		rnd := make([][]randVal, goroutines)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var panics atomic.Value
		for g := 0; g < goroutines; g++ {
			wg.Add(1)
			seed := t.U64()
			go func(g int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						panics.Store(fmt.Sprint(x))
					}
				}()
				r := mon.NewRng(seed)
				rand := func() (v randVal) {
					v.p.Rand()
					v.s.Rand()
					return
				}
				<-start
				for k := 0; k < rounds; k++ {
					if r.Intn(12) == 0 {
						rnd[g] = append(rnd[g], rand())
					}
					i := pick(g, k, r)
					// nothing here may synchronise the goroutines: it would hide races
					x := rec{i: i, e: r.Intn(len(es)), from: time.Now()}
					x.o = calls[i].call(es[x.e], r)
					x.to = time.Now()
					outs[g] = append(outs[g], x)
					if r.Intn(16) == 0 {
						time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
					}
				}
				// generation of random values from many goroutines
				for k := 0; k < 12; k++ {
					rnd[g] = append(rnd[g], rand())
				}
			}(g)
		}
		close(start)
		wg.Wait()
		if x := panics.Load(); x != nil {
			t.Fail("panic in a goroutine: %v", x)
			return
		}
		for i, e := range es {
			if d := e.diff(keep[i]); d != "" {
				t.Fail("concurrent use modified %s", d)
			}
		}
		type edge struct {
			at time.Time
			d  int
		}
		var edges []edge
		for g := range outs {
			for _, x := range outs[g] {
				edges = append(edges, edge{x.from, 1}, edge{x.to, -1})
			}
		}
		sort.Slice(edges, func(i, j int) bool { return edges[i].at.Before(edges[j].at) })
		for n, i := 0, 0; i < len(edges); i++ {
			if n += edges[i].d; n > maxPar {
				maxPar = n
			}
		}
		seen := map[string]bool{}
		for g := range rnd {
			for k := range rnd[g] {
				v := &rnd[g][k]
				t.Assert(sut.POfPoint(&v.p).Valid() && sut.ScBig(&v.s).Cmp(ref.LBig) < 0, "invalid random value from a goroutine")
				pb, sb := "p"+string(v.p.Bytes()), "s"+string(v.s.Bytes())
				t.Assert(!seen[pb] && !seen[sb], "the same random value came twice in concurrent goroutines")
				seen[pb], seen[sb] = true, true
				t.Count("random values")
			}
		}
		want := map[[2]int][]byte{}
		for g := range outs {
			for _, x := range outs[g] {
				w, ok := want[[2]int{x.i, x.e}]
				if !ok {
					w = calls[x.i].call(keep[x.e], &t.Rng)
					want[[2]int{x.i, x.e}] = w
				}
				t.Assert(bytes.Equal(x.o, w), "%s gave %x in a goroutine and %x alone", calls[x.i].name, x.o, w)
				t.Count("call:" + calls[x.i].name)
			}
			order := make([]int, 0, len(outs[g]))
			for _, x := range outs[g] {
				order = append(order, x.i)
			}
			t.Seen(fmt.Sprint(order))
		}
	}
	c.RunSeq("shared", c.N(50, 700), func(t *mon.T) {
		e := newEnv(&t.Rng)
		switch t.Index % 5 {
		case 2: // zeroes and the identity
			e, _ = coldEnv(0, t.U64())
		case 4: // small, large and negative numbers
			extremes(e, &t.Rng, t.Index/5)
		}
		gs := 8
		if t.Index%3 == 1 {
			gs = 24
		}
		run(t, []*env{e, newEnv(&t.Rng)}, gs, 60, func(g, k int, r *mon.Rng) int {
			switch g % 4 {
			case 0: // everyone does the same calls at the same time
				return (k * 7) % len(calls)
			case 1:
				return (k*7 + 3) % len(calls)
			}
			return r.Intn(len(calls))
		})
		t.Sample("%d goroutines share p0=%x s0=%x", gs, e.P[0].Bytes(), e.S[0].Bytes())
	})
	// every call runs in several goroutines, on every kind of operands
	c.RunSeq("every-call", c.N(32, 800), func(t *mon.T) {
		e := newEnv(&t.Rng)
		switch t.Index % 4 {
		case 1:
			e, _ = coldEnv(0, t.U64())
		case 2, 3:
			extremes(e, &t.Rng, t.Index/4*2+t.Index%2)
		}
		n, off := len(calls), t.Intn(len(calls))
		run(t, []*env{e}, 4, n, func(g, k int, r *mon.Rng) int {
			if g == 3 {
				k = n - 1 - k
			}
			return (k + off) % n
		})
		t.Count("every-call")
	})
	c.Require("every-call")
	// one call in all goroutines, on operands that take turns: state that is
	// guarded against races, and yet mixes up two calls
	ms := 12
	if c.Thorough() {
		ms = 400
	}
	var shared []*env
	sharedFor := 0
	c.RunSeq("one-call", len(calls), func(t *mon.T) {
		a := calls[t.Index]
		if k := t.Index / 12; shared == nil || sharedFor != k {
			r := mon.NewRng(c.Seed*1000 + uint64(k))
			shared, sharedFor = []*env{newEnv(r), newEnv(r), newEnv(r)}, k
		}
		es := shared
		want := make([][]byte, len(es))
		for i, e := range es {
			want[i] = a.call(e, &t.Rng)
		}
		const gs = 6
		var wg sync.WaitGroup
		var bad [gs]string
		var n [gs]int
		start := make(chan struct{})
		for g := 0; g < gs; g++ {
			wg.Add(1)
			seed := t.U64()
			go func(g int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						bad[g] = fmt.Sprint("panic: ", x)
					}
				}()
				r := mon.NewRng(seed)
				<-start
				for end := time.Now().Add(time.Duration(ms) * time.Millisecond); time.Now().Before(end); {
					i := r.Intn(len(es))
					if o := a.call(es[i], r); !bytes.Equal(o, want[i]) {
						bad[g] = fmt.Sprintf("%x instead of %x", o, want[i])
						return
					}
					n[g]++
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range bad {
			t.Assert(bad[g] == "", "%s, called concurrently on different operands, gave %s", a.name, bad[g])
			t.CountN("one-call", int64(n[g]))
		}
		t.Seen("one-call", a.name)
	})
	c.Require("one-call")
	c.Note("up to %d calls were in flight at once", maxPar)
	if maxPar < 2 && c.Only == "" {
		c.Inconclusive("calls never overlapped")
	}
	c.Require("random values")
	for _, a := range calls {
		c.Require("call:" + a.name)
	}
}
