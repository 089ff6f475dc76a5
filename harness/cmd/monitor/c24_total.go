package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/sut"
)

func init() { props["C24"] = c24 }

// C24: every call comes back, whatever it is given, and takes no more time and
// memory than its input warrants.
func c24(c *mon.Ctx) {
	debug.SetMaxStack(64 << 20) // a recursion that follows its input ends here
	calls := append(apiCalls(), inPlace()...)
	// memory that holds no point, scalar or field element at all
	c.Run("anything", c.N(40, 2000)*len(calls), func(t *mon.T) {
		r := &t.Rng
		e, what := anything(r)
		t.Count("operands:" + what)
		for k := 0; k < 10; k++ {
			a := calls[(t.Index+17*k)%len(calls)]
			t.ClearTrail()
			t.Trail("%s on %s", a.name, what)
			a.call(e, r)
			t.Check()
			t.Count("call:" + a.name)
			t.Seen(a.name, e.P[0], e.S[0], e.F[0])
		}
	})
	if c.Guided() {
		return
	}
	// what ordinary calls allocate
	c.Run("allocations", 1, func(t *mon.T) {
		r := &t.Rng
		for k := 0; k < 12; k++ {
			e := newEnv(r)
			for _, a := range calls {
				before, cpu := used()
				for i := 0; i < 4; i++ {
					a.call(e, r)
				}
				after, cpu2 := used()
				if !t.Assert(after-before <= 4<<20, "%s allocates %d bytes per call", a.name, (after-before)/4) ||
					!t.Assert(cpu2-cpu <= 20*time.Second, "%s takes %v of processor time", a.name, (cpu2-cpu)/4) {
					return
				}
				t.Count("allocation measured")
				if k == 0 {
					t.Sample("%s: at most %d bytes allocated by a call", a.name, (after-before)/4)
				}
			}
		}
	})
	// long inputs
	c.Run("long", 1, func(t *mon.T) {
		r := &t.Rng
		sizes := []int{1 << 10, 1<<12 + 1, 1<<16 - 1, 1 << 18, 1<<20 + 3, 1 << 22}
		if t.Thorough() {
			sizes = append(sizes, 1<<24+5, 1<<26)
		}
		for _, n := range sizes {
			for _, l := range longCalls(r, n) {
				before, cpu := used()
				l.f()
				after, cpu2 := used()
				if !t.Assert(after-before <= 64*uint64(n)+8<<20, "%s of %d bytes allocates %d bytes", l.name, n, after-before) ||
					!t.Assert(cpu2-cpu <= 20*time.Second+time.Duration(n)*time.Microsecond, "%s of %d bytes takes %v of processor time", l.name, n, cpu2-cpu) {
					return
				}
				t.Count("long:" + l.name)
				t.Seen(l.name, fmt.Sprint(n))
				t.Sample("%s of %d bytes: %d bytes allocated, %v of processor time", l.name, n, after-before, cpu2-cpu)
			}
		}
	})
	for _, a := range calls {
		c.Require("call:" + a.name)
	}
	c.Require("operands:zeroes", "operands:ones", "operands:random", "operands:one bit", "operands:mixed", "operands:valid, odd inputs",
		"allocation measured", "long:Point.Derive", "long:Scalar.Derive", "long:Point.UnmarshalText(random)", "long:Scalar.SetBigInt")
}

// used is how many bytes have been allocated and how much time spent so far.
func used() (uint64, time.Duration) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return m.TotalAlloc, time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// anything is operands of which most are no valid values.
func anything(r *mon.Rng) (e *env, what string) {
	e = newEnv(r)
	mem := unsafe.Slice((*byte)(unsafe.Pointer(&e.flat)), unsafe.Sizeof(e.flat))
	switch r.Intn(6) {
	case 0:
		what = "zeroes" // variables never set
		for i := range mem {
			mem[i] = 0
		}
	case 1:
		what = "ones"
		for i := range mem {
			mem[i] = 0xff
		}
	case 2:
		what = "random"
		copy(mem, r.Bytes(len(mem)))
	case 3:
		what = "one bit"
		for i := range mem {
			mem[i] = 0
		}
		for k := 0; k < 200; k++ {
			mem[r.Intn(len(mem))] |= 1 << r.Intn(8)
		}
	case 4:
		what = "mixed" // valid values, damaged here and there
		for k := 0; k < 1+len(mem)/64; k++ {
			i := r.Intn(len(mem))
			switch r.Intn(4) {
			case 0:
				mem[i] = 0
			case 1:
				mem[i] = 0xff
			case 2:
				mem[i] ^= 1 << r.Intn(8)
			default:
				mem[i] = byte(r.U64())
			}
		}
	default:
		what = "valid, odd inputs"
	}
	// scalars are documented to be reduced, and have to be below 2^253 at the least
	for i := range e.S {
		e.S[i][7] &= 0x1fffffff
	}
	e.Low[31] &= 0x1f
	if r.Bool() {
		e.Data = nil
	}
	for i := range e.Text {
		switch r.Intn(4) {
		case 0:
			e.Text[i], e.Bin[i] = nil, nil
		case 1:
			e.Text[i], e.Bin[i] = r.Bytes(r.Intn(100)), r.Bytes(r.Intn(100))
		case 2:
			e.Text[i] = bytes.Repeat([]byte{byte(r.U64())}, r.Intn(200))
			e.Bin[i] = bytes.Repeat([]byte{byte(r.U64())}, r.Intn(200))
		}
	}
	n, _ := gen.Nat(r, 1+r.Intn(5000))
	e.Big = n
	switch r.Intn(5) {
	case 0:
		e.Big = new(big.Int)
	case 1:
		e.Big = new(big.Int).Neg(n)
	}
	return
}

type longCall struct {
	name string
	f    func()
}

func longCalls(r *mon.Rng, n int) []longCall {
	data := r.Bytes(n)
	text := []byte(base64.RawURLEncoding.EncodeToString(data))[:n]
	breaks := bytes.Repeat([]byte("\r\n"), n/2)
	var pt sut.Point
	valid, _ := pt.Derive(data[:8]).MarshalText()
	spread := append([]byte(nil), valid...)
	for len(spread) < n { // a valid text with line breaks all over
		spread = append(spread[:len(spread)/2], append(bytes.Repeat([]byte("\n"), n/3+1), spread[len(spread)/2:]...)...)
	}
	num := new(big.Int).SetBytes(data)
	type P = sut.Point
	type S = sut.Sc
	l := []longCall{
		{"Point.Derive", func() { new(P).Derive(data) }},
		{"Point.DeriveDalek", func() { new(P).DeriveDalek(data) }},
		{"Scalar.Derive", func() { new(S).Derive(data) }},
		{"Point.UnmarshalBinary", func() { new(P).UnmarshalBinary(data) }},
		{"Scalar.UnmarshalBinary", func() { new(S).UnmarshalBinary(data) }},
		{"Scalar.SetBigInt", func() { new(S).SetBigInt(num) }},
		{"Scalar.SetBigInt(negative)", func() { new(S).SetBigInt(new(big.Int).Neg(num)) }},
		{"FieldElement.SetBigInt", func() { new(sut.FE).SetBigInt(num) }},
	}
	for _, x := range []struct {
		name string
		b    []byte
	}{{"random", text}, {"line breaks", breaks}, {"spread", spread}, {"zeroes", make([]byte, n)}, {"A", bytes.Repeat([]byte("A"), n)}, {"=", bytes.Repeat([]byte("="), n)}} {
		b := x.b
		l = append(l, longCall{"Point.UnmarshalText(" + x.name + ")", func() { new(P).UnmarshalText(b) }},
			longCall{"Scalar.UnmarshalText(" + x.name + ")", func() { new(S).UnmarshalText(b) }})
	}
	return l
}
