package main

import (
	"bytes"
	"context"
	crand "crypto/rand"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C17"] = c17 }

// tape is a recorded source of randomness.
type tape struct {
	data []byte
	pos  int
	step int
	r    *mon.Rng
}

func (t *tape) Read(b []byte) (int, error) {
	n := len(b)
	if t.step > 0 && n > t.step {
		n = t.step
	}
	if t.step < 0 && n > 1 {
		n = 1 + t.r.Intn(n)
	}
	for t.pos+n > len(t.data) {
		t.data = append(t.data, t.r.Bytes(256)...)
	}
	copy(b[:n], t.data[t.pos:])
	t.pos += n
	return n, nil
}

func c17(c *mon.Ctx) {
	orig := crand.Reader
	defer func() { crand.Reader = orig }()
	with := func(r io.Reader, f func()) {
		crand.Reader = r
		defer func() { crand.Reader = orig }()
		f()
	}
	point := func(t *mon.T) (b [32]byte) {
		p := sut.JunkPoint(&t.Rng)
		q := p.Rand()
		t.Assert(q == &p, "Point.Rand does not return its receiver")
		m := sut.POfPoint(&p)
		if t.Assert(m.Valid() && m.Even(), "Point.Rand gave no element of the group: %s", sut.PStr(m)) {
			b = m.Encode()
			t.Assert(bytes.Equal(p.Bytes(), b[:]), "Point.Rand: encodes as %x want %x", p.Bytes(), b)
		}
		return
	}
	scalar := func(t *mon.T) (b [32]byte) {
		s := sut.JunkSc(&t.Rng)
		q := s.Rand()
		t.Assert(q == &s, "Scalar.Rand does not return its receiver")
		v := sut.ScBig(&s)
		t.Assert(v.Cmp(ref.LBig) < 0, "Scalar.Rand is not reduced: %x", v)
		return ref.LE32(v)
	}
	kinds := []struct {
		name string
		f    func(*mon.T) [32]byte
		need int // bytes it has to consume
		bits int // bits of them that have to matter
	}{{"point", point, 32, 254}, {"scalar", scalar, 64, 510}}

	// the value is a function of the bytes of the source: whatever was in the
	// receiver, and however the source chops up what it delivers
	c.RunSeq("source", c.N(2500, 60000), func(t *mon.T) {
		k := kinds[t.Index&1]
		data := t.Bytes(1024)
		ref1 := &tape{data: data, r: mon.NewRng(1)}
		var v1, v2, v3 [32]byte
		with(ref1, func() { v1 = k.f(t) })
		used := ref1.pos
		t.Assert(used >= k.need, "%s.Rand used only %d bytes of the source", k.name, used)
		step := []int{1, 7, -1, 31, 33, 2}[t.Intn(6)]
		short := &tape{data: data, step: step, r: mon.NewRng(t.U64())}
		with(short, func() { v2 = k.f(t) })
		t.Assert(v2 == v1, "%s.Rand gives %x if the source delivers it in pieces and %x otherwise: bytes got lost", k.name, v2, v1)
		t.Assert(short.pos == used, "%s.Rand used %d bytes of a source that delivers pieces and %d otherwise", k.name, short.pos, used)
		// the next value comes from fresh bytes only
		with(ref1, func() { v3 = k.f(t) })
		var v4 [32]byte
		with(&tape{data: data[used:], r: mon.NewRng(1)}, func() { v4 = k.f(t) })
		t.Assert(v3 == v4, "%s.Rand depends on earlier output of the source", k.name)
		t.Assert(v3 != v1, "%s.Rand gave the same value twice", k.name)
		t.Count(fmt.Sprintf("bytes:%s:%d", k.name, used))
		t.Seen(v1[:])
		t.Sample("%s.Rand used %d bytes and gave %x", k.name, used, v1)
	})
	// every bit of the source matters
	c.RunSeq("bits", c.N(12, 200), func(t *mon.T) {
		k := kinds[t.Index&1]
		data := t.Bytes(512)
		base := &tape{data: data, r: mon.NewRng(1)}
		var v [32]byte
		with(base, func() { v = k.f(t) })
		dead := 0
		seen := map[[32]byte]bool{v: true}
		n := base.pos * 8
		if n > 2048 {
			n = 2048
		}
		for i := 0; i < n; i++ {
			d := append([]byte(nil), data...)
			d[i/8] ^= 1 << uint(i%8)
			var w [32]byte
			with(&tape{data: d, r: mon.NewRng(1)}, func() { w = k.f(t) })
			if w == v {
				dead++
			} else {
				t.Assert(!seen[w], "%s.Rand: two different bit flips give the same value %x", k.name, w)
				seen[w] = true
			}
			t.Seen(w[:])
		}
		t.Assert(n-dead >= k.bits, "%s.Rand: only %d bits of the source influence the value", k.name, n-dead)
		t.Count("bits:" + k.name)
		t.Sample("%s: %d of %d bits matter", k.name, n-dead, n)
	})
	// distribution: the bits of the values are balanced (deterministic source)
	c.RunSeq("balance", 2, func(t *mon.T) {
		k := kinds[t.Index&1]
		n := c.N(6000, 100000)
		var ones [256]int
		seen := map[[32]byte]bool{}
		src := &tape{r: mon.NewRng(c.Seed + 17)}
		var sum big.Int
		with(src, func() {
			for i := 0; i < n; i++ {
				if len(src.data) > 1<<16 {
					src.data, src.pos = nil, 0
				}
				v := k.f(t)
				t.Assert(!seen[v], "%s.Rand repeats %x", k.name, v)
				seen[v] = true
				for j := range ones {
					ones[j] += int(v[j/8] >> uint(j%8) & 1)
				}
				sum.Add(&sum, ref.FromLE(v[:]))
			}
		})
		// bits 1..250 of both kinds are uniform (bit 0 of an encoding is 0)
		for j := 1; j <= 250; j++ {
			// 8 standard deviations
			d := 2*ones[j] - n
			t.Assert(d*d <= 64*n, "%s.Rand: bit %d is set in %d of %d values", k.name, j, ones[j], n)
		}
		t.Count("balance:" + k.name)
		t.Sample("%s: %d values, bit 250 set in %d", k.name, n, ones[250])
	})
	// the default source
	c.RunSeq("system", c.N(3000, 50000), func(t *mon.T) {
		k := kinds[t.Index&1]
		a, b := k.f(t), k.f(t)
		t.Assert(a != b, "%s.Rand gave %x twice in a row", k.name, a)
		t.Count("system:" + k.name)
		t.Seen(a[:])
	})
	// a source that fails never yields a value
	exe, err := os.Executable()
	if err != nil {
		c.Inconclusive("no executable: %v", err)
		return
	}
	type fault struct {
		what       string
		left, step int
		err, mode  string
	}
	var faults []fault
	for _, what := range []string{"point", "scalar"} {
		// every point before the last byte it asks for
		probe := &tape{r: mon.NewRng(3)}
		with(probe, func() {
			if what == "point" {
				new(sut.Point).Rand()
			} else {
				new(sut.Sc).Rand()
			}
		})
		max := probe.pos - 1
		for left := 0; left <= max; left++ {
			if !c.Thorough() && left%5 != 0 && left != max && left%16 != 0 {
				continue
			}
			faults = append(faults,
				fault{what, left, 0, "err", "part"}, fault{what, left, 0, "eof", "full"}, fault{what, left, 0, "eof", "part"},
				fault{what, left, 0, "err", "both"}, fault{what, left, 0, "eof", "both"})
			if left > 0 {
				faults = append(faults, fault{what, left, 1, "err", "part"})
			}
		}
	}
	c.Run("failing-source", len(faults), func(t *mon.T) {
		f := faults[t.Index]
		arg := fmt.Sprintf("%s:%d:%d:%s:%s", f.what, f.left, f.step, f.err, f.mode)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, exe, "-child", arg)
		o, err := cmd.CombinedOutput()
		s := string(o)
		if !strings.Contains(s, "START") {
			t.CtxInconclusive("child %s did not run: %v %s", arg, err, s)
			return
		}
		t.Assert(!strings.Contains(s, "VALUE"), "the source of randomness failed after %d bytes (%s) and %s.Rand returned %s", f.left, arg, f.what, s)
		if ctx.Err() != nil {
			t.Count("fault:hang") // no value either
			return
		}
		if strings.Contains(s, "PANIC") {
			t.Count("fault:panic")
		} else {
			t.Count("fault:fatal")
		}
		t.Count("fault:" + f.what)
		t.Seen(arg)
		t.Sample("%s -> %.80q", arg, s)
	})
	c.Require("bits:point", "bits:scalar", "balance:point", "balance:scalar", "system:point", "system:scalar", "fault:point", "fault:scalar")
}
