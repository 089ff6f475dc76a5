package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/bwesterb/go-ristretto/cref"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

// concurrent calls the bindings in goroutines that share operands. Nothing but
// their start and end synchronises them.
func concurrent(t *mon.T) {
	r := &t.Rng
	const n = 6
	type operands struct {
		f, p, q, s                                     [32]byte // encodings
		x                                              cref.Fe25519
		gp, gq                                         cref.GroupGe
		k                                              cref.GroupScalar
		packF, packS, add, neg, dbl, mul, ell, decoded [32]byte
	}
	sets := make([]operands, n)
	for i := range sets {
		o := &sets[i]
		p, q, _ := gen.Pair(r)
		b, _ := gen.Buf32(r)
		f := ref.FromBytes(&b)
		k, _ := gen.Scalar(r)
		o.f, o.p, o.q, o.s = f.Bytes(), p.Encode(), q.Encode(), ref.LE32(k)
		o.packF, o.packS, o.decoded = o.f, o.s, o.p
		add, neg, dbl := ref.PAdd(p, q), ref.PNeg(p), ref.PAdd(p, p)
		mul, ell := ref.PMul(k, p), ref.Map(f)
		o.add, o.neg, o.dbl, o.mul, o.ell = add.Encode(), neg.Encode(), dbl.Encode(), mul.Encode(), ell.Encode()
	}
	bad := make([]string, n)
	span := make([][2]time.Time, n)
	calls := make([]int64, n)
	phase := func(f func(g, k int)) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				span[g][0] = time.Now()
				for k := 0; k < 40; k++ {
					f(g, k)
				}
				span[g][1] = time.Now()
			}(g)
		}
		close(start)
		wg.Wait()
		for i := range span {
			for j := 0; j < i; j++ {
				if span[i][0].Before(span[j][1]) && span[j][0].Before(span[i][1]) {
					t.Count("go:overlap")
				}
			}
		}
	}
	// the first calls of the process make the operands, all goroutines the same ones
	made := make([]operands, n)
	phase(func(g, k int) {
		o := &sets[k%n]
		var m operands
		m.x.Unpack(&o.f)
		m.k.Unpack(&o.s)
		if m.gp.Unpack(&o.p) != 0 || m.gq.Unpack(&o.q) != 0 {
			bad[g] = fmt.Sprintf("Unpack rejects %x or %x", o.p, o.q)
		}
		if k%n == g {
			made[g] = m
		}
		var b [32]byte
		if m.gp.Pack(&b); b != o.decoded {
			bad[g] = fmt.Sprintf("%x comes back as %x", o.decoded, b)
		}
	})
	for i := range sets {
		sets[i].x, sets[i].k, sets[i].gp, sets[i].gq = made[i].x, made[i].k, made[i].gp, made[i].gq
	}
	phase(func(g, k int) {
		o := &sets[(g+k)%n]
		var b [32]byte
		var x cref.GroupGe
		is := func(what string, want [32]byte) {
			if x.Pack(&b); b != want {
				bad[g] = fmt.Sprintf("%s gave %x want %x", what, b, want)
			}
			calls[g]++
		}
		if o.x.Pack(&b); b != o.packF {
			bad[g] = fmt.Sprintf("Fe25519.Pack gave %x want %x", b, o.packF)
		}
		if o.k.Pack(&b); b != o.packS {
			bad[g] = fmt.Sprintf("GroupScalar.Pack gave %x want %x", b, o.packS)
		}
		x.Add(&o.gp, &o.gq)
		is("Add", o.add)
		x.Neg(&o.gp)
		is("Neg", o.neg)
		x.Double(&o.gp)
		is("Double", o.dbl)
		x.ScalarMult(&o.gp, &o.k)
		is("ScalarMult", o.mul)
		x.Elligator(&o.x)
		is("Elligator", o.ell)
		y := o.gp
		*x.X(), *x.Y(), *x.Z(), *x.T() = *y.X(), *y.Y(), *y.Z(), *y.T()
		is("coordinates", o.decoded)
	})
	for g := range bad {
		t.Assert(bad[g] == "", "goroutine %d of %d: %s", g, n, bad[g])
		t.CountN("go:concurrent", calls[g])
	}
	for i := range sets {
		t.Seen("concurrent", sets[i].p[:], sets[i].s[:])
	}
}
