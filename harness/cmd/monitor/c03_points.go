package main

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() {
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C07"] = c07
	props["C08"] = c08
}

func pmem(p *sut.Point) []byte { return sut.Mem(p) }

// C03: canonical encoding, independent of the representative.
func c03(c *mon.Ctx) {
	enc := func(t *mon.T, p *sut.Point, want [32]byte, what string) {
		m := pmem(p)
		b := t.Arr32()
		t.Assert(p.BytesInto(&b) == p, "BytesInto does not return its receiver")
		t.Assert(b == want, "%s: BytesInto wrote %x want %x", what, b, want)
		t.Assert(hexs(p.Bytes()) == hexs(want[:]), "%s: Bytes returned %x want %x", what, p.Bytes(), want)
		e := (*sut.EP)(p)
		b = t.Arr32()
		t.Assert(e.RistrettoInto(&b) == e && b == want, "%s: RistrettoInto wrote %x want %x", what, b, want)
		t.Assert(hexs(e.Ristretto()) == hexs(want[:]), "%s: Ristretto returned %x want %x", what, e.Ristretto(), want)
		t.Assert(sut.SameMem(p, m), "%s: encoding modified the point", what)
	}
	c.Run("representatives", c.N(16000, 500000), func(t *mon.T) {
		el, cl := gen.Element(&t.Rng)
		want := el.Encode()
		neg := ref.PNeg(el).Encode()
		for k := 0; k < 4; k++ {
			p := ref.PAdd(el, ref.Tors[k])
			if t.Intn(4) == 0 {
				p = p.Norm()
			}
			z := t.Arr32()
			if f := ref.FromBytes(&z); !f.IsZero() && t.Bool() {
				p = p.Scale(f)
			}
			if t.Intn(4) == 0 {
				f, _ := gen.F(&t.Rng)
				if !f.IsZero() {
					p = p.Scale(f)
				}
			}
			x := sut.PointStyle(&t.Rng, p)
			enc(t, &x, want, fmt.Sprintf("%s + torsion %d", cl, k))
			t.Count(fmt.Sprintf("torsion:%d", k))
			n := sut.PointStyle(&t.Rng, ref.PNeg(p))
			enc(t, &n, neg, fmt.Sprintf("-(%s + torsion %d)", cl, k))
		}
		// round trip
		var q sut.Point
		w := want
		if t.Assert(q.SetBytes(&w), "SetBytes rejects the encoding %x", want) {
			enc(t, &q, want, "decoded again")
			sut.JudgePoint(t, &q, el, "SetBytes(Bytes)")
		}
		if want != neg && want != ([32]byte{}) {
			t.Seen(want[:])
			t.Count("nonzero")
		} else {
			t.Count("zero")
		}
		t.Count("class:" + cl)
		t.Sample("element %x (%s)", want, cl)
	})
	// points as the code itself produces them, through different routes
	c.Run("produced", c.N(12000, 300000), func(t *mon.T) {
		k, _ := gen.Scalar(&t.Rng)
		s := sut.ScOf(k)
		want := ref.PMulBase(k).Encode()
		var a, b, d, e, f, z, h, o sut.Point
		z.SetZero()
		b.SetBase()
		a.ScalarMultBase(&s)
		d.ScalarMult(&b, &s)
		e.PublicScalarMult(&b, &s)
		f.PublicScalarMultBase(&s)
		h.Sub(&a, &b)
		h.Add(&h, &b)
		var n sut.Sc
		n.Neg(&s)
		o.ScalarMultBase(&n)
		o.Neg(&o)
		z.Add(&z, &a)
		for i, p := range []*sut.Point{&a, &d, &e, &f, &h, &o, &z} {
			enc(t, p, want, fmt.Sprintf("route %d to %x*B", i, k))
		}
		t.Count("produced")
		t.Seen(k.Bytes())
	})
	c.Require("torsion:0", "torsion:1", "torsion:2", "torsion:3", "zero", "nonzero", "produced", "class:identity")
}

// C04: decoding accepts exactly the canonical encodings.
func c04(c *mon.Ctx) {
	decode := func(t *mon.T, b [32]byte, what string) {
		orig := b
		want, ok := ref.Decode(&b)
		p := sut.JunkPoint(&t.Rng)
		m := pmem(&p)
		got := p.SetBytes(&b)
		t.Assert(b == orig, "SetBytes modified its input")
		if !t.Assert(got == ok, "SetBytes(%x) [%s] returned %v, want %v", orig, what, got, ok) {
			return
		}
		e := junkEP(&t.Rng)
		t.Assert(e.SetRistretto(&b) == ok, "SetRistretto(%x) [%s]: want %v", orig, what, ok)
		var u sut.Point
		err := u.UnmarshalBinary(orig[:])
		t.Assert((err == nil) == ok, "UnmarshalBinary(%x) [%s]: %v, want ok=%v", orig, what, err, ok)
		if ok {
			sut.JudgePoint(t, &p, want, "SetBytes("+hexs(orig[:])+")")
			sut.JudgePoint(t, &u, want, "UnmarshalBinary("+hexs(orig[:])+")")
			t.Assert(hexs(p.Bytes()) == hexs(orig[:]), "SetBytes(%x) then Bytes gives %x", orig, p.Bytes())
			t.Count("accepted")
		} else {
			// a rejected string must not yield a point
			if !sut.SameMem(&p, m) {
				t.Assert(!sut.POfPoint(&p).Valid(), "SetBytes(%x) rejected the string, but left the valid point %s behind", orig, sut.PStr(sut.POfPoint(&p)))
			}
			t.Count("rejected")
		}
		t.Count("what:" + what)
		t.Seen(orig[:])
		t.Sample("%s %x -> %v", what, orig, ok)
	}
	c.Run("strings", c.N(120000, 4000000), func(t *mon.T) {
		b, cl := gen.Buf32(&t.Rng)
		if t.Bool() {
			b[0] &= 0xfe
			cl = "even:" + cl
		}
		if t.Bool() {
			b[31] &= 0x7f
		}
		decode(t, b, "string")
		t.Count("class:" + cl)
	})
	// near misses: valid encodings, tampered with
	c.Run("tampered", c.N(20000, 600000), func(t *mon.T) {
		el, _ := gen.Element(&t.Rng)
		s := el.Encode()
		decode(t, s, "valid")
		x := s
		x[31] |= 0x80
		decode(t, x, "valid-with-top-bit")
		f := ref.FromBytes(&s)
		decode(t, ref.Neg(f).Bytes(), "negated")
		v := new(big.Int).Add(f.Big(), ref.PBig)
		if v.BitLen() <= 256 {
			decode(t, ref.LE32(v), "plus-p")
		}
		x = s
		x[t.Intn(32)] ^= byte(1 << uint(t.Intn(8)))
		decode(t, x, "bit-flipped")
		x = s
		x[t.Intn(32)] = byte(t.U64())
		x[0] &= 0xfe
		x[31] &= 0x7f
		decode(t, x, "byte-changed")
	})
	// small non-canonical values 2^255-19 <= v < 2^256, and all small ones
	c.Run("small-and-noncanonical", 1600, func(t *mon.T) {
		switch {
		case t.Index < 400:
			decode(t, ref.LE32(big.NewInt(int64(t.Index))), "small")
		case t.Index < 800:
			v := new(big.Int).Sub(ref.PBig, big.NewInt(200))
			v.Add(v, big.NewInt(int64(t.Index-400)))
			decode(t, ref.LE32(v), "around-p")
		case t.Index < 1200:
			v := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(t.Index-799)))
			decode(t, ref.LE32(v), "below-2^256")
		default:
			f := ref.FromBig(big.NewInt(int64(t.Index - 1200)))
			v := new(big.Int).Add(f.Big(), new(big.Int).Lsh(big.NewInt(1), 255))
			decode(t, ref.LE32(v), "small+2^255")
		}
	})
	// known bad classes of RFC 9496 appendix A.3: non-square, negative xy, y=0
	c.Run("curve-rejections", c.N(20000, 600000), func(t *mon.T) {
		f, _ := gen.F(&t.Rng)
		s := ref.Abs(f)
		b := s.Bytes()
		decode(t, b, "non-negative-canonical")
		decode(t, ref.MOne.Bytes(), "minus-one")
		ss := ref.Sq(s)
		u1, u2 := ref.Sub(ref.One, ss), ref.Add(ref.One, ss)
		v := ref.Sub(ref.Neg(ref.Mul(ref.D, ref.Sq(u1))), ref.Sq(u2))
		if !ref.IsSquare(ref.Mul(v, ref.Sq(u2))) {
			t.Count("reject:nonsquare")
		} else if _, ok := ref.Decode(&b); !ok {
			t.Count("reject:negative-t-or-zero-y")
		}
	})
	c.Require("accepted", "rejected", "what:valid", "what:valid-with-top-bit", "what:negated", "what:plus-p",
		"what:bit-flipped", "what:small", "what:around-p", "what:below-2^256", "what:small+2^255",
		"reject:nonsquare", "reject:negative-t-or-zero-y", "what:minus-one")
}

type ptOp struct {
	name  string
	arity int
	run   func(r *sut.Point, a []*sut.Point) *sut.Point
	model func(a []ref.P) ref.P
}

func ep(p *sut.Point) *sut.EP { return (*sut.EP)(p) }

var ptOps = []ptOp{
	{"Set", 1, func(r *sut.Point, a []*sut.Point) *sut.Point { return r.Set(a[0]) }, func(a []ref.P) ref.P { return a[0] }},
	{"Neg", 1, func(r *sut.Point, a []*sut.Point) *sut.Point { return r.Neg(a[0]) }, func(a []ref.P) ref.P { return ref.PNeg(a[0]) }},
	{"Double", 1, func(r *sut.Point, a []*sut.Point) *sut.Point { return r.Double(a[0]) }, func(a []ref.P) ref.P { return ref.PAdd(a[0], a[0]) }},
	{"Add", 2, func(r *sut.Point, a []*sut.Point) *sut.Point { return r.Add(a[0], a[1]) }, func(a []ref.P) ref.P { return ref.PAdd(a[0], a[1]) }},
	{"Sub", 2, func(r *sut.Point, a []*sut.Point) *sut.Point { return r.Sub(a[0], a[1]) }, func(a []ref.P) ref.P { return ref.PSub(a[0], a[1]) }},
}

func applyPt(t *mon.T, op *ptOp, pat []int, vals []ref.P, objs []sut.Point) {
	n := op.arity
	isOperand := make([]bool, n+1)
	args := make([]*sut.Point, n)
	in := make([]ref.P, n)
	for i := 0; i < n; i++ {
		k := pat[i+1]
		isOperand[k] = true
		args[i] = &objs[k]
		in[i] = vals[k]
	}
	if !isOperand[pat[0]] {
		objs[pat[0]] = sut.JunkPoint(&t.Rng)
	}
	mems := make([][]byte, n+1)
	for k := range mems {
		mems[k] = pmem(&objs[k])
	}
	r := &objs[pat[0]]
	ret := op.run(r, args)
	want := op.model(in)
	desc := op.name + fmt.Sprint(pat)
	for _, v := range in {
		t.Trail("operand %s", sut.PStr(v))
	}
	t.Assert(ret == r, "%s: does not return its receiver", desc)
	sut.JudgePoint(t, r, want, desc)
	for k := range mems {
		if isOperand[k] && k != pat[0] {
			t.Assert(sut.SameMem(&objs[k], mems[k]), "%s: operand was modified", desc)
		}
	}
	t.Count("op:" + op.name)
	t.Count(fmt.Sprintf("alias:%s%v", op.name, pat))
	if !want.X.IsZero() && !want.Y.IsZero() {
		t.Seen(op.name, mems[pat[1]], mems[pat[n]])
	}
	if t.Index < 2 {
		t.Sample("%s on %x -> %x", desc, in[0].Encode(), want.Encode())
	}
}

// C05: the group law.
func c05(c *mon.Ctx) {
	c.Run("operations", c.N(60000, 2000000), func(t *mon.T) {
		op := &ptOps[t.Index%len(ptOps)]
		pats := parts[op.arity+1]
		pat := pats[(t.Index/len(ptOps))%len(pats)]
		p, q, cl := gen.Pair(&t.Rng)
		vals := []ref.P{p, q, ref.Ident}[:op.arity+1]
		objs := make([]sut.Point, op.arity+1)
		for i := range objs {
			objs[i] = sut.PointStyle(&t.Rng, vals[i])
		}
		// make sure both values are used, whatever the pattern
		if t.Bool() && op.arity == 2 {
			vals[0], vals[1] = vals[1], vals[0]
			objs[0], objs[1] = objs[1], objs[0]
		}
		if pat[1] == 2 || (op.arity == 2 && pat[2] == 2) { // operand in the third object
			vals[2], _ = gen.Point(&t.Rng)
			if t.Bool() {
				vals[2] = gen.Represent(&t.Rng, vals[pat[1]%2])
			}
			objs[2] = sut.PointStyle(&t.Rng, vals[2])
		}
		applyPt(t, op, pat, vals, objs)
		t.Count("pair:" + cl)
	})
	// associativity, commutativity, inverses, order, on points the code made
	c.Run("axioms", c.N(12000, 400000), func(t *mon.T) {
		var rp [3]ref.P
		var p [3]sut.Point
		for i := range p {
			rp[i], _ = gen.Point(&t.Rng)
			p[i] = sut.PointStyle(&t.Rng, rp[i])
		}
		var x, y, z sut.Point
		eq := func(a, b *sut.Point, law string) {
			t.Assert(hexs(a.Bytes()) == hexs(b.Bytes()), "%s fails: %x vs %x", law, a.Bytes(), b.Bytes())
			t.Assert(ref.Same(sut.POfPoint(a), sut.POfPoint(b)), "%s fails (coordinates)", law)
		}
		x.Add(&p[0], &p[1])
		x.Add(&x, &p[2])
		y.Add(&p[1], &p[2])
		y.Add(&p[0], &y)
		eq(&x, &y, "associativity")
		sut.JudgePoint(t, &x, ref.PAdd(ref.PAdd(rp[0], rp[1]), rp[2]), "a+b+c")
		x.Add(&p[0], &p[1])
		y.Add(&p[1], &p[0])
		eq(&x, &y, "commutativity")
		x.Sub(&p[0], &p[1])
		y.Neg(&p[1])
		y.Add(&p[0], &y)
		eq(&x, &y, "a-b = a+(-b)")
		z.SetZero()
		x.Add(&p[0], &z)
		eq(&x, &p[0], "a+0 = a")
		x.Sub(&p[0], &p[0])
		eq(&x, &z, "a-a = 0")
		t.Assert(hexs(x.Bytes()) == hexs(make([]byte, 32)), "a-a does not encode as zeroes: %x", x.Bytes())
		x.Double(&p[0])
		y.Add(&p[0], &p[0])
		eq(&x, &y, "2a = a+a")
		x.Neg(&p[0])
		x.Neg(&x)
		eq(&x, &p[0], "-(-a) = a")
		t.Count("axioms")
	})
	// long walks without any normalization in between
	c.Run("walks", c.N(600, 20000), func(t *mon.T) {
		var v [3]ref.P
		var p [3]sut.Point
		for i := range v {
			v[i], _ = gen.Point(&t.Rng)
			p[i] = sut.PointStyle(&t.Rng, v[i])
		}
		for n := 0; n < 60; n++ {
			op := &ptOps[t.Intn(len(ptOps))]
			d, a, b := t.Intn(3), t.Intn(3), t.Intn(3)
			op.run(&p[d], []*sut.Point{&p[a], &p[b]}[:op.arity])
			v[d] = op.model([]ref.P{v[a], v[b]}[:op.arity])
			if !sut.JudgePoint(t, &p[d], v[d], fmt.Sprintf("step %d: p%d = %s(p%d,p%d)", n, d, op.name, a, b)) {
				return
			}
		}
		t.Count("walks")
	})
	// the same few operations over and over
	c.Run("iterations", c.N(300, 10000), func(t *mon.T) {
		var v [3]ref.P
		var p [3]sut.Point
		for i := range v {
			v[i], _ = gen.Point(&t.Rng)
			p[i] = sut.PointStyle(&t.Rng, v[i])
		}
		type step struct{ op, d, a, b int }
		loop := make([]step, 1+t.Intn(3))
		for i := range loop {
			loop[i] = step{t.Intn(len(ptOps)), t.Intn(2), t.Intn(3), t.Intn(3)}
		}
		for n := 0; n < 300; n++ {
			k := loop[n%len(loop)]
			op := &ptOps[k.op]
			op.run(&p[k.d], []*sut.Point{&p[k.a], &p[k.b]}[:op.arity])
			v[k.d] = op.model([]ref.P{v[k.a], v[k.b]}[:op.arity])
			if n%25 == 24 && !sut.JudgePoint(t, &p[k.d], v[k.d], fmt.Sprintf("step %d: p%d = %s(p%d,p%d)", n, k.d, op.name, k.a, k.b)) {
				return
			}
		}
		t.Count("iterations")
	})
	c.Require("iterations")
	c.Run("constants", 4, func(t *mon.T) {
		p := sut.JunkPoint(&t.Rng)
		t.Assert(p.SetZero() == &p, "SetZero does not return its receiver")
		sut.JudgePoint(t, &p, ref.Ident, "SetZero")
		t.Assert(hexs(p.Bytes()) == hexs(make([]byte, 32)), "zero encodes as %x", p.Bytes())
		p = sut.JunkPoint(&t.Rng)
		t.Assert(p.SetBase() == &p, "SetBase does not return its receiver")
		sut.JudgePoint(t, &p, ref.B, "SetBase")
		w := ref.B.Encode()
		t.Assert(hexs(p.Bytes()) == hexs(w[:]), "base encodes as %x", p.Bytes())
		t.Count("constants")
	})
	for i := range ptOps {
		for _, p := range parts[ptOps[i].arity+1] {
			c.Require(fmt.Sprintf("alias:%s%v", ptOps[i].name, p))
		}
	}
	c.Require("axioms", "walks", "constants", "pair:equal", "pair:opposite", "pair:with-identity", "pair:double")
}

// C07: equality decisions.
func c07(c *mon.Ctx) {
	b2i := func(b bool) int32 {
		if b {
			return 1
		}
		return 0
	}
	c.Run("points", c.N(60000, 2000000), func(t *mon.T) {
		p, q, cl := gen.Pair(&t.Rng)
		want := ref.Same(p, q)
		x, y := sut.PointStyle(&t.Rng, p), sut.PointStyle(&t.Rng, q)
		mx, my := pmem(&x), pmem(&y)
		t.Trail("p=%s q=%s", sut.PStr(p), sut.PStr(q))
		t.Assert(x.Equals(&y) == want, "Equals = %v want %v (%s)", x.Equals(&y), want, cl)
		t.Assert(y.Equals(&x) == want, "Equals is not symmetric (%s)", cl)
		t.Assert(x.EqualsI(&y) == b2i(want), "EqualsI = %d want %v (%s)", x.EqualsI(&y), want, cl)
		t.Assert(ep(&x).RistrettoEqualsI(ep(&y)) == b2i(want), "RistrettoEqualsI = %d want %v (%s)", ep(&x).RistrettoEqualsI(ep(&y)), want, cl)
		t.Assert(x.Equals(&x) && x.EqualsI(&x) == 1, "a point differs from itself (%s)", cl)
		t.Assert((hexs(x.Bytes()) == hexs(y.Bytes())) == want, "equality and encodings disagree (%s)", cl)
		t.Assert(sut.SameMem(&x, mx) && sut.SameMem(&y, my), "comparison modified a point")
		t.Count(fmt.Sprintf("points:%v", want))
		t.Count("pair:" + cl)
		t.Seen(mx, my)
		t.Sample("%x == %x: %v", p.Encode(), q.Encode(), want)
	})
	// all pairs of representatives of the same and of close elements
	c.Run("representatives", c.N(2000, 60000), func(t *mon.T) {
		el, _ := gen.Element(&t.Rng)
		others := []ref.P{el, ref.PNeg(el), ref.PAdd(el, ref.B), ref.PAdd(el, el), ref.Ident}
		for i, o := range others {
			for k := 0; k < 4; k++ {
				q := ref.PAdd(o, ref.Tors[k])
				want := ref.Same(el, q)
				x, y := sut.PointStyle(&t.Rng, gen.Represent(&t.Rng, el)), sut.PointStyle(&t.Rng, q)
				t.Assert(x.Equals(&y) == want, "Equals(el, other %d + torsion %d) = %v want %v; el=%s other=%s", i, k, x.Equals(&y), want, sut.PStr(el), sut.PStr(q))
				t.Assert(x.EqualsI(&y) == b2i(want), "EqualsI(el, other %d + torsion %d) want %v; el=%s", i, k, want, sut.PStr(el))
				t.Count(fmt.Sprintf("reps:%v", want))
			}
		}
		b := el.Encode()
		t.Seen(b[:])
	})
	c.Run("scalars", c.N(200000, 6000000), func(t *mon.T) {
		a, _ := gen.Scalar(&t.Rng)
		b := a
		cl := "same"
		switch t.Intn(3) {
		case 0:
			b, _ = gen.Scalar(&t.Rng)
			cl = "other"
		case 1:
			bb := ref.LE32(a)
			bit := t.Index % 253
			bb[bit/8] ^= 1 << uint(bit%8)
			b = ref.FromLE(bb[:])
			cl = "one-bit"
			if b.Cmp(ref.LBig) >= 0 {
				b = ref.ModL(b)
			}
			t.Count(fmt.Sprintf("bit:%d", bit))
		}
		x, y := sut.ScOf(a), sut.ScOf(b)
		want := a.Cmp(b) == 0
		t.Assert(x.Equals(&y) == want && y.Equals(&x) == want, "Scalar.Equals(%x,%x) = %v", a, b, x.Equals(&y))
		t.Assert(x.EqualsI(&y) == b2i(want) && y.EqualsI(&x) == b2i(want), "Scalar.EqualsI(%x,%x) = %d", a, b, x.EqualsI(&y))
		t.Assert(x.EqualsI(&x) == 1, "a scalar differs from itself")
		t.Assert(x.IsNonZeroI() == b2i(a.Sign() != 0), "IsNonZeroI(%x) = %d", a, x.IsNonZeroI())
		t.Assert(x == sut.ScOf(a) && y == sut.ScOf(b), "comparison modified a scalar")
		t.Count("scalars:" + cl)
		t.Seen(a.Bytes(), b.Bytes())
	})
	// every single bit matters
	c.Run("single-bits", 253, func(t *mon.T) {
		v := ref.ModL(new(big.Int).Lsh(big.NewInt(1), uint(t.Index)))
		x := sut.ScOf(v)
		var z sut.Sc
		t.Assert(x.IsNonZeroI() == 1, "IsNonZeroI(2^%d) = %d", t.Index, x.IsNonZeroI())
		t.Assert(z.IsNonZeroI() == 0, "IsNonZeroI(0) = %d", z.IsNonZeroI())
		t.Assert(x.EqualsI(&z) == 0 && z.EqualsI(&x) == 0 && !x.Equals(&z) && !z.Equals(&x), "2^%d == 0", t.Index)
		t.Count("single-bits")
		t.Seen(v.Bytes())
	})
	c.Require("points:true", "points:false", "reps:true", "reps:false", "scalars:same", "scalars:one-bit", "scalars:other", "single-bits",
		"pair:equal", "pair:opposite", "pair:with-identity")
}

// C08: conditional assignment is all or nothing.
func c08(c *mon.Ctx) {
	// receiver and operand differ in every word in every possible way over
	// the run; b=1 takes all of it, b=0 nothing.
	c.Run("points", c.N(100000, 3000000), func(t *mon.T) {
		p, q, cl := gen.Pair(&t.Rng)
		x, y := sut.PointStyle(&t.Rng, p), sut.PointStyle(&t.Rng, q)
		if t.Intn(3) == 0 { // any memory contents must be moved
			x, y = sut.JunkPoint(&t.Rng), sut.JunkPoint(&t.Rng)
			cl = "raw"
		}
		ox, oy := x, y
		b := int32(t.Intn(2))
		if t.Bool() {
			x.ConditionalSet(&y, b)
		} else {
			e := ep(&x)
			t.Assert(e.ConditionalSet(ep(&y), b) == e, "ExtendedPoint.ConditionalSet does not return its receiver")
		}
		want := ox
		if b == 1 {
			want = oy
		}
		same := x == want
		if !same { // other limbs would do, as long as all coordinates agree
			same = sut.POfPoint(&x) == sut.POfPoint(&want)
		}
		t.Assert(same, "ConditionalSet(b=%d) on points (%s): got %s want %s", b, cl, sut.PStr(sut.POfPoint(&x)), sut.PStr(sut.POfPoint(&want)))
		t.Assert(y == oy, "ConditionalSet modified its operand")
		y.ConditionalSet(&y, b)
		t.Assert(sut.POfPoint(&y) == sut.POfPoint(&oy), "p.ConditionalSet(p, %d) changed p", b)
		t.Count(fmt.Sprintf("points:b=%d", b))
		t.Count("pair:" + cl)
		t.Seen(pmem(&ox), pmem(&oy), b)
		t.Sample("b=%d: %s <- %s", b, sut.PStr(sut.POfPoint(&ox)), sut.PStr(sut.POfPoint(&oy)))
	})
	c.Run("scalars", c.N(200000, 6000000), func(t *mon.T) {
		a, _ := gen.Scalar(&t.Rng)
		d, _ := gen.Scalar(&t.Rng)
		x, y := sut.ScOf(a), sut.ScOf(d)
		if t.Intn(4) == 0 { // one bit of difference
			y = x
			y[t.Intn(8)] ^= 1 << uint(t.Intn(32))
		}
		ox, oy := x, y
		b := int32(t.Intn(2))
		x.ConditionalSet(&y, b)
		want := ox
		if b == 1 {
			want = oy
		}
		t.Assert(x == want, "Scalar.ConditionalSet(b=%d): %x <- %x gave %x", b, ox, oy, x)
		t.Assert(y == oy, "Scalar.ConditionalSet modified its operand")
		y.ConditionalSet(&y, b)
		t.Assert(y == oy, "s.ConditionalSet(s, %d) changed s", b)
		t.Count(fmt.Sprintf("scalars:b=%d", b))
		t.Seen(sut.Mem(&ox), sut.Mem(&oy), b)
	})
	c.Run("field-and-niels", c.N(200000, 6000000), func(t *mon.T) {
		f, _ := gen.F(&t.Rng)
		g, _ := gen.F(&t.Rng)
		x, y := sut.FEStyle(&t.Rng, f), sut.FEStyle(&t.Rng, g)
		oy := y
		b := int32(t.Intn(2))
		x.ConditionalSet(&y, b)
		want := f
		if b == 1 {
			want = g
		}
		t.Assert(sut.FOf(&x) == want, "FieldElement.ConditionalSet(b=%d): %x <- %x gave %x", b, f.Bytes(), g.Bytes(), rawFE(&x))
		t.Assert(y == oy, "FieldElement.ConditionalSet modified its operand")
		var n, m niels
		for i := range n.v {
			n.v[i], _ = gen.F(&t.Rng)
			m.v[i], _ = gen.F(&t.Rng)
		}
		np, mp := n.sut(), m.sut()
		omp := mp
		t.Assert(np.ConditionalSet(&mp, b) == &np, "NielsPoint.ConditionalSet does not return its receiver")
		w := n
		if b == 1 {
			w = m
		}
		t.Assert(nielsOf(&np) == w, "NielsPoint.ConditionalSet(b=%d) is not all or nothing", b)
		t.Assert(mp == omp, "NielsPoint.ConditionalSet modified its operand")
		t.Count(fmt.Sprintf("field:b=%d", b))
		t.Seen(sut.Mem(&x), sut.Mem(&oy), b)
	})
	// any limbs, also wider than reduced ones
	c.Run("loose", c.N(200000, 6000000), func(t *mon.T) {
		var x, y [4]sut.FE
		for i := range x {
			x[i], y[i] = sut.LooseFE(&t.Rng), sut.LooseFE(&t.Rng)
			if t.Intn(8) == 0 {
				y[i] = x[i]
			}
		}
		ox, oy := x, y
		b := int32(t.Intn(2))
		kind := t.Intn(4)
		n := 4
		switch kind {
		case 0:
			n = 1
			x[0].ConditionalSet(&y[0], b)
		case 1:
			n = 3
			np := ed.NielsPoint{YPlusX: x[0], YMinusX: x[1], XY2D: x[2]}
			mp := ed.NielsPoint{YPlusX: y[0], YMinusX: y[1], XY2D: y[2]}
			np.ConditionalSet(&mp, b)
			x[0], x[1], x[2] = np.YPlusX, np.YMinusX, np.XY2D
			y[0], y[1], y[2] = mp.YPlusX, mp.YMinusX, mp.XY2D
		case 2:
			pp := sut.EP{X: x[0], Y: x[1], Z: x[2], T: x[3]}
			qq := sut.EP{X: y[0], Y: y[1], Z: y[2], T: y[3]}
			pp.ConditionalSet(&qq, b)
			x = [4]sut.FE{pp.X, pp.Y, pp.Z, pp.T}
			y = [4]sut.FE{qq.X, qq.Y, qq.Z, qq.T}
		case 3:
			pp := sut.Point{X: x[0], Y: x[1], Z: x[2], T: x[3]}
			qq := sut.Point{X: y[0], Y: y[1], Z: y[2], T: y[3]}
			pp.ConditionalSet(&qq, b)
			x = [4]sut.FE{pp.X, pp.Y, pp.Z, pp.T}
			y = [4]sut.FE{qq.X, qq.Y, qq.Z, qq.T}
		}
		want := ox
		if b == 1 {
			want = oy
		}
		for i := 0; i < n; i++ {
			same := x[i] == want[i]
			if !same && b == 1 { // other limbs would do
				g, ok := sut.Limbs(&x[i])
				w, _ := sut.Limbs(&want[i])
				same = !ok || g.Cmp(w) == 0
			}
			t.Assert(same, "ConditionalSet(b=%d) kind %d coordinate %d: %x <- %x gave %x", b, kind, i, ox[i], oy[i], x[i])
			t.Assert(y[i] == oy[i], "ConditionalSet modified its operand")
		}
		t.Count("loose")
		t.Seen(sut.Mem(&ox), sut.Mem(&oy), b)
	})
	c.Require("loose", "points:b=0", "points:b=1", "scalars:b=0", "scalars:b=1", "field:b=0", "field:b=1", "pair:raw", "pair:equal")
}
