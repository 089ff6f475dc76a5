package main

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C11"] = c11 }

type feOp struct {
	name  string
	arity int
	lazy  bool // also takes sums that were not carried yet
	run   func(r *sut.FE, a []*sut.FE) *sut.FE
	model func(a []ref.F) ref.F
}

var exp22523 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 252), big.NewInt(3))

var feOps = []feOp{
	{"Set", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Set(a[0]) }, func(a []ref.F) ref.F { return a[0] }},
	{"Neg", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Neg(a[0]) }, func(a []ref.F) ref.F { return ref.Neg(a[0]) }},
	{"Abs", 1, false, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Abs(a[0]) }, func(a []ref.F) ref.F { return ref.Abs(a[0]) }},
	{"Square", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Square(a[0]) }, func(a []ref.F) ref.F { return ref.Sq(a[0]) }},
	{"DoubledSquare", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.DoubledSquare(a[0]) },
		func(a []ref.F) ref.F { s := ref.Sq(a[0]); return ref.Add(s, s) }},
	{"Add", 2, false, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Add(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Add(a[0], a[1]) }},
	{"Sub", 2, false, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Sub(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Sub(a[0], a[1]) }},
	{"Mul", 2, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Mul(a[0], a[1]) }, func(a []ref.F) ref.F { return ref.Mul(a[0], a[1]) }},
	// the expensive ones are last
	{"Inverse", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Inverse(a[0]) }, func(a []ref.F) ref.F { return ref.Inv(a[0]) }},
	{"Exp22523", 1, true, func(r *sut.FE, a []*sut.FE) *sut.FE { return r.Exp22523(a[0]) }, func(a []ref.F) ref.F { return ref.Pow(a[0], exp22523) }},
}

// lazyFE is f as an uncarried sum or difference, when f has the shape that
// the exported API can produce (1+s^2 or 1-s^2).
func lazyFE(r *mon.Rng) (ref.F, sut.FE) {
	s, _ := gen.F(r)
	var cp ed.CompletedPoint
	jc := ed.JacobiPoint{S: sut.FEOf(s), T: sut.FEOf(ref.One)}
	cp.SetJacobiQuartic(&jc)
	if r.Bool() {
		return ref.Sub(ref.One, ref.Sq(s)), cp.Y
	}
	return ref.Add(ref.One, ref.Sq(s)), cp.T
}

// rawFE is the value of x in 32 bytes, exactly as the code writes them.
func rawFE(x *sut.FE) [32]byte { y := *x; return y.Bytes() }

func checkFE(t *mon.T, x *sut.FE, want ref.F, desc func() string) bool {
	t.Check()
	if got := rawFE(x); got != want.Bytes() {
		t.Fail("%s: got %x want %x (little endian)", desc(), got, want.Bytes())
		return false
	}
	return true
}

func applyFE(t *mon.T, op *feOp, pat []int, vals []ref.F, elts []sut.FE) {
	n := op.arity
	isOperand := make([]bool, n+1)
	args := make([]*sut.FE, n)
	in := make([]ref.F, n)
	for i := 0; i < n; i++ {
		k := pat[i+1]
		isOperand[k] = true
		args[i] = &elts[k]
		in[i] = vals[k]
	}
	if !isOperand[pat[0]] {
		elts[pat[0]] = sut.JunkFE(&t.Rng)
	}
	mems := make([][]byte, n+1)
	for k := range mems {
		mems[k] = sut.Mem(&elts[k])
	}
	r := &elts[pat[0]]
	ret := op.run(r, args)
	want := op.model(in)
	desc := func() string {
		s := op.name + " aliasing " + fmt.Sprint(pat)
		for i, v := range in {
			s += fmt.Sprintf(" arg%d=%x", i, v.Bytes())
		}
		return s
	}
	t.Assert(ret == r, "%s: does not return its receiver", desc())
	checkFE(t, r, want, desc)
	for k := range mems {
		if isOperand[k] && k != pat[0] && !sut.SameMem(&elts[k], mems[k]) {
			t.Fail("%s: operand was modified", desc())
		}
	}
	t.Count("op:" + op.name)
	t.Count(fmt.Sprintf("alias:%s%v", op.name, pat))
	if !want.IsZero() && want != in[0] {
		b0 := in[0].Bytes()
		bl := in[n-1].Bytes()
		t.Seen(op.name, fmt.Sprint(pat), b0[:], bl[:], mems[pat[1]])
	}
	t.Sample("%s -> %x", desc(), want.Bytes())
}

func c11(c *mon.Ctx) {
	feCase := func(t *mon.T, op *feOp, pat []int) {
		vals := make([]ref.F, op.arity+1)
		elts := make([]sut.FE, op.arity+1)
		for i := range vals {
			if op.lazy && t.Intn(4) == 0 {
				vals[i], elts[i] = lazyFE(&t.Rng)
				t.Count("class:lazy")
				continue
			}
			f, cl := gen.F(&t.Rng)
			vals[i], elts[i] = f, sut.FEStyle(&t.Rng, f)
			t.Count("class:" + cl)
		}
		applyFE(t, op, pat, vals, elts)
	}
	cheap := feOps[:8]
	c.Run("ring-operations", c.N(1200000, 40000000), func(t *mon.T) {
		op := &cheap[t.Index%len(cheap)]
		pats := parts[op.arity+1]
		feCase(t, op, pats[(t.Index/len(cheap))%len(pats)])
	})
	c.Run("powers", c.N(20000, 600000), func(t *mon.T) {
		op := &feOps[8+t.Index%2]
		pats := parts[op.arity+1]
		feCase(t, op, pats[(t.Index/2)%len(pats)])
	})
	// results pinned to the boundaries: a*b, a+b, a-b just around 0, p, 2^k
	c.Run("targeted-results", c.N(60000, 2000000), func(t *mon.T) {
		want, _ := gen.F(&t.Rng)
		a, _ := gen.F(&t.Rng)
		if a.IsZero() {
			a = ref.One
		}
		ops := []int{5, 6, 7}
		var b ref.F
		switch t.Index % 3 {
		case 0:
			b = ref.Sub(want, a)
		case 1:
			b = ref.Sub(a, want)
		case 2:
			b = ref.Mul(want, ref.Inv(a))
		}
		applyFE(t, &feOps[ops[t.Index%3]], []int{2, 0, 1}, []ref.F{a, b, {}},
			[]sut.FE{sut.FEStyle(&t.Rng, a), sut.FEStyle(&t.Rng, b), {}})
		t.Count("targeted")
	})
	// long chains without conversion in between: limbs wander through the
	// states the code itself produces
	c.Run("chains", c.N(40000, 1500000), func(t *mon.T) {
		var v [4]ref.F
		var x [4]sut.FE
		for i := range v {
			v[i], _ = gen.F(&t.Rng)
			x[i] = sut.FEStyle(&t.Rng, v[i])
		}
		for n := 0; n < 12; n++ {
			op := &cheap[t.Intn(len(cheap))]
			d, a, b := t.Intn(4), t.Intn(4), t.Intn(4)
			args := []*sut.FE{&x[a], &x[b]}[:op.arity]
			in := []ref.F{v[a], v[b]}[:op.arity]
			op.run(&x[d], args)
			v[d] = op.model(in)
			t.Trail("x%d = %s(x%d,x%d) = %x", d, op.name, a, b, v[d].Bytes())
		}
		for i := range v {
			checkFE(t, &x[i], v[i], func() string { return fmt.Sprintf("x%d after a chain", i) })
		}
		t.Count("chains")
	})
	// the same few operations over and over: limbs that grow a little each time
	c.Run("iterations", c.N(3000, 100000), func(t *mon.T) {
		var v [3]ref.F
		var x [3]sut.FE
		for i := range v {
			v[i], _ = gen.F(&t.Rng)
			x[i] = sut.FEStyle(&t.Rng, v[i])
		}
		type step struct{ op, d, a, b int }
		loop := make([]step, 1+t.Intn(3))
		for i := range loop {
			loop[i] = step{t.Intn(len(cheap)), t.Intn(2), t.Intn(3), t.Intn(3)}
		}
		last := 20 + t.Intn(280)
		for n := 0; n < last; n++ {
			k := loop[n%len(loop)]
			op := &cheap[k.op]
			op.run(&x[k.d], []*sut.FE{&x[k.a], &x[k.b]}[:op.arity])
			v[k.d] = op.model([]ref.F{v[k.a], v[k.b]}[:op.arity])
		}
		for i := range v {
			checkFE(t, &x[i], v[i], func() string {
				l := ""
				for _, k := range loop {
					l += fmt.Sprintf(" x%d = %s(x%d,x%d);", k.d, cheap[k.op].name, k.a, k.b)
				}
				return fmt.Sprintf("x%d after %d steps of%s", i, last, l)
			})
		}
		t.Count("iterations")
	})
	c.Require("iterations")
	c.Run("roots", c.N(24000, 800000), func(t *mon.T) {
		f, _ := gen.F(&t.Rng)
		sq := ref.IsSquare(f)
		if !sq && t.Bool() {
			f = ref.Sq(f)
			sq = true
		}
		x := sut.FEStyle(&t.Rng, f)
		m := sut.Mem(&x)
		alias := t.Bool()
		do := func(g func(r, a *sut.FE) int32) (sut.FE, int32) {
			if alias {
				r := x
				k := g(&r, &r)
				return r, k
			}
			r := sut.JunkFE(&t.Rng)
			a := x
			k := g(&r, &a)
			t.Assert(sut.SameMem(&a, m), "operand of a root was modified: %x", f.Bytes())
			return r, k
		}
		if !f.IsZero() {
			r, k := do(func(r, a *sut.FE) int32 { return r.InvSqrtI(a) })
			g := sut.FOf(&r)
			want := int32(0)
			tgt := ref.Mul(ref.SqrtM, f)
			if sq {
				want, tgt = 1, f
				t.Count("invsqrti-square")
			} else {
				t.Count("invsqrti-nonsquare")
			}
			t.Assert(k == want, "InvSqrtI(%x) returned %d, want %d", f.Bytes(), k, want)
			t.Assert(ref.Mul(ref.Sq(g), tgt) == ref.One, "InvSqrtI(%x) = %x is not an inverse root", f.Bytes(), g.Bytes())
		}
		if sq && !f.IsZero() {
			r, _ := do(func(r, a *sut.FE) int32 {
				if r.InvSqrt(a) != r {
					t.Fail("InvSqrt does not return its receiver")
				}
				return 0
			})
			g := sut.FOf(&r)
			t.Assert(ref.Mul(ref.Sq(g), f) == ref.One, "InvSqrt(%x) = %x", f.Bytes(), g.Bytes())
			t.Count("invsqrt")
		}
		if sq {
			r, _ := do(func(r, a *sut.FE) int32 {
				if r.Sqrt(a) != r {
					t.Fail("Sqrt does not return its receiver")
				}
				return 0
			})
			g := sut.FOf(&r)
			t.Assert(ref.Sq(g) == f && !g.IsNeg(), "Sqrt(%x) = %x", f.Bytes(), g.Bytes())
			t.Count("sqrt")
		}
		b := f.Bytes()
		t.Seen(b[:], m)
	})
	c.Run("conversions", c.N(200000, 6000000), func(t *mon.T) {
		buf, cl := gen.Buf32(&t.Rng)
		orig := buf
		want := ref.FromBytes(&buf)
		x := sut.JunkFE(&t.Rng)
		t.Assert(x.SetBytes(&buf) == &x, "SetBytes does not return its receiver")
		t.Assert(buf == orig, "SetBytes modified its input")
		checkFE(t, &x, want, func() string { return fmt.Sprintf("SetBytes(%x)", orig) })
		x = sut.FEStyle(&t.Rng, want)
		feQueries(t, x, want)
		lf, lx := lazyFE(&t.Rng)
		if t.Intn(4) == 0 {
			feQueries(t, lx, lf)
		}
		// big.Int
		k, _ := gen.Nat(&t.Rng, []int{100, 255, 256, 300, 600}[t.Intn(5)])
		if t.Intn(3) == 0 {
			k = new(big.Int).Mul(ref.PBig, big.NewInt(int64(t.Intn(9))))
			k.Add(k, big.NewInt(int64(t.Intn(7)-3)))
		}
		if t.Bool() {
			k = new(big.Int).Neg(k)
		}
		korig := new(big.Int).Set(k)
		y := sut.JunkFE(&t.Rng)
		t.Assert(y.SetBigInt(k) == &y, "SetBigInt does not return its receiver")
		t.Assert(k.Cmp(korig) == 0, "SetBigInt modified its operand")
		checkFE(t, &y, ref.FromBig(korig), func() string { return fmt.Sprintf("SetBigInt(%x)", korig) })
		t.Count("conv:" + cl)
		t.Seen(buf[:])
	})
	c.Run("byte-positions", 32*256, func(t *mon.T) {
		var b [32]byte
		b[t.Index/256] = byte(t.Index)
		var x sut.FE
		x.SetBytes(&b)
		want := ref.FromBytes(&b)
		checkFE(t, &x, want, func() string { return fmt.Sprintf("SetBytes(%x)", b) })
		feQueries(t, x, want)
		t.Count("byte-positions")
	})
	c.Run("constants", 1, func(t *mon.T) {
		x := sut.JunkFE(&t.Rng)
		t.Assert(x.SetZero() == &x, "SetZero")
		checkFE(t, &x, ref.Zero, func() string { return "SetZero" })
		t.Assert(x.SetOne() == &x, "SetOne")
		checkFE(t, &x, ref.One, func() string { return "SetOne" })
		t.Assert(x.SetI() == &x, "SetI")
		checkFE(t, &x, ref.SqrtM, func() string { return "SetI" })
		t.Count("constants")
	})
	c.Run("comparisons", c.N(200000, 6000000), func(t *mon.T) {
		f, _ := gen.F(&t.Rng)
		g := f
		cl := "same"
		switch t.Intn(4) {
		case 0:
			g, _ = gen.F(&t.Rng)
			cl = "other"
		case 1: // one bit of difference
			b := f.Bytes()
			b[t.Intn(32)] ^= byte(1 << uint(t.Intn(8)))
			g = ref.FromBytes(&b)
			cl = "one-bit"
		case 2:
			g = ref.Neg(f)
			cl = "negated"
		}
		x, y := sut.FEStyle(&t.Rng, f), sut.FEStyle(&t.Rng, g)
		mx, my := sut.Mem(&x), sut.Mem(&y)
		want := int32(0)
		if f == g {
			want = 1
		}
		t.Assert(x.EqualsI(&y) == want, "EqualsI(%x,%x) = %d", f.Bytes(), g.Bytes(), x.EqualsI(&y))
		t.Assert(x.Equals(&y) == (want == 1), "Equals(%x,%x) = %v", f.Bytes(), g.Bytes(), x.Equals(&y))
		t.Assert(x.EqualsI(&x) == 1, "x != x for %x", f.Bytes())
		t.Assert(sut.SameMem(&x, mx) && sut.SameMem(&y, my), "a comparison modified its operands")
		z := x
		b := int32(t.Intn(2))
		z.ConditionalSet(&y, b)
		w := f
		if b == 1 {
			w = g
		}
		checkFE(t, &z, w, func() string { return fmt.Sprintf("ConditionalSet(%x,%x,%d)", f.Bytes(), g.Bytes(), b) })
		t.Count("cmp:" + cl)
		fb, gb := f.Bytes(), g.Bytes()
		t.Seen(fb[:], gb[:])
	})
	for i := range feOps {
		for _, p := range parts[feOps[i].arity+1] {
			c.Require(fmt.Sprintf("alias:%s%v", feOps[i].name, p))
		}
	}
	c.Require("class:lazy", "class:near-p", "targeted", "chains", "invsqrti-square", "invsqrti-nonsquare",
		"invsqrt", "sqrt", "byte-positions", "constants", "cmp:same", "cmp:one-bit", "cmp:other", "cmp:negated")
}

func feQueries(t *mon.T, x sut.FE, want ref.F) {
	m := sut.Mem(&x)
	wb := want.Bytes()
	var b [32]byte
	copy(b[:], t.Bytes(32))
	t.Assert(x.BytesInto(&b) == &x, "BytesInto does not return its receiver")
	t.Assert(b == wb, "BytesInto wrote %x want %x", b, wb)
	t.Assert(x.Bytes() == wb, "Bytes returned %x want %x", x.Bytes(), wb)
	t.Assert(x.BigInt().Cmp(want.Big()) == 0, "BigInt returned %x want %x", x.BigInt(), want.Big())
	t.Assert(x.String() == want.Big().String(), "String returned %s want %s", x.String(), want.Big())
	bit := func(b bool) int32 {
		if b {
			return 1
		}
		return 0
	}
	t.Assert(x.IsNegativeI() == bit(want.IsNeg()), "IsNegativeI(%x) = %d", wb, x.IsNegativeI())
	t.Assert(x.IsNonZeroI() == bit(!want.IsZero()), "IsNonZeroI(%x) = %d", wb, x.IsNonZeroI())
	t.Assert(x.IsOneI() == bit(want == ref.One), "IsOneI(%x) = %d", wb, x.IsOneI())
	t.Assert(sut.SameMem(&x, m), "a query modified the field element %x", wb)
}
