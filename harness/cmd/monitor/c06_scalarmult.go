package main

import (
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C06"] = c06 }

// signedDigits is a number with hostile digits in a signed radix 2^w
// expansion, reduced mod l.
func signedDigits(r *mon.Rng, w int) *big.Int {
	x := new(big.Int)
	half := int64(1) << uint(w-1)
	mode := r.Intn(5)
	for i := 252/w + 1; i >= 0; i-- {
		x.Lsh(x, uint(w))
		var d int64
		switch k := r.Intn(8); {
		case mode == 0 && k < 6, k == 0:
			d = 0
		case mode == 1 && k < 6, k == 1:
			d = half
		case mode == 2 && k < 6, k == 2:
			d = -half
		case mode == 3 && k < 6, k == 3:
			d = half - 1
		case k == 4:
			d = -half + 1
		default:
			d = int64(r.Intn(1<<uint(w))) - half
		}
		x.Add(x, big.NewInt(d))
	}
	return ref.ModL(x)
}

func hostileMultiplier(r *mon.Rng) (*big.Int, string) {
	switch r.Intn(6) {
	case 0:
		return signedDigits(r, 4), "signed-radix-16"
	case 1:
		return signedDigits(r, 5), "signed-radix-32"
	case 2: // naf-like: odd digits with gaps
		x := new(big.Int)
		for p := r.Intn(8); p < 252; p += 5 + r.Intn(60) {
			d := big.NewInt(int64(2*r.Intn(16) - 15))
			x.Add(x, d.Lsh(d, uint(p)))
		}
		return ref.ModL(x), "naf-gaps"
	}
	return gen.Scalar(r)
}

// mulAll checks every way to multiply q by k.
func mulAll(t *mon.T, q ref.P, tab *ristretto.ScalarMultTable, k *big.Int, want ref.P, isBase bool, enc bool) {
	s := sut.ScOf(k)
	os := s
	x := sut.PointStyle(&t.Rng, q)
	ox := x
	t.Trail("k=%x q=%s", k, sut.PStr(q))
	we := want.Encode()
	judge := func(name string, ret, p *sut.Point) {
		t.Assert(ret == p, "%s does not return its receiver", name)
		sut.JudgePoint(t, p, want, name)
		if enc {
			t.Assert(hexs(p.Bytes()) == hexs(we[:]), "%s: encodes as %x want %x", name, p.Bytes(), we)
		}
		t.Assert(s == os, "%s modified the scalar", name)
		t.Count("variant:" + name)
	}
	p := sut.JunkPoint(&t.Rng)
	judge("ScalarMult", p.ScalarMult(&x, &s), &p)
	t.Assert(x == ox, "ScalarMult modified its operand")
	p = sut.JunkPoint(&t.Rng)
	judge("PublicScalarMult", p.PublicScalarMult(&x, &s), &p)
	t.Assert(x == ox, "PublicScalarMult modified its operand")
	p = x
	judge("ScalarMult-aliased", p.ScalarMult(&p, &s), &p)
	p = x
	judge("PublicScalarMult-aliased", p.PublicScalarMult(&p, &s), &p)
	if isBase {
		p = sut.JunkPoint(&t.Rng)
		judge("ScalarMultBase", p.ScalarMultBase(&s), &p)
		p = sut.JunkPoint(&t.Rng)
		judge("PublicScalarMultBase", p.PublicScalarMultBase(&s), &p)
	}
	if tab != nil {
		p = sut.JunkPoint(&t.Rng)
		judge("ScalarMultTable", p.ScalarMultTable(tab, &s), &p)
		p = sut.JunkPoint(&t.Rng)
		judge("PublicScalarMultTable", p.PublicScalarMultTable(tab, &s), &p)
	}
	if k.Sign() != 0 && !want.X.IsZero() && !want.Y.IsZero() {
		t.Seen(k.Bytes(), sut.Mem(&x))
	}
}

func c06(c *mon.Ctx) {
	// one table for the base point and a few for hostile points, with the
	// model table next to it
	type tp struct {
		q   ref.P
		tab *ristretto.ScalarMultTable
		ref *ref.Table
		cl  string
	}
	r := mon.NewRng(c.Seed*77 + 5)
	tabs := make([]tp, c.N(24, 200))
	ok := true
	runTables := c.RunSeq
	if c.Guided() {
		runTables = func(string, int, func(*mon.T)) {}
	}
	runTables("tables", len(tabs), func(t *mon.T) {
		var e tp
		switch t.Index {
		case 0:
			e.q, e.cl = ref.B, "B"
		case 1, 2, 3, 4:
			e.q, e.cl = ref.Tors[t.Index-1], "identity"
		default:
			e.q, e.cl = gen.Point(r)
		}
		x := sut.PointStyle(&t.Rng, e.q)
		ox := x
		e.tab = new(ristretto.ScalarMultTable)
		e.tab.Compute(&x)
		t.Assert(x == ox, "Compute modified its operand")
		e.ref = ref.NewTable(e.q)
		tabs[t.Index] = e
		t.Count("table:" + e.cl)
		if t.Failed() {
			ok = false
		}
	})
	if c.Guided() || c.Only != "" && c.Only != "tables" { // replay needs the tables
		for i := range tabs {
			var e tp
			switch i {
			case 0:
				e.q = ref.B
			case 1, 2, 3, 4:
				e.q = ref.Tors[i-1]
			default:
				e.q, _ = gen.Point(r)
			}
			x := sut.PointOf(e.q)
			e.tab = new(ristretto.ScalarMultTable)
			e.tab.Compute(&x)
			e.ref = ref.NewTable(e.q)
			tabs[i] = e
		}
	}
	if !ok {
		return
	}
	// every digit in every position, in radix 16 and 32, for the base point
	c.Run("single-digits-base", 64*16+52*32, func(t *mon.T) {
		var k *big.Int
		if t.Index < 64*16 {
			k = big.NewInt(int64(t.Index % 16))
			k.Lsh(k, uint(4*(t.Index/16)))
		} else {
			i := t.Index - 64*16
			k = big.NewInt(int64(i % 32))
			k.Lsh(k, uint(5*(i/32)))
		}
		k = ref.ModL(k)
		mulAll(t, ref.B, tabs[0].tab, k, tabs[0].ref.Mul(k), true, true)
		n := ref.ModL(new(big.Int).Neg(k))
		mulAll(t, ref.B, nil, n, tabs[0].ref.Mul(n), true, false)
		t.Count("single-digit")
		t.Sample("k=%x", k)
	})
	c.Run("base", c.N(10000, 300000), func(t *mon.T) {
		k, cl := hostileMultiplier(&t.Rng)
		mulAll(t, ref.B, tabs[0].tab, k, tabs[0].ref.Mul(k), true, t.Intn(4) == 0)
		t.Count("class:" + cl)
	})
	c.Run("tabulated-points", c.N(12000, 400000), func(t *mon.T) {
		e := &tabs[t.Index%len(tabs)]
		k, cl := hostileMultiplier(&t.Rng)
		if t.Intn(4) == 0 { // a single digit
			k = big.NewInt(int64(1 + t.Intn(31)))
			k = ref.ModL(k.Lsh(k, uint(t.Intn(253))))
			cl = "single-digit"
		}
		mulAll(t, e.q, e.tab, k, e.ref.Mul(k), false, t.Intn(4) == 0)
		t.Count("class:" + cl)
	})
	c.Run("fresh-points", c.N(8000, 250000), func(t *mon.T) {
		q, pc := gen.Point(&t.Rng)
		k, cl := hostileMultiplier(&t.Rng)
		mulAll(t, q, nil, k, ref.PMul(k, q), false, t.Intn(4) == 0)
		t.Count("class:" + cl)
		t.Count("point:" + pc)
		t.Sample("k=%x q=%x", k, q.Encode())
	})
	// sequences of calls on the same memory, in which little changes between calls
	c.Run("sequences", c.N(300, 10000), func(t *mon.T) {
		q, _ := gen.Point(&t.Rng)
		k, _ := hostileMultiplier(&t.Rng)
		x := new(sut.Point)
		s := new(sut.Sc)
		tab := new(ristretto.ScalarMultTable)
		*x, *s = sut.PointStyle(&t.Rng, q), sut.ScOf(k)
		tab.Compute(x)
		tq := q
		var p sut.Point
		for step := 0; step < 10; step++ {
			switch t.Intn(8) {
			case 0, 1:
				k = ref.ModL(new(big.Int).Xor(k, new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(252)))))
				*s = sut.ScOf(k)
			case 2:
				k = ref.ModL(new(big.Int).Neg(k))
				*s = sut.ScOf(k)
			case 3:
				q = ref.PNeg(q)
				*x = sut.PointStyle(&t.Rng, q)
			case 4:
				q = gen.Represent(&t.Rng, q)
				*x = sut.PointStyle(&t.Rng, q)
			case 5:
				q = ref.PAdd(q, ref.B)
				*x = sut.PointStyle(&t.Rng, q)
			case 6:
				q, _ = gen.Point(&t.Rng)
				*x = sut.PointStyle(&t.Rng, q)
			case 7:
				tab.Compute(x)
				tq = q
			}
			want := ref.PMul(k, q)
			what := fmt.Sprintf("k=%x q=%s, step %d of a sequence", k, sut.PStr(q), step)
			sut.JudgePoint(t, p.ScalarMult(x, s), want, "ScalarMult "+what)
			sut.JudgePoint(t, p.PublicScalarMult(x, s), want, "PublicScalarMult "+what)
			want = ref.PMul(k, tq)
			sut.JudgePoint(t, p.ScalarMultTable(tab, s), want, "ScalarMultTable "+what)
			sut.JudgePoint(t, p.PublicScalarMultTable(tab, s), want, "PublicScalarMultTable "+what)
			if step%3 == 0 {
				want = ref.PMul(k, ref.B)
				sut.JudgePoint(t, p.ScalarMultBase(s), want, "ScalarMultBase "+what)
				sut.JudgePoint(t, p.PublicScalarMultBase(s), want, "PublicScalarMultBase "+what)
			}
			t.Seen(k.Bytes(), sut.Mem(x))
		}
		t.Count("sequences")
	})
	// homomorphism on results the code made itself
	c.Run("laws", c.N(2000, 60000), func(t *mon.T) {
		q, _ := gen.Point(&t.Rng)
		a, _ := hostileMultiplier(&t.Rng)
		b, _ := hostileMultiplier(&t.Rng)
		x := sut.PointStyle(&t.Rng, q)
		sa, sb := sut.ScOf(a), sut.ScOf(b)
		var sum, prod sut.Sc
		sum.Add(&sa, &sb)
		prod.Mul(&sa, &sb)
		var l, m, n sut.Point
		l.ScalarMult(&x, &sum)
		m.ScalarMult(&x, &sa)
		n.PublicScalarMult(&x, &sb)
		m.Add(&m, &n)
		t.Assert(l.Equals(&m), "(a+b)q != aq+bq for a=%x b=%x q=%s", a, b, sut.PStr(q))
		l.PublicScalarMult(&x, &prod)
		m.ScalarMult(&x, &sa)
		m.ScalarMult(&m, &sb)
		t.Assert(l.Equals(&m), "(ab)q != b(aq) for a=%x b=%x q=%s", a, b, sut.PStr(q))
		// 0q = 0, 1q = q, (l-1)q = -q
		var z, o, mo sut.Sc
		o.SetOne()
		mo.Neg(&o)
		var id, ng sut.Point
		id.SetZero()
		ng.Neg(&x)
		for i, f := range []func(p *sut.Point, s *sut.Sc) *sut.Point{
			func(p *sut.Point, s *sut.Sc) *sut.Point { return p.ScalarMult(&x, s) },
			func(p *sut.Point, s *sut.Sc) *sut.Point { return p.PublicScalarMult(&x, s) },
		} {
			t.Assert(f(&l, &z).Equals(&id), "0q != 0 (%d)", i)
			t.Assert(f(&l, &o).Equals(&x), "1q != q (%d)", i)
			t.Assert(f(&l, &mo).Equals(&ng), "(l-1)q != -q (%d)", i)
		}
		t.Count("laws")
	})
	for _, v := range []string{"ScalarMult", "PublicScalarMult", "ScalarMult-aliased", "PublicScalarMult-aliased", "ScalarMultBase",
		"PublicScalarMultBase", "ScalarMultTable", "PublicScalarMultTable"} {
		c.Require("variant:" + v)
	}
	c.Require("laws", "sequences", "single-digit", "class:signed-radix-16", "class:signed-radix-32", "class:naf-gaps", "class:near-0-or-l",
		"class:near-2^252", "table:identity", "table:B")
	_ = fmt.Sprint
}
