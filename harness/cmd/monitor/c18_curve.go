package main

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C18"] = c18 }

// curvePoint is any point of the curve, odd ones and torsion included.
func curvePoint(r *mon.Rng) (ref.P, string) {
	switch r.Intn(8) {
	case 0:
		return gen.Point(r)
	case 1:
		p, _ := gen.Element(r)
		return gen.Represent(r, ref.PAdd(p, eightTorsion(r.Intn(8)))), "shifted"
	case 2:
		p := eightTorsion(r.Intn(8))
		if r.Intn(3) == 0 {
			return gen.Aim(r, p), "torsion"
		}
		z := r.Arr32()
		if f := ref.FromBytes(&z); !f.IsZero() {
			p = p.Scale(f)
		}
		return p, "torsion"
	}
	for {
		y, _ := gen.F(r)
		if r.Bool() {
			b := r.Arr32()
			y = ref.FromBytes(&b)
		}
		y2 := ref.Sq(y)
		ok, x := ref.SqrtRatioM1(ref.Sub(y2, ref.One), ref.Add(ref.Mul(ref.D, y2), ref.One))
		if !ok {
			continue
		}
		if r.Bool() {
			x = ref.Neg(x)
		}
		p := ref.Affine(x, y)
		if r.Intn(5) == 0 {
			return gen.Aim(r, p), "any"
		}
		if r.Intn(3) != 0 {
			z, _ := gen.F(r)
			if r.Bool() {
				b := r.Arr32()
				z = ref.FromBytes(&b)
			}
			if !z.IsZero() {
				p = p.Scale(z)
			}
		}
		return p, "any"
	}
}

var tors8 []ref.P

// setBaseFinding is what SetBase gives instead of the point it documents.
var setBaseFinding = ref.PAdd(ref.B, ref.Tors[3])

// eightTorsion is k times a point of order eight.
func eightTorsion(k int) ref.P { return tors8[k] }

func init() {
	r := mon.NewRng(42)
	for {
		b := r.Arr32()
		y := ref.FromBytes(&b)
		y2 := ref.Sq(y)
		ok, x := ref.SqrtRatioM1(ref.Sub(y2, ref.One), ref.Add(ref.Mul(ref.D, y2), ref.One))
		if !ok {
			continue
		}
		q := ref.PMul(ref.LBig, ref.Affine(x, y))
		if ref.SameEdwards(ref.PMul(big.NewInt(4), q), ref.Ident) {
			continue
		}
		t := ref.Ident
		for k := 0; k < 8; k++ {
			tors8 = append(tors8, t.Norm())
			t = ref.PAdd(t, q)
		}
		return
	}
}

func judgeEd(t *mon.T, got *sut.EP, want ref.P, what string, a ...any) bool {
	g := sut.POf(got)
	return t.Assert(g.Valid() && ref.SameEdwards(g, want), "%s: got %s want %s", fmt.Sprintf(what, a...), sut.PStr(g), sut.PStr(want.Norm()))
}

// judgeCompleted reads a completed point through both conversions.
func judgeCompleted(t *mon.T, cp *ed.CompletedPoint, want ref.P, what string) {
	m := sut.Mem(cp)
	e := sut.EP(sut.JunkPoint(&t.Rng))
	t.Assert(e.SetCompleted(cp) == &e, "SetCompleted does not return its receiver")
	judgeEd(t, &e, want, "%s", what)
	pp := junkPP(&t.Rng)
	pp.X, pp.Y, pp.Z = sut.JunkFE(&t.Rng), sut.JunkFE(&t.Rng), sut.JunkFE(&t.Rng)
	t.Assert(pp.SetCompleted(cp) == &pp, "ProjectivePoint.SetCompleted does not return its receiver")
	judgeProj(t, &pp, want, what+" as projective point")
	t.Assert(sut.SameMem(cp, m), "%s: the conversion modified the completed point", what)
}

func judgeProj(t *mon.T, pp *ed.ProjectivePoint, want ref.P, what string) bool {
	x, y, z := sut.FOf(&pp.X), sut.FOf(&pp.Y), sut.FOf(&pp.Z)
	ok := !z.IsZero() && ref.Mul(x, want.Z) == ref.Mul(want.X, z) && ref.Mul(y, want.Z) == ref.Mul(want.Y, z)
	return t.Assert(ok, "%s: got (%x:%x:%x) want %s", what, x.Bytes(), y.Bytes(), z.Bytes(), sut.PStr(want.Norm()))
}

func nonzero(r *mon.Rng) ref.F {
	for {
		b := r.Arr32()
		f := ref.FromBytes(&b)
		if r.Intn(4) == 0 {
			f, _ = gen.F(r)
		}
		if !f.IsZero() {
			return f
		}
	}
}

// jacS and jacT give a point of the Jacobi quartic for an affine point.
func jacS(q ref.P) ref.F {
	_, s := ref.SqrtRatioM1(ref.Sub(ref.One, q.Y), ref.Add(ref.One, q.Y))
	return s
}

func jacT(q ref.P, root ref.F) ref.F {
	s := jacS(q)
	return ref.Mul(ref.Mul(ref.Add(s, s), root), ref.Inv(q.X))
}

func c18(c *mon.Ctx) {
	c.Run("additions", c.N(30000, 1200000), func(t *mon.T) {
		p, c1 := curvePoint(&t.Rng)
		q, c2 := curvePoint(&t.Rng)
		switch t.Intn(8) {
		case 0:
			q, c2 = p.Scale(nonzero(&t.Rng)), "equal"
		case 1:
			q, c2 = ref.PNeg(p), "opposite"
		case 2:
			q, c2 = ref.PAdd(p, eightTorsion(t.Intn(8))), "torsion-apart"
		}
		if t.Intn(4) == 0 {
			p, q = gen.AimPair(&t.Rng, p, q)
		}
		sum, dif, dbl := ref.PAdd(p, q), ref.PSub(p, q), ref.PAdd(p, p)
		t.Trail("p=%s q=%s", sut.PStr(p), sut.PStr(q))
		x, y := sut.EPStyle(&t.Rng, p), sut.EPStyle(&t.Rng, q)
		ox, oy := x, y
		ck := func(cp *ed.CompletedPoint, want ref.P, what string) {
			judgeCompleted(t, cp, want, what)
			t.Assert(x == ox && y == oy, "%s modified an operand", what)
			t.Count(what)
		}
		cp := junkCP(&t.Rng)
		junk := func() *ed.CompletedPoint {
			cp = ed.CompletedPoint(sut.JunkPoint(&t.Rng))
			return &cp
		}
		ck(junk().AddExtended(&x, &y), sum, "AddExtended")
		ck(junk().SubExtended(&x, &y), dif, "SubExtended")
		ck(junk().AddExtended(&x, &x), dbl, "AddExtended(p,p)")
		ck(junk().SubExtended(&x, &x), ref.Ident, "SubExtended(p,p)")
		ck(junk().DoubleExtended(&x), dbl, "DoubleExtended")
		pp := junkPP(&t.Rng)
		t.Assert(pp.SetExtended(&x) == &pp, "ProjectivePoint.SetExtended does not return its receiver")
		judgeProj(t, &pp, p, "ProjectivePoint.SetExtended")
		opp := pp
		ck(junk().DoubleProjective(&pp), dbl, "DoubleProjective")
		t.Assert(pp == opp, "DoubleProjective modified its operand")
		// chain of projective doublings, as the multiplication routines do
		want := dbl
		for i := 0; i < 3; i++ {
			pp.SetCompleted(&cp)
			cp.DoubleProjective(&pp)
			want = ref.PAdd(want, want)
			judgeCompleted(t, &cp, want, "repeated DoubleProjective")
		}
		// Niels
		n := ed.NielsPoint{YPlusX: sut.JunkFE(&t.Rng), YMinusX: sut.JunkFE(&t.Rng), XY2D: sut.JunkFE(&t.Rng)}
		t.Assert(n.SetExtended(&y) == &n, "NielsPoint.SetExtended does not return its receiver")
		t.Assert(y == oy, "NielsPoint.SetExtended modified its operand")
		t.Assert(nielsOf(&n) == nielsFrom(q), "NielsPoint.SetExtended: got %x want %x", nielsOf(&n), nielsFrom(q))
		on := n
		ck(junk().AddExtendedNiels(&x, &n), sum, "AddExtendedNiels")
		ck(junk().SubExtendedNiels(&x, &n), dif, "SubExtendedNiels")
		t.Assert(n == on, "AddExtendedNiels or SubExtendedNiels modified the Niels point")
		nm := nielsFrom(q)
		n2 := ed.NielsPoint{YPlusX: sut.FEStyle(&t.Rng, nm.v[0]), YMinusX: sut.FEStyle(&t.Rng, nm.v[1]), XY2D: sut.FEStyle(&t.Rng, nm.v[2])}
		ck(junk().AddExtendedNiels(&x, &n2), sum, "AddExtendedNiels(styled)")
		ck(junk().SubExtendedNiels(&x, &n2), dif, "SubExtendedNiels(styled)")
		nn := junkNP(&t.Rng)
		t.Assert(nn.Neg(&n) == &nn && n == on, "NielsPoint.Neg does not return its receiver or modified its operand")
		ck(junk().AddExtendedNiels(&x, &nn), dif, "AddExtendedNiels(-q)")
		nn = n
		nn.Neg(&nn)
		ck(junk().SubExtendedNiels(&x, &nn), sum, "SubExtendedNiels(-q aliased)")
		t.Assert(nn.Set(&n) == &nn && nn == n, "NielsPoint.Set")
		nn.SetZero()
		ck(junk().AddExtendedNiels(&x, &nn), p, "AddExtendedNiels(0)")
		b := int32(t.Intn(2))
		t.Assert(nn.ConditionalSet(&n, b) == &nn, "NielsPoint.ConditionalSet does not return its receiver")
		if b == 1 {
			ck(junk().AddExtendedNiels(&x, &nn), sum, "NielsPoint.ConditionalSet(1)")
		} else {
			ck(junk().AddExtendedNiels(&x, &nn), p, "NielsPoint.ConditionalSet(0)")
		}
		t.Seen(sut.Mem(&x), sut.Mem(&y))
		t.Count("class:" + c1)
		t.Count("pair:" + c2)
		if !p.Even() {
			t.Count("odd-point")
		}
		t.Sample("%s p=%s q=%s", c1+"|"+c2, sut.PStr(p), sut.PStr(q))
	})
	// the same on extended points, in every aliasing pattern
	parts := sut.Partitions(3)
	c.Run("extended", c.N(40000, 1500000), func(t *mon.T) {
		part := parts[t.Intn(len(parts))]
		var m [3]ref.P
		var v [3]sut.EP
		for i := range v {
			m[i], _ = curvePoint(&t.Rng)
			v[i] = sut.EPStyle(&t.Rng, m[i])
		}
		r, a, b := &v[part[0]], &v[part[1]], &v[part[2]]
		ma, mb, mr := m[part[1]], m[part[2]], m[part[0]]
		ov := v
		op := t.Intn(10)
		names := []string{"Add", "Sub", "Double", "Neg", "Set", "ConditionalSet", "SetZero", "SetBase", "SetTorsion", "SetCompleted"}
		t.Trail("%s aliasing %v, operands %s %s", names[op], part, sut.PStr(ma), sut.PStr(mb))
		var ret *sut.EP
		var want ref.P
		switch op {
		case 0:
			ret, want = r.Add(a, b), ref.PAdd(ma, mb)
		case 1:
			ret, want = r.Sub(a, b), ref.PSub(ma, mb)
		case 2:
			ret, want = r.Double(a), ref.PAdd(ma, ma)
		case 3:
			ret, want = r.Neg(a), ref.PNeg(ma)
		case 4:
			ret, want = r.Set(a), ma
		case 5:
			k := int32(t.Intn(2))
			ret, want = r.ConditionalSet(a, k), mr
			if k == 1 {
				want = ma
			}
		case 6:
			ret, want = r.SetZero(), ref.Ident
		case 7:
			ret, want = r.SetBase(), ref.B
			if g := sut.POf(r); ref.SameEdwards(g, setBaseFinding) {
				t.Known("C18-SetBase", "ExtendedPoint.SetBase is documented to give (x,4/5) with x>=0 but gives the Ristretto-equivalent point (x,4/5)+(-i,0)")
				want = setBaseFinding
			}
		case 8:
			switch t.Intn(3) {
			case 0:
				ret, want = r.SetTorsion1(), ref.Affine(ref.Zero, ref.MOne)
			case 1:
				ret, want = r.SetTorsion2(), ref.Affine(ref.SqrtM, ref.Zero)
			case 2:
				ret, want = r.SetTorsion3(), ref.Affine(ref.Neg(ref.SqrtM), ref.Zero)
			}
		case 9: // a completed point with independent denominators
			q := ma.Norm()
			z, w := nonzero(&t.Rng), nonzero(&t.Rng)
			cp := ed.CompletedPoint{X: sut.FEStyle(&t.Rng, ref.Mul(q.X, z)), Y: sut.FEStyle(&t.Rng, ref.Mul(q.Y, w)),
				Z: sut.FEStyle(&t.Rng, z), T: sut.FEStyle(&t.Rng, w)}
			judgeCompleted(t, &cp, ma, "completed point")
			ret, want = r.SetCompleted(&cp), ma
		}
		t.Assert(ret == r, "%s does not return its receiver", names[op])
		judgeEd(t, r, want, names[op])
		for i := range v {
			if i != part[0] {
				t.Assert(v[i] == ov[i], "%s modified an operand", names[op])
			}
		}
		t.Count("op:" + names[op])
		t.Count(fmt.Sprintf("alias:%v", part))
		t.Seen(op, fmt.Sprint(part), sut.Mem(&ov[0]), sut.Mem(&ov[1]))
	})
	// multiplication on the curve
	scalar := func(t *mon.T) (*big.Int, string) {
		switch t.Intn(4) {
		case 0:
			return gen.Nat(&t.Rng, 253)
		case 1:
			x := gen.NearMultL(&t.Rng, 253)
			return x, "near-k*l"
		case 2: // the largest
			x := new(big.Int).Lsh(big.NewInt(1), 253)
			return x.Sub(x, big.NewInt(int64(1+t.Intn(40)))), "near-2^253"
		}
		return hostileMultiplier(&t.Rng)
	}
	mul := func(t *mon.T, p ref.P, mt *ref.Table, tab *ed.ScalarMultTable, k *big.Int, cl string) {
		s := ref.LE32(k)
		os := s
		want := mt.Mul(k)
		t.Trail("k=%x p=%s", k, sut.PStr(p))
		x := sut.EPStyle(&t.Rng, p)
		ox := x
		r := sut.EP(sut.JunkPoint(&t.Rng))
		t.Assert(r.ScalarMult(&x, &s) == &r, "ScalarMult does not return its receiver")
		judgeEd(t, &r, want, "ScalarMult")
		r = sut.EP(sut.JunkPoint(&t.Rng))
		t.Assert(r.VarTimeScalarMult(&x, &s) == &r, "VarTimeScalarMult does not return its receiver")
		judgeEd(t, &r, want, "VarTimeScalarMult")
		t.Assert(x == ox && s == os, "scalar multiplication modified an operand")
		if t.Intn(3) == 0 {
			y := x
			y.ScalarMult(&y, &s)
			judgeEd(t, &y, want, "ScalarMult aliased")
			y = x
			y.VarTimeScalarMult(&y, &s)
			judgeEd(t, &y, want, "VarTimeScalarMult aliased")
		}
		if tab != nil {
			r = sut.EP(sut.JunkPoint(&t.Rng))
			tab.ScalarMult(&r, &s)
			judgeEd(t, &r, want, "ScalarMultTable.ScalarMult")
			r = sut.EP(sut.JunkPoint(&t.Rng))
			tab.VarTimeScalarMult(&r, &s)
			judgeEd(t, &r, want, "ScalarMultTable.VarTimeScalarMult")
			t.Assert(s == os, "table multiplication modified the scalar")
		}
		t.Count("scalar:" + cl)
		if k.Sign() != 0 {
			t.Seen(s[:], sut.Mem(&x))
		}
	}
	c.Run("multiply-table", c.N(160, 4000), func(t *mon.T) {
		p, cl := curvePoint(&t.Rng)
		if t.Index == 0 {
			p, cl = ref.B, "base"
		}
		x := sut.EPStyle(&t.Rng, p)
		ox := x
		tab := new(ed.ScalarMultTable)
		for i := range tab {
			for j := range tab[i] {
				tab[i][j].XY2D = sut.JunkFE(&t.Rng)
			}
		}
		tab.Compute(&x)
		t.Assert(x == ox, "Compute modified the point")
		m := sut.Mem(tab)
		mt := ref.NewTable(p)
		n := 24
		if t.Index < 4 { // every digit of every window
			for i := 0; i < 63; i++ {
				for d := int64(-8); d <= 8; d += 3 - int64(t.Index&1) {
					k := new(big.Int).Lsh(big.NewInt(d), uint(4*i))
					if k.Sign() < 0 {
						k.Add(k, new(big.Int).Lsh(big.NewInt(16), uint(4*i)))
					}
					if k.BitLen() <= 253 {
						mul(t, p, mt, tab, k, "single-digit")
						t.ClearTrail()
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			k, cl := scalar(t)
			mul(t, p, mt, tab, k, cl)
			t.ClearTrail()
		}
		t.Assert(sut.SameMem(tab, m), "multiplying modified the table")
		t.Count("mulclass:" + cl)
		if !p.Even() {
			t.Count("odd-multiplied")
		}
		t.Sample("table of %s", sut.PStr(p))
	})
	c.Run("multiply", c.N(6000, 200000), func(t *mon.T) {
		p, _ := curvePoint(&t.Rng)
		k, cl := scalar(t)
		want := ref.PMul(k, p)
		s := ref.LE32(k)
		t.Trail("k=%x p=%s", k, sut.PStr(p))
		x := sut.EPStyle(&t.Rng, p)
		r := junkEP(&t.Rng)
		judgeEd(t, r.ScalarMult(&x, &s), want, "ScalarMult")
		judgeEd(t, r.VarTimeScalarMult(&x, &s), want, "VarTimeScalarMult")
		t.Count("scalar:" + cl)
		t.Seen(s[:], sut.Mem(&x))
	})
	// the Jacobi quartic
	// x = 2s/(t sqrt(-d-1)): which of the two square roots is meant is the
	// choice of the code, but it has to stick to it
	root := ref.InvSqrtAMinusD
	{
		u := jacT(ref.B.Norm(), root)
		jc := ed.JacobiPoint{S: sut.FEOf(jacS(ref.B.Norm())), T: sut.FEOf(u)}
		var cp ed.CompletedPoint
		var e sut.EP
		e.SetCompleted(cp.SetJacobiQuartic(&jc))
		if ref.SameEdwards(sut.POf(&e), ref.PNeg(ref.B)) {
			root = ref.Neg(root)
		}
	}
	jac := func(s, t ref.F) (ref.P, bool) { // the point of (s,t)
		s2 := ref.Sq(s)
		den := ref.Add(ref.One, s2)
		if t.IsZero() || den.IsZero() {
			return ref.P{}, false
		}
		x := ref.Mul(ref.Mul(ref.Add(s, s), root), ref.Inv(t))
		y := ref.Mul(ref.Sub(ref.One, s2), ref.Inv(den))
		return ref.Affine(x, y), true
	}
	c.Run("jacobi", c.N(20000, 600000), func(t *mon.T) {
		p, cl := gen.Point(&t.Rng)
		x := sut.EPStyle(&t.Rng, p)
		ox := x
		t.Trail("p=%s", sut.PStr(p))
		qs := [4]ed.JacobiPoint{junkJP(&t.Rng), junkJP(&t.Rng), junkJP(&t.Rng), junkJP(&t.Rng)}
		for i := range qs {
			qs[i].S, qs[i].T = sut.JunkFE(&t.Rng), sut.JunkFE(&t.Rng)
		}
		t.Assert(x.ToJacobiQuarticRistretto(&qs) == &x && x == ox, "ToJacobiQuarticRistretto modified its receiver or returned something else")
		var reps []ref.P
		for j := range qs {
			s, u := sut.FOf(&qs[j].S), sut.FOf(&qs[j].T)
			q, ok := jac(s, u)
			if !t.Assert(ok && q.Valid(), "ToJacobiQuarticRistretto: (%x,%x) is no point of the quartic", s.Bytes(), u.Bytes()) {
				return
			}
			t.Assert(ref.Same(q, p), "ToJacobiQuarticRistretto: (%x,%x) is not equivalent to the point", s.Bytes(), u.Bytes())
			reps = append(reps, q)
			oq := qs[j]
			cp := junkCP(&t.Rng)
			t.Assert(cp.SetJacobiQuartic(&qs[j]) == &cp && qs[j] == oq, "SetJacobiQuartic modified its operand or returned something else")
			judgeCompleted(t, &cp, q, "SetJacobiQuartic")
			d := junkJP(&t.Rng)
			t.Assert(d.Dual(&qs[j]) == &d && qs[j] == oq, "Dual modified its operand or returned something else")
			t.Assert(sut.FOf(&d.S) == ref.Neg(s) && sut.FOf(&d.T) == ref.Neg(u), "Dual of (%x,%x)", s.Bytes(), u.Bytes())
			cp.SetJacobiQuartic(&d)
			judgeCompleted(t, &cp, q, "SetJacobiQuartic(Dual)")
			d = qs[j]
			d.Dual(&d)
			t.Assert(sut.FOf(&d.S) == ref.Neg(s) && sut.FOf(&d.T) == ref.Neg(u), "aliased Dual of (%x,%x)", s.Bytes(), u.Bytes())
		}
		distinct := 0
		for i := range reps {
			d := true
			for j := 0; j < i; j++ {
				d = d && !ref.SameEdwards(reps[i], reps[j])
			}
			if d {
				distinct++
			}
		}
		if ref.Same(p, ref.Ident) {
			t.Assert(distinct >= 3, "only %d of the representatives of the identity have a quartic point", distinct)
			t.Count("jacobi:identity")
		} else {
			t.Assert(distinct == 4, "only %d of the 4 equivalent points have a quartic point", distinct)
			t.Count("jacobi:general")
		}
		// a quartic point made without the code under test
		q := p.Norm()
		if ok, s := ref.SqrtRatioM1(ref.Sub(ref.One, q.Y), ref.Add(ref.One, q.Y)); ok && !q.X.IsZero() && !s.IsZero() {
			if t.Bool() {
				s = ref.Neg(s)
			}
			u := ref.Mul(ref.Mul(ref.Add(s, s), root), ref.Inv(q.X))
			jc := ed.JacobiPoint{S: sut.FEStyle(&t.Rng, s), T: sut.FEStyle(&t.Rng, u)}
			cp := junkCP(&t.Rng)
			judgeCompleted(t, cp.SetJacobiQuartic(&jc), p, "SetJacobiQuartic of a model point")
			t.Count("jacobi:model")
		}
		t.Count("jclass:" + cl)
		t.Seen(sut.Mem(&x))
		t.Sample("jacobi %s", sut.PStr(p))
	})
	// small constants
	c.RunSeq("constants", 1, func(t *mon.T) {
		for i := 0; i < 100; i++ {
			pp := junkPP(&t.Rng)
			t.Assert(pp.SetZero() == &pp, "ProjectivePoint.SetZero does not return its receiver")
			judgeProj(t, &pp, ref.Ident, "ProjectivePoint.SetZero")
			cp := junkCP(&t.Rng)
			judgeCompleted(t, cp.DoubleProjective(&pp), ref.Ident, "DoubleProjective(0)")
			n := junkNP(&t.Rng)
			t.Assert(n.SetZero() == &n && nielsOf(&n) == nielsFrom(ref.Ident), "NielsPoint.SetZero")
		}
		// the precomputed table belongs to the point of SetBase
		var b, r sut.EP
		b.SetBase()
		bm := sut.POf(&b)
		mt := ref.NewTable(bm)
		for i := 0; i < 1200; i++ {
			k, _ := scalar(t)
			if i < 32*16 {
				k = new(big.Int).Lsh(big.NewInt(int64(1+i%16)), uint(8*(i/16)))
				if k.BitLen() > 253 {
					continue
				}
			}
			s := ref.LE32(k)
			ed.BaseScalarMultTable.ScalarMult(&r, &s)
			judgeEd(t, &r, mt.Mul(k), "BaseScalarMultTable.ScalarMult(%x)", k)
			ed.BaseScalarMultTable.VarTimeScalarMult(&r, &s)
			judgeEd(t, &r, mt.Mul(k), "BaseScalarMultTable.VarTimeScalarMult(%x)", k)
			t.Seen("base", k.Bytes())
		}
	})
	c.Require("AddExtended", "SubExtended", "DoubleExtended", "DoubleProjective", "AddExtendedNiels", "SubExtendedNiels",
		"AddExtendedNiels(-q)", "NielsPoint.ConditionalSet(0)", "NielsPoint.ConditionalSet(1)", "odd-point", "odd-multiplied",
		"pair:equal", "pair:opposite", "pair:torsion-apart", "class:torsion", "class:any", "class:shifted",
		"scalar:single-digit", "scalar:near-2^253", "jacobi:identity", "jacobi:general", "jacobi:model",
		"op:Add", "op:Sub", "op:Double", "op:Neg", "op:Set", "op:ConditionalSet", "op:SetZero", "op:SetBase", "op:SetTorsion", "op:SetCompleted")
	for _, p := range parts {
		c.Require(fmt.Sprintf("alias:%v", p))
	}
}
