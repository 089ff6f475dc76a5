package main

import (
	"fmt"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() {
	props["C09"] = c09
	props["C10"] = c10
}

func judgeMapped(t *mon.T, ret, p *sut.Point, want ref.P, what string) {
	t.Assert(ret == p, "%s does not return its receiver", what)
	if sut.JudgePoint(t, p, want, what) && t.Intn(3) == 0 {
		w := want.Encode()
		t.Assert(hexs(p.Bytes()) == hexs(w[:]), "%s encodes as %x want %x", what, p.Bytes(), w)
	}
}

// exceptional inputs of the map: zeroes of its denominators and numerators
func exceptionalMap() []ref.F {
	out := []ref.F{ref.Zero, ref.One, ref.MOne, ref.SqrtM, ref.Neg(ref.SqrtM), ref.SqrtID, ref.Neg(ref.SqrtID),
		ref.SqrtIOverD, ref.Neg(ref.SqrtIOverD), ref.D, ref.Neg(ref.D), ref.FromUint(2), ref.B.X, ref.B.Y}
	// r = i*t^2 for chosen r: 1, -1, d, -d, 1/d, -1/d, i, -i
	for _, r := range []ref.F{ref.One, ref.MOne, ref.D, ref.Neg(ref.D), ref.Inv(ref.D), ref.Neg(ref.Inv(ref.D)), ref.SqrtM, ref.Neg(ref.SqrtM)} {
		if ok, t := ref.SqrtRatioM1(r, ref.SqrtM); ok {
			out = append(out, t, ref.Neg(t))
		}
	}
	return out
}

func c09(c *mon.Ctx) {
	ex := exceptionalMap()
	one := func(t *mon.T, b [32]byte, what string) {
		orig := b
		want := ref.MapBytes(&b)
		p := sut.JunkPoint(&t.Rng)
		judgeMapped(t, p.SetElligator(&b), &p, want, fmt.Sprintf("SetElligator(%x)", orig))
		t.Assert(b == orig, "SetElligator modified its input")
		f := ref.FromBytes(&b)
		x := sut.FEStyle(&t.Rng, f)
		ox := x
		cp := junkCP(&t.Rng)
		t.Assert(cp.SetRistrettoElligator2(&x) == &cp, "SetRistrettoElligator2 does not return its receiver")
		t.Assert(x == ox, "SetRistrettoElligator2 modified its operand")
		e := junkEP(&t.Rng)
		e.SetCompleted(&cp)
		q := sut.Point(e)
		sut.JudgePoint(t, &q, want, fmt.Sprintf("SetRistrettoElligator2(%x)", f.Bytes()))
		t.Count("what:" + what)
		t.Seen(orig[:])
		t.Sample("%s %x -> %x", what, orig, want.Encode())
	}
	c.Run("exceptional", len(ex)*2, func(t *mon.T) {
		f := ex[t.Index/2]
		b := f.Bytes()
		if t.Index&1 == 1 {
			b[31] |= 0x80
		}
		one(t, b, "exceptional")
	})
	c.Run("hostile", c.N(50000, 1500000), func(t *mon.T) {
		b, cl := gen.Buf32(&t.Rng)
		one(t, b, "hostile")
		t.Count("class:" + cl)
		f := ref.FromBytes(&b)
		// the same element in other bytes maps to the same point, and so
		// does its negation
		if t.Intn(4) == 0 {
			one(t, ref.Neg(f).Bytes(), "negated")
		}
	})
	c.Run("derive", c.N(12000, 400000), func(t *mon.T) {
		data := gen.Message(&t.Rng, t.Index)
		orig := string(data[:cap(data)])
		p := sut.JunkPoint(&t.Rng)
		judgeMapped(t, p.Derive(data), &p, ref.Derive(data), fmt.Sprintf("Derive(%x)", data))
		p = sut.JunkPoint(&t.Rng)
		judgeMapped(t, p.DeriveDalek(data), &p, ref.DeriveDalek(data), fmt.Sprintf("DeriveDalek(%x)", data))
		var liz [16]byte
		n, _ := gen.Nat(&t.Rng, 128)
		nb := ref.LE32(n)
		copy(liz[:], nb[:])
		p = sut.JunkPoint(&t.Rng)
		judgeMapped(t, p.SetLizard(&liz), &p, ref.Lizard(&liz), fmt.Sprintf("SetLizard(%x)", liz))
		t.Assert(string(data[:cap(data)]) == orig, "Derive modified its input")
		t.Count("derive")
		t.Seen(data)
		t.Sample("derive %x", data)
	})
	c.Require("what:exceptional", "what:hostile", "what:negated", "derive", "class:constant", "class:near-p", "class:random")
}

// C10: Lizard and the inverse of the map.
func c10(c *mon.Ctx) {
	inverse := func(t *mon.T, p ref.P, known []ref.F) int {
		x := sut.EPStyle(&t.Rng, p)
		ox := x
		var fes [8]sut.FE
		for i := range fes {
			fes[i] = sut.JunkFE(&t.Rng)
		}
		m := x.RistrettoElligator2Inverse(&fes)
		t.Assert(x == ox, "RistrettoElligator2Inverse modified the point")
		set := map[[32]byte]bool{}
		for j := 0; j < 8; j++ {
			if m>>uint(j)&1 == 0 {
				continue
			}
			f := sut.FOf(&fes[j])
			t.Assert(!f.IsNeg(), "preimage %d of %s is negative: %x", j, sut.PStr(p), f.Bytes())
			t.Assert(ref.Same(ref.Map(f), p), "preimage %d (%x) of %s does not map back to it", j, f.Bytes(), sut.PStr(p))
			set[f.Bytes()] = true
		}
		for _, k := range known {
			t.Assert(set[ref.Abs(k).Bytes()], "preimage %x of %s was not found", ref.Abs(k).Bytes(), sut.PStr(p))
		}
		t.Count(fmt.Sprintf("preimages:%d", len(set)))
		return len(set)
	}
	ex := exceptionalMap()
	c.Run("inverse", c.N(8000, 250000), func(t *mon.T) {
		f, _ := gen.F(&t.Rng)
		if t.Index < len(ex) {
			f = ex[t.Index]
		} else if t.Bool() {
			b := t.Arr32()
			f = ref.FromBytes(&b)
		}
		p := ref.Map(f)
		n1 := inverse(t, p, []ref.F{f})
		n2 := inverse(t, gen.Represent(&t.Rng, p), []ref.F{f})
		t.Assert(n1 == n2, "different representatives of %s have %d and %d preimages", sut.PStr(p), n1, n2)
		b := f.Bytes()
		t.Seen(b[:])
		t.Sample("f=%x has a point with %d preimages", b, n1)
	})
	c.Run("inverse-identity", 40, func(t *mon.T) {
		p := ref.Tors[t.Index%4]
		if t.Index >= 4 {
			p = gen.Represent(&t.Rng, p)
		}
		inverse(t, p, []ref.F{ref.Zero, ref.SqrtID, ref.SqrtIOverD})
		t.Count("inverse-identity")
	})
	c.Run("inverse-any-point", c.N(4000, 100000), func(t *mon.T) {
		p, _ := gen.Point(&t.Rng)
		n := inverse(t, p, nil)
		if n == 0 {
			t.Count("no-preimage")
		}
		b := p.Encode()
		t.Seen(b[:])
	})
	decode := func(t *mon.T, p ref.P, want []byte, what string) {
		x := sut.PointStyle(&t.Rng, p)
		ox := x
		got := x.Lizard()
		t.Trail("point %s", sut.PStr(p))
		if want == nil {
			t.Assert(got == nil, "%s: Lizard returned %x for a point without data", what, got)
		} else {
			t.Assert(hexs(got) == hexs(want), "%s: Lizard returned %x want %x", what, got, want)
		}
		var buf [16]byte
		copy(buf[:], t.Bytes(16))
		err := x.LizardInto(&buf)
		t.Assert((err == nil) == (want != nil), "%s: LizardInto: %v", what, err)
		if want != nil {
			t.Assert(hexs(buf[:]) == hexs(want), "%s: LizardInto wrote %x want %x", what, buf, want)
		}
		t.Assert(x == ox, "Lizard modified the point")
		t.Count("lizard:" + what)
	}
	c.Run("lizard", c.N(6000, 200000), func(t *mon.T) {
		var data [16]byte
		switch t.Intn(4) {
		case 0:
			x, _ := gen.Nat(&t.Rng, 128)
			b := ref.LE32(x)
			copy(data[:], b[:16])
		default:
			copy(data[:], t.Bytes(16))
		}
		orig := data
		p := sut.JunkPoint(&t.Rng)
		t.Assert(p.SetLizard(&data) == &p, "SetLizard does not return its receiver")
		t.Assert(data == orig, "SetLizard modified its input")
		want := ref.Lizard(&data)
		sut.JudgePoint(t, &p, want, fmt.Sprintf("SetLizard(%x)", data))
		t.Assert(hexs(p.Lizard()) == hexs(data[:]), "Lizard(SetLizard(%x)) = %x", data, p.Lizard())
		decode(t, gen.Represent(&t.Rng, want), data[:], "other-representative")
		// through the wire
		var q sut.Point
		var b [32]byte
		p.BytesInto(&b)
		if t.Assert(q.SetBytes(&b), "encoding of a Lizard point is rejected") {
			t.Assert(hexs(q.Lizard()) == hexs(data[:]), "Lizard(decode(encode(SetLizard(%x)))) = %x", data, q.Lizard())
		}
		t.Count("lizard:roundtrip")
		t.Seen(data[:])
		t.Sample("data %x", data)
	})
	// points that carry almost valid data: one check bit is wrong
	c.Run("lizard-near-miss", c.N(6000, 200000), func(t *mon.T) {
		var data [16]byte
		copy(data[:], t.Bytes(16))
		b := ref.LizardFe(&data)
		var bits []int
		for i := 1; i < 64; i++ {
			bits = append(bits, i)
		}
		for i := 192; i < 255; i++ {
			bits = append(bits, i)
		}
		k := bits[t.Index%len(bits)]
		b[k/8] ^= 1 << uint(k%8)
		decode(t, gen.Represent(&t.Rng, ref.MapBytes(&b)), nil, "near-miss")
		t.Count(fmt.Sprintf("bit:%d", k))
		t.Seen(b[:])
	})
	c.Run("not-lizard", c.N(3000, 100000), func(t *mon.T) {
		p, _ := gen.Point(&t.Rng)
		decode(t, p, nil, "no-data")
		b := p.Encode()
		t.Seen(b[:])
	})
	c.Require("lizard:roundtrip", "lizard:near-miss", "lizard:no-data", "lizard:other-representative", "inverse-identity",
		"no-preimage", "preimages:1", "preimages:2", "preimages:3", "bit:1", "bit:254")
}
