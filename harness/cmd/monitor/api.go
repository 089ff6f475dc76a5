package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// flat holds the operands of the calls that live in plain memory.
type flat struct {
	P    [4]sut.Point // even points
	E    [3]sut.EP    // any points of the curve
	S    [4]sut.Sc
	F    [4]sut.FE
	N    [2]ed.NielsPoint
	C    [2]ed.CompletedPoint
	R    [2]ed.ProjectivePoint
	J    [2]ed.JacobiPoint
	B    [4][32]byte
	B64  [64]byte
	Liz  [16]byte
	LizP sut.Point
	Tab  ristretto.ScalarMultTable
	ETab ed.ScalarMultTable
	Low  [32]byte // below 2^253
}

// env is everything a call may read. Calls never write to it.
type env struct {
	flat
	Data []byte
	Text [][]byte // texts for points and scalars
	Bin  [][]byte
	Big  *big.Int
}

func newEnv(r *mon.Rng) *env {
	e := &env{}
	for i := range e.P {
		m, _ := gen.Point(r)
		e.P[i] = sut.PointStyle(r, m)
	}
	if r.Intn(3) == 0 {
		e.P[1] = sut.PointStyle(r, gen.Represent(r, sut.POfPoint(&e.P[0])))
	}
	var me [3]ref.P
	for i := range e.E {
		me[i], _ = curvePoint(r)
		e.E[i] = sut.EPStyle(r, me[i])
	}
	for i := range e.S {
		k, _ := gen.Scalar(r)
		e.S[i] = sut.ScOf(k)
	}
	if r.Intn(3) == 0 {
		e.S[1] = e.S[0]
	}
	for i := range e.F {
		f, _ := gen.F(r)
		if i == 3 {
			f = ref.Sq(f) // a square
		}
		e.F[i] = sut.FEStyle(r, f)
	}
	for i := range e.N {
		n := nielsFrom(me[i])
		e.N[i] = ed.NielsPoint{YPlusX: sut.FEStyle(r, n.v[0]), YMinusX: sut.FEStyle(r, n.v[1]), XY2D: sut.FEStyle(r, n.v[2])}
	}
	for i := range e.C {
		q := me[i].Norm()
		z, w := nonzero(r), nonzero(r)
		e.C[i] = ed.CompletedPoint{X: sut.FEStyle(r, ref.Mul(q.X, z)), Y: sut.FEStyle(r, ref.Mul(q.Y, w)),
			Z: sut.FEStyle(r, z), T: sut.FEStyle(r, w)}
		e.R[i] = ed.ProjectivePoint{X: sut.FEStyle(r, ref.Mul(q.X, z)), Y: sut.FEStyle(r, ref.Mul(q.Y, z)), Z: sut.FEStyle(r, z)}
	}
	for i := range e.J {
		// the model sign of sqrt(-d-1) may be opposite: still a quartic point
		for {
			p, _ := gen.Element(r)
			q := p.Norm()
			if ok, _ := ref.SqrtRatioM1(ref.Sub(ref.One, q.Y), ref.Add(ref.One, q.Y)); ok && !q.X.IsZero() && !jacS(q).IsZero() {
				e.J[i] = ed.JacobiPoint{S: sut.FEStyle(r, jacS(q)), T: sut.FEStyle(r, jacT(q, ref.InvSqrtAMinusD))}
				break
			}
		}
	}
	for i := range e.B {
		e.B[i], _ = gen.Buf32(r)
	}
	if r.Bool() { // a valid encoding
		p, _ := gen.Element(r)
		e.B[1] = p.Encode()
	}
	copy(e.B64[:], ref64(r))
	k, _ := gen.Nat(r, 253)
	e.Low = ref.LE32(k)
	lz, _ := gen.Nat(r, 128)
	lzb := ref.LE32(lz)
	copy(e.Liz[:], lzb[:])
	e.LizP = sut.PointStyle(r, gen.Represent(r, ref.Lizard(&e.Liz)))
	e.Tab.Compute(&e.P[2])
	e.ETab.Compute(&e.E[2])
	e.Data = gen.Message(r, 301+r.Intn(1000))
	if len(e.Data) > 5000 || e.Data == nil {
		e.Data = gen.Spare(r, r.Bytes(r.Intn(200)))
	}
	for i := 0; i < 4; i++ {
		var b [32]byte
		if i < 2 {
			p, _ := gen.Element(r)
			b = p.Encode()
		} else {
			b = e.B[i]
		}
		t, _ := hostileText(r, b)
		if len(t) > 300 {
			t = t[:300]
		}
		e.Text = append(e.Text, gen.Spare(r, t))
		e.Bin = append(e.Bin, gen.Spare(r, b[:]))
	}
	e.Bin[3] = e.Bin[3][:r.Intn(33)]
	e.Big, _ = gen.Nat(r, 300)
	return e
}

func ref64(r *mon.Rng) []byte {
	x := ref.LE64(gen.NearMultL(r, 512))
	return x[:]
}

func (e *env) clone() *env {
	c := &env{flat: e.flat}
	// with what lies behind the slice
	full := func(b []byte) []byte { return append([]byte(nil), b[:cap(b)]...)[:len(b):cap(b)] }
	c.Data = full(e.Data)
	for i := range e.Text {
		c.Text = append(c.Text, full(e.Text[i]))
		c.Bin = append(c.Bin, full(e.Bin[i]))
	}
	c.Big = new(big.Int).Set(e.Big)
	return c
}

// diff names what differs between two environments.
func (e *env) diff(o *env) string {
	same := func(a, b []byte) bool { return len(a) == len(b) && bytes.Equal(a[:cap(a)], b[:cap(b)]) }
	if sut.SameMem(&e.flat, sut.Mem(&o.flat)) && same(e.Data, o.Data) && e.Big.Cmp(o.Big) == 0 {
		all := true
		for i := range e.Text {
			all = all && same(e.Text[i], o.Text[i]) && same(e.Bin[i], o.Bin[i])
		}
		if all {
			return ""
		}
		return "a text or binary input"
	}
	switch {
	case e.P != o.P || e.LizP != o.LizP:
		return "a point"
	case e.E != o.E:
		return "an extended point"
	case e.S != o.S:
		return "a scalar"
	case e.F != o.F:
		return "a field element"
	case e.N != o.N:
		return "a Niels point"
	case e.C != o.C:
		return "a completed point"
	case e.R != o.R:
		return "a projective point"
	case e.J != o.J:
		return "a Jacobi point"
	case e.Tab != o.Tab || e.ETab != o.ETab:
		return "a table"
	case e.Big.Cmp(o.Big) != 0:
		return "a big.Int"
	}
	return "a byte buffer"
}

// api is one call of the library: it uses private receivers (filled with
// garbage), reads the environment, and returns its result in a form that does
// not depend on the representation.
type api struct {
	name string
	call func(e *env, r *mon.Rng) []byte
}

// out collects a result.
type out struct{ bytes.Buffer }

func (o *out) pt(p *sut.Point) { o.Write(p.Bytes()) }
func (o *out) ep(p *sut.EP) { // exact Edwards point
	q := sut.POf(p)
	if q.Z.IsZero() {
		o.WriteString("Z=0")
		return
	}
	n := q.Norm()
	x, y, t := n.X.Bytes(), n.Y.Bytes(), n.T.Bytes()
	o.Write(x[:])
	o.Write(y[:])
	o.Write(t[:])
}
func (o *out) pp(p *ed.ProjectivePoint) {
	zi := ref.Inv(sut.FOf(&p.Z))
	x, y := ref.Mul(sut.FOf(&p.X), zi).Bytes(), ref.Mul(sut.FOf(&p.Y), zi).Bytes()
	o.Write(x[:])
	o.Write(y[:])
}
func (o *out) cp(p *ed.CompletedPoint) {
	var e sut.EP
	e.SetCompleted(p)
	o.ep(&e)
}
func (o *out) np(p *ed.NielsPoint) { o.fe(&p.YPlusX); o.fe(&p.YMinusX); o.fe(&p.XY2D) }
func (o *out) fe(f *sut.FE)        { b := f.Bytes(); o.Write(b[:]) }
func (o *out) feAbs(f *sut.FE)     { b := ref.Abs(sut.FOf(f)).Bytes(); o.Write(b[:]) }
func (o *out) sc(s *sut.Sc)        { b := ref.LE32(sut.ScBig(s)); o.Write(b[:]) }
func (o *out) i(x int32)           { fmt.Fprintf(o, "%d;", x) }
func (o *out) b(x bool)            { fmt.Fprintf(o, "%v;", x) }
func (o *out) err(e error)         { fmt.Fprintf(o, "err=%v;", e != nil) }

func chk[T any](o *out, ret, recv *T) {
	if ret != recv {
		o.WriteString("RETURN-VALUE-IS-NOT-THE-RECEIVER")
	}
}

func apiCalls() []api {
	type E = *env
	type R = *mon.Rng
	var l []api
	add := func(name string, f func(o *out, e E, r R)) {
		l = append(l, api{name, func(e *env, r *mon.Rng) []byte {
			var o out
			f(&o, e, r)
			return o.Bytes()
		}})
	}
	pt := func(name string, f func(e E, p *sut.Point) *sut.Point) {
		add("Point."+name, func(o *out, e E, r R) {
			p := sut.JunkPoint(r)
			chk(o, f(e, &p), &p)
			o.pt(&p)
		})
	}
	sc := func(name string, f func(e E, s *sut.Sc) *sut.Sc) {
		add("Scalar."+name, func(o *out, e E, r R) {
			s := sut.JunkSc(r)
			chk(o, f(e, &s), &s)
			o.sc(&s)
		})
	}
	fe := func(name string, f func(e E, x *sut.FE) *sut.FE) {
		add("FieldElement."+name, func(o *out, e E, r R) {
			x := sut.JunkFE(r)
			chk(o, f(e, &x), &x)
			o.fe(&x)
		})
	}
	ep := func(name string, f func(e E, p *sut.EP) *sut.EP) {
		add("ExtendedPoint."+name, func(o *out, e E, r R) {
			p := sut.EP(sut.JunkPoint(r))
			chk(o, f(e, &p), &p)
			o.ep(&p)
		})
	}
	cp := func(name string, f func(e E, p *ed.CompletedPoint) *ed.CompletedPoint) {
		add("CompletedPoint."+name, func(o *out, e E, r R) {
			p := ed.CompletedPoint(sut.JunkPoint(r))
			chk(o, f(e, &p), &p)
			o.cp(&p)
		})
	}
	np := func(name string, f func(e E, p *ed.NielsPoint) *ed.NielsPoint) {
		add("NielsPoint."+name, func(o *out, e E, r R) {
			p := ed.NielsPoint{YPlusX: sut.JunkFE(r), YMinusX: sut.JunkFE(r), XY2D: sut.JunkFE(r)}
			chk(o, f(e, &p), &p)
			o.np(&p)
		})
	}

	// Point
	pt("Add", func(e E, p *sut.Point) *sut.Point { return p.Add(&e.P[0], &e.P[1]) })
	pt("Add(q,q)", func(e E, p *sut.Point) *sut.Point { return p.Add(&e.P[0], &e.P[0]) })
	pt("Sub", func(e E, p *sut.Point) *sut.Point { return p.Sub(&e.P[0], &e.P[1]) })
	pt("Double", func(e E, p *sut.Point) *sut.Point { return p.Double(&e.P[0]) })
	pt("Neg", func(e E, p *sut.Point) *sut.Point { return p.Neg(&e.P[0]) })
	pt("Set", func(e E, p *sut.Point) *sut.Point { return p.Set(&e.P[0]) })
	pt("SetZero", func(e E, p *sut.Point) *sut.Point { return p.SetZero() })
	pt("SetBase", func(e E, p *sut.Point) *sut.Point { return p.SetBase() })
	pt("ScalarMult", func(e E, p *sut.Point) *sut.Point { return p.ScalarMult(&e.P[0], &e.S[0]) })
	pt("PublicScalarMult", func(e E, p *sut.Point) *sut.Point { return p.PublicScalarMult(&e.P[0], &e.S[0]) })
	pt("ScalarMultBase", func(e E, p *sut.Point) *sut.Point { return p.ScalarMultBase(&e.S[0]) })
	pt("PublicScalarMultBase", func(e E, p *sut.Point) *sut.Point { return p.PublicScalarMultBase(&e.S[0]) })
	pt("ScalarMultTable", func(e E, p *sut.Point) *sut.Point { return p.ScalarMultTable(&e.Tab, &e.S[0]) })
	pt("PublicScalarMultTable", func(e E, p *sut.Point) *sut.Point { return p.PublicScalarMultTable(&e.Tab, &e.S[0]) })
	pt("SetElligator", func(e E, p *sut.Point) *sut.Point { return p.SetElligator(&e.B[0]) })
	pt("Derive", func(e E, p *sut.Point) *sut.Point { return p.Derive(e.Data) })
	pt("DeriveDalek", func(e E, p *sut.Point) *sut.Point { return p.DeriveDalek(e.Data) })
	pt("SetLizard", func(e E, p *sut.Point) *sut.Point { return p.SetLizard(&e.Liz) })
	for b := int32(0); b < 2; b++ {
		b := b
		add(fmt.Sprintf("Point.ConditionalSet(%d)", b), func(o *out, e E, r R) {
			p := e.P[1]
			p.ConditionalSet(&e.P[0], b)
			o.pt(&p)
		})
		add(fmt.Sprintf("Scalar.ConditionalSet(%d)", b), func(o *out, e E, r R) {
			s := e.S[1]
			s.ConditionalSet(&e.S[0], b)
			o.sc(&s)
		})
		add(fmt.Sprintf("FieldElement.ConditionalSet(%d)", b), func(o *out, e E, r R) {
			x := e.F[1]
			x.ConditionalSet(&e.F[0], b)
			o.fe(&x)
		})
		add(fmt.Sprintf("ExtendedPoint.ConditionalSet(%d)", b), func(o *out, e E, r R) {
			p := e.E[1]
			chk(o, p.ConditionalSet(&e.E[0], b), &p)
			o.ep(&p)
		})
		add(fmt.Sprintf("NielsPoint.ConditionalSet(%d)", b), func(o *out, e E, r R) {
			p := e.N[1]
			chk(o, p.ConditionalSet(&e.N[0], b), &p)
			o.np(&p)
		})
	}
	for i := 0; i < 3; i++ {
		i := i
		add(fmt.Sprintf("Point.SetBytes(%d)", i), func(o *out, e E, r R) {
			p := e.P[3]
			if ok := p.SetBytes(&e.B[i]); ok {
				o.pt(&p)
			} else {
				o.WriteString("rejected")
			}
		})
		add(fmt.Sprintf("Point.UnmarshalText(%d)", i), func(o *out, e E, r R) {
			p := e.P[3]
			err := p.UnmarshalText(e.Text[i])
			o.err(err)
			if err == nil {
				o.pt(&p)
			}
		})
		add(fmt.Sprintf("Scalar.UnmarshalText(%d)", i), func(o *out, e E, r R) {
			s := e.S[3]
			o.err(s.UnmarshalText(e.Text[i+1]))
			o.sc(&s)
		})
	}
	for i := 0; i < 4; i += 3 {
		i := i
		add(fmt.Sprintf("Point.UnmarshalBinary(%d)", i), func(o *out, e E, r R) {
			p := e.P[3]
			err := p.UnmarshalBinary(e.Bin[i])
			o.err(err)
			if err == nil {
				o.pt(&p)
			}
		})
		add(fmt.Sprintf("Scalar.UnmarshalBinary(%d)", i), func(o *out, e E, r R) {
			s := e.S[3]
			o.err(s.UnmarshalBinary(e.Bin[i]))
			o.sc(&s)
		})
	}
	slice := func(name string, f func(e E) []byte) {
		add(name, func(o *out, e E, r R) {
			x := f(e)
			o.Write(x)
			for i := range x { // the result belongs to the caller
				x[i] ^= byte(r.U64())
			}
			o.Write(f(e))
		})
	}
	slice("Point.Bytes", func(e E) []byte { return e.P[0].Bytes() })
	slice("Point.MarshalBinary", func(e E) []byte { b, _ := e.P[0].MarshalBinary(); return b })
	slice("Point.MarshalText", func(e E) []byte { b, _ := e.P[0].MarshalText(); return b })
	slice("Point.Lizard", func(e E) []byte { return e.LizP.Lizard() })
	slice("Point.Lizard(none)", func(e E) []byte { return e.P[0].Lizard() })
	slice("ExtendedPoint.Ristretto", func(e E) []byte { return (*sut.EP)(&e.P[1]).Ristretto() })
	slice("Scalar.Bytes", func(e E) []byte { return e.S[0].Bytes() })
	slice("Scalar.MarshalBinary", func(e E) []byte { b, _ := e.S[0].MarshalBinary(); return b })
	slice("Scalar.MarshalText", func(e E) []byte { b, _ := e.S[0].MarshalText(); return b })
	add("Point.String", func(o *out, e E, r R) { o.WriteString(e.P[0].String()) })
	add("Scalar.String", func(o *out, e E, r R) { o.WriteString(e.S[0].String()) })
	add("Point.BytesInto", func(o *out, e E, r R) {
		b := r.Arr32()
		chk(o, e.P[0].BytesInto(&b), &e.P[0])
		o.Write(b[:])
	})
	add("Point.LizardInto", func(o *out, e E, r R) {
		var b [16]byte
		copy(b[:], r.Bytes(16))
		err := e.LizP.LizardInto(&b)
		o.err(err)
		if err == nil {
			o.Write(b[:])
		}
	})
	add("Point.Equals", func(o *out, e E, r R) {
		o.b(e.P[0].Equals(&e.P[1]))
		o.i(e.P[0].EqualsI(&e.P[1]))
		o.b(e.P[0].Equals(&e.P[0]))
	})
	add("ExtendedPoint.RistrettoEqualsI", func(o *out, e E, r R) {
		o.i((*sut.EP)(&e.P[0]).RistrettoEqualsI((*sut.EP)(&e.P[1])))
	})
	add("ScalarMultTable.Compute", func(o *out, e E, r R) {
		t := new(ristretto.ScalarMultTable)
		switch r.Intn(3) { // what the table held before
		case 0:
			t[3][3].XY2D = sut.JunkFE(r)
		case 1:
			*t = e.Tab
		case 2:
			q := sut.PointOf(relatedPoint(r, sut.POfPoint(&e.P[0])))
			t.Compute(&q)
		}
		t.Compute(&e.P[0])
		var p sut.Point
		p.ScalarMultTable(t, &e.S[1])
		o.pt(&p)
		p.PublicScalarMultTable(t, &e.S[1])
		o.pt(&p)
	})

	// Scalar
	sc("Add", func(e E, s *sut.Sc) *sut.Sc { return s.Add(&e.S[0], &e.S[1]) })
	sc("Sub", func(e E, s *sut.Sc) *sut.Sc { return s.Sub(&e.S[0], &e.S[1]) })
	sc("Mul", func(e E, s *sut.Sc) *sut.Sc { return s.Mul(&e.S[0], &e.S[1]) })
	sc("Square", func(e E, s *sut.Sc) *sut.Sc { return s.Square(&e.S[0]) })
	sc("Neg", func(e E, s *sut.Sc) *sut.Sc { return s.Neg(&e.S[0]) })
	sc("Inverse", func(e E, s *sut.Sc) *sut.Sc { return s.Inverse(&e.S[0]) })
	sc("MulAdd", func(e E, s *sut.Sc) *sut.Sc { return s.MulAdd(&e.S[0], &e.S[1], &e.S[2]) })
	sc("MulSub", func(e E, s *sut.Sc) *sut.Sc { return s.MulSub(&e.S[0], &e.S[1], &e.S[2]) })
	sc("Set", func(e E, s *sut.Sc) *sut.Sc { return s.Set(&e.S[0]) })
	sc("SetZero", func(e E, s *sut.Sc) *sut.Sc { return s.SetZero() })
	sc("SetOne", func(e E, s *sut.Sc) *sut.Sc { return s.SetOne() })
	sc("SetUint64", func(e E, s *sut.Sc) *sut.Sc { return s.SetUint64(uint64(e.B[0][0])<<56 | uint64(e.B[0][1])) })
	sc("SetBytes", func(e E, s *sut.Sc) *sut.Sc { return s.SetBytes(&e.B[0]) })
	sc("SetReduced", func(e E, s *sut.Sc) *sut.Sc { return s.SetReduced(&e.B64) })
	sc("SetBigInt", func(e E, s *sut.Sc) *sut.Sc { return s.SetBigInt(e.Big) })
	sc("Derive", func(e E, s *sut.Sc) *sut.Sc { return s.Derive(e.Data) })
	sc("DeriveShort", func(e E, s *sut.Sc) *sut.Sc { return s.DeriveShort(e.Data) })
	add("Scalar.SetBytesStrict", func(o *out, e E, r R) {
		s := e.S[3]
		o.b(s.SetBytesStrict(&e.B[0]))
		o.b(s.SetBytesStrict(&e.Low))
		o.sc(&s)
	})
	add("Scalar.BytesInto", func(o *out, e E, r R) {
		b := r.Arr32()
		chk(o, e.S[0].BytesInto(&b), &e.S[0])
		o.Write(b[:])
	})
	add("Scalar.BigInt", func(o *out, e E, r R) {
		x := e.S[0].BigInt()
		o.WriteString(x.String())
		x.SetInt64(5)
		o.WriteString(e.S[0].BigInt().String())
	})
	add("Scalar.Equals", func(o *out, e E, r R) {
		o.b(e.S[0].Equals(&e.S[1]))
		o.i(e.S[0].EqualsI(&e.S[1]))
		o.i(e.S[0].IsNonZeroI())
	})

	// FieldElement
	fe("Add", func(e E, x *sut.FE) *sut.FE { return x.Add(&e.F[0], &e.F[1]) })
	fe("Sub", func(e E, x *sut.FE) *sut.FE { return x.Sub(&e.F[0], &e.F[1]) })
	fe("Mul", func(e E, x *sut.FE) *sut.FE { return x.Mul(&e.F[0], &e.F[1]) })
	fe("Neg", func(e E, x *sut.FE) *sut.FE { return x.Neg(&e.F[0]) })
	fe("Abs", func(e E, x *sut.FE) *sut.FE { return x.Abs(&e.F[0]) })
	fe("Square", func(e E, x *sut.FE) *sut.FE { return x.Square(&e.F[0]) })
	fe("DoubledSquare", func(e E, x *sut.FE) *sut.FE { return x.DoubledSquare(&e.F[0]) })
	fe("Inverse", func(e E, x *sut.FE) *sut.FE { return x.Inverse(&e.F[0]) })
	fe("Exp22523", func(e E, x *sut.FE) *sut.FE { return x.Exp22523(&e.F[0]) })
	fe("Set", func(e E, x *sut.FE) *sut.FE { return x.Set(&e.F[0]) })
	fe("SetZero", func(e E, x *sut.FE) *sut.FE { return x.SetZero() })
	fe("SetOne", func(e E, x *sut.FE) *sut.FE { return x.SetOne() })
	fe("SetI", func(e E, x *sut.FE) *sut.FE { return x.SetI() })
	fe("SetBytes", func(e E, x *sut.FE) *sut.FE { return x.SetBytes(&e.B[0]) })
	fe("SetBigInt", func(e E, x *sut.FE) *sut.FE { return x.SetBigInt(e.Big) })
	add("FieldElement.Sqrt", func(o *out, e E, r R) {
		x := sut.JunkFE(r)
		chk(o, x.Sqrt(&e.F[3]), &x)
		o.feAbs(&x)
	})
	for i := 2; i < 4; i++ {
		i := i
		add(fmt.Sprintf("FieldElement.InvSqrtI(%d)", i), func(o *out, e E, r R) {
			x := sut.JunkFE(r)
			o.i(x.InvSqrtI(&e.F[i]))
			o.feAbs(&x)
		})
	}
	add("FieldElement.InvSqrt", func(o *out, e E, r R) {
		x := sut.JunkFE(r)
		chk(o, x.InvSqrt(&e.F[3]), &x)
		o.feAbs(&x)
	})
	add("FieldElement.Bytes", func(o *out, e E, r R) {
		b := e.F[0].Bytes()
		o.Write(b[:])
		c := r.Arr32()
		chk(o, e.F[0].BytesInto(&c), &e.F[0])
		o.Write(c[:])
		o.WriteString(e.F[0].String())
		o.WriteString(e.F[0].BigInt().String())
	})
	add("FieldElement.predicates", func(o *out, e E, r R) {
		o.i(e.F[0].IsNegativeI())
		o.i(e.F[0].IsNonZeroI())
		o.i(e.F[0].IsOneI())
		o.b(e.F[0].Equals(&e.F[1]))
		o.i(e.F[0].EqualsI(&e.F[1]))
	})

	// curve
	ep("Add", func(e E, p *sut.EP) *sut.EP { return p.Add(&e.E[0], &e.E[1]) })
	ep("Sub", func(e E, p *sut.EP) *sut.EP { return p.Sub(&e.E[0], &e.E[1]) })
	ep("Double", func(e E, p *sut.EP) *sut.EP { return p.Double(&e.E[0]) })
	ep("Neg", func(e E, p *sut.EP) *sut.EP { return p.Neg(&e.E[0]) })
	ep("Set", func(e E, p *sut.EP) *sut.EP { return p.Set(&e.E[0]) })
	ep("SetCompleted", func(e E, p *sut.EP) *sut.EP { return p.SetCompleted(&e.C[0]) })
	ep("SetZero", func(e E, p *sut.EP) *sut.EP { return p.SetZero() })
	ep("SetTorsion1", func(e E, p *sut.EP) *sut.EP { return p.SetTorsion1() })
	ep("SetTorsion2", func(e E, p *sut.EP) *sut.EP { return p.SetTorsion2() })
	ep("SetTorsion3", func(e E, p *sut.EP) *sut.EP { return p.SetTorsion3() })
	ep("ScalarMult", func(e E, p *sut.EP) *sut.EP { return p.ScalarMult(&e.E[0], &e.Low) })
	ep("VarTimeScalarMult", func(e E, p *sut.EP) *sut.EP { return p.VarTimeScalarMult(&e.E[0], &e.Low) })
	ep("table.ScalarMult", func(e E, p *sut.EP) *sut.EP { e.ETab.ScalarMult(p, &e.Low); return p })
	ep("table.VarTimeScalarMult", func(e E, p *sut.EP) *sut.EP { e.ETab.VarTimeScalarMult(p, &e.Low); return p })
	ep("base.ScalarMult", func(e E, p *sut.EP) *sut.EP { ed.BaseScalarMultTable.ScalarMult(p, &e.Low); return p })
	ep("base.VarTimeScalarMult", func(e E, p *sut.EP) *sut.EP { ed.BaseScalarMultTable.VarTimeScalarMult(p, &e.Low); return p })
	add("ExtendedPoint.SetRistretto", func(o *out, e E, r R) {
		p := sut.EP(e.P[3])
		if ok := p.SetRistretto(&e.B[1]); ok {
			o.Write(p.Ristretto())
		} else {
			o.WriteString("rejected")
		}
	})
	add("ExtendedPoint.RistrettoInto", func(o *out, e E, r R) {
		b := r.Arr32()
		p := (*sut.EP)(&e.P[0])
		chk(o, p.RistrettoInto(&b), p)
		o.Write(b[:])
	})
	add("ExtendedPoint.SetBase", func(o *out, e E, r R) {
		p := sut.EP(sut.JunkPoint(r))
		chk(o, p.SetBase(), &p)
		o.Write(p.Ristretto())
	})
	add("ExtendedPoint.RistrettoElligator2Inverse", func(o *out, e E, r R) {
		var fes [8]sut.FE
		for i := range fes {
			fes[i] = sut.JunkFE(r)
		}
		m := (*sut.EP)(&e.P[0]).RistrettoElligator2Inverse(&fes)
		var set []string
		for j := 0; j < 8; j++ {
			if m>>uint(j)&1 == 1 {
				b := fes[j].Bytes()
				set = append(set, fmt.Sprintf("%x", b))
			}
		}
		sort.Strings(set)
		last := ""
		for _, s := range set {
			if s != last {
				o.WriteString(s)
			}
			last = s
		}
	})
	add("ExtendedPoint.ToJacobiQuarticRistretto", func(o *out, e E, r R) {
		qs := [4]ed.JacobiPoint{junkJP(r), junkJP(r), junkJP(r), junkJP(r)}
		p := (*sut.EP)(&e.P[0])
		chk(o, p.ToJacobiQuarticRistretto(&qs), p)
		for i := range qs {
			c, x := junkCP(r), junkEP(r)
			x.SetCompleted(c.SetJacobiQuartic(&qs[i]))
			o.Write(x.Ristretto())
		}
	})
	cp("AddExtended", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.AddExtended(&e.E[0], &e.E[1]) })
	cp("SubExtended", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.SubExtended(&e.E[0], &e.E[1]) })
	cp("AddExtendedNiels", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.AddExtendedNiels(&e.E[0], &e.N[1]) })
	cp("SubExtendedNiels", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.SubExtendedNiels(&e.E[0], &e.N[1]) })
	cp("DoubleExtended", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.DoubleExtended(&e.E[0]) })
	cp("DoubleProjective", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.DoubleProjective(&e.R[0]) })
	cp("SetJacobiQuartic", func(e E, p *ed.CompletedPoint) *ed.CompletedPoint { return p.SetJacobiQuartic(&e.J[0]) })
	add("CompletedPoint.SetRistrettoElligator2", func(o *out, e E, r R) {
		p := ed.CompletedPoint(sut.JunkPoint(r))
		chk(o, p.SetRistrettoElligator2(&e.F[0]), &p)
		x := junkEP(r)
		x.SetCompleted(&p)
		o.Write(x.Ristretto())
	})
	np("Set", func(e E, p *ed.NielsPoint) *ed.NielsPoint { return p.Set(&e.N[0]) })
	np("Neg", func(e E, p *ed.NielsPoint) *ed.NielsPoint { return p.Neg(&e.N[0]) })
	np("SetExtended", func(e E, p *ed.NielsPoint) *ed.NielsPoint { return p.SetExtended(&e.E[0]) })
	np("SetZero", func(e E, p *ed.NielsPoint) *ed.NielsPoint { return p.SetZero() })
	add("ProjectivePoint.SetExtended", func(o *out, e E, r R) {
		p := junkPP(r)
		chk(o, p.SetExtended(&e.E[0]), &p)
		o.pp(&p)
	})
	add("ProjectivePoint.SetZero", func(o *out, e E, r R) {
		p := junkPP(r)
		chk(o, p.SetZero(), &p)
		o.pp(&p)
	})
	add("ProjectivePoint.SetCompleted", func(o *out, e E, r R) {
		p := junkPP(r)
		chk(o, p.SetCompleted(&e.C[0]), &p)
		o.pp(&p)
	})
	add("JacobiPoint.Dual", func(o *out, e E, r R) {
		j := junkJP(r)
		chk(o, j.Dual(&e.J[0]), &j)
		o.fe(&j.S)
		o.fe(&j.T)
	})
	add("String", func(o *out, e E, r R) {
		// how curve points print depends on the representation, but
		// printing must not write
		_ = e.E[0].String()
		_ = e.C[0].String()
		o.WriteString(e.J[0].String())
	})
	return l
}
