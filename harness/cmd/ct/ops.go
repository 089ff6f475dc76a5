package main

import (
	"fmt"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type state struct {
	P   [3]sut.Point
	S   [4]sut.Sc
	F   [3]sut.FE
	N   ed.NielsPoint
	B   [2][32]byte
	B64 [64]byte
	Liz [16]byte
	Bit int32
	// outputs
	OP   sut.Point
	OS   sut.Sc
	OF   sut.FE
	OC   ed.CompletedPoint
	OR   ed.ProjectivePoint
	ON   ed.NielsPoint
	OB   [32]byte
	OI   int32
	OL   bool
	OLiz [16]byte
	O8   [8]sut.FE
	OJ   [4]ed.JacobiPoint
	OT   ristretto.ScalarMultTable
	Data,
	Slice []byte
	Tab ristretto.ScalarMultTable // public: of a public point
}

type op struct {
	name string
	run  func(s *state)
	out  func(s *state) []mem
	// part of the result that the operation may reveal; nil: nothing
	class func(s *state) string
	// revealing it is all it may do, also in the eyes of memcheck
	taintToo bool
}

type taintedReader struct{ r *mon.Rng }

func (t taintedReader) Read(b []byte) (int, error) {
	copy(b, t.r.Bytes(len(b)))
	ofSlice(b).taint()
	return len(b), nil
}

var sink int

func ops() []op {
	type S = *state
	outcome := func(s S) string { return fmt.Sprint(s.OL) }
	oP := func(s S) []mem { return []mem{of(&s.OP)} }
	oS := func(s S) []mem { return []mem{of(&s.OS)} }
	oF := func(s S) []mem { return []mem{of(&s.OF)} }
	oC := func(s S) []mem { return []mem{of(&s.OC)} }
	oN := func(s S) []mem { return []mem{of(&s.ON)} }
	oB := func(s S) []mem { return []mem{of(&s.OB)} }
	oI := func(s S) []mem { return []mem{of(&s.OI)} }
	oL := func(s S) []mem { return []mem{of(&s.OL)} }
	oSl := func(s S) []mem { return []mem{ofSlice(s.Slice)} }
	E := func(p *sut.Point) *sut.EP { return (*sut.EP)(p) }
	return []op{
		{"Point.Add", func(s S) { s.OP.Add(&s.P[0], &s.P[1]) }, oP, nil, false},
		{"Point.Sub", func(s S) { s.OP.Sub(&s.P[0], &s.P[1]) }, oP, nil, false},
		{"Point.Double", func(s S) { s.OP.Double(&s.P[0]) }, oP, nil, false},
		{"Point.Neg", func(s S) { s.OP.Neg(&s.P[0]) }, oP, nil, false},
		{"Point.Set", func(s S) { s.OP.Set(&s.P[0]) }, oP, nil, false},
		{"Point.ConditionalSet", func(s S) { s.OP.SetZero(); s.OP.ConditionalSet(&s.P[0], s.Bit) }, oP, nil, false},
		{"Point.EqualsI", func(s S) { s.OI = s.P[0].EqualsI(&s.P[1]) }, oI, nil, false},
		{"Point.Equals", func(s S) { s.OL = s.P[0].Equals(&s.P[1]) }, oL, outcome, true},
		{"Point.BytesInto", func(s S) { s.P[0].BytesInto(&s.OB) }, oB, nil, false},
		{"Point.Bytes", func(s S) { s.Slice = s.P[0].Bytes() }, oSl, nil, false},
		{"Point.MarshalBinary", func(s S) { s.Slice, _ = s.P[0].MarshalBinary() }, oSl, nil, false},
		{"Point.SetBytes", func(s S) { s.OL = s.OP.SetBytes(&s.B[0]) }, func(s S) []mem { return []mem{of(&s.OP), of(&s.OL)} }, outcome, true},
		{"Point.SetElligator", func(s S) { s.OP.SetElligator(&s.B[0]) }, oP, nil, false},
		{"Point.SetLizard", func(s S) { s.OP.SetLizard(&s.Liz) }, oP, nil, false},
		{"Point.Derive", func(s S) { s.OP.Derive(s.Data) }, oP, nil, false},
		{"Point.DeriveDalek", func(s S) { s.OP.DeriveDalek(s.Data) }, oP, nil, false},
		{"Point.ScalarMult", func(s S) { s.OP.ScalarMult(&s.P[0], &s.S[0]) }, oP, nil, false},
		{"Point.ScalarMultBase", func(s S) { s.OP.ScalarMultBase(&s.S[0]) }, oP, nil, false},
		{"Point.ScalarMultTable", func(s S) { s.OP.ScalarMultTable(&s.Tab, &s.S[0]) }, oP, nil, false},
		{"ScalarMultTable.Compute", func(s S) { s.OT.Compute(&s.P[0]) }, func(s S) []mem { return []mem{of(&s.OT)} }, nil, false},
		{"Point.Rand", func(s S) { s.OP.Rand() }, oP, nil, false},

		{"Scalar.Add", func(s S) { s.OS.Add(&s.S[0], &s.S[1]) }, oS, nil, false},
		{"Scalar.Sub", func(s S) { s.OS.Sub(&s.S[0], &s.S[1]) }, oS, nil, false},
		{"Scalar.Neg", func(s S) { s.OS.Neg(&s.S[0]) }, oS, nil, false},
		{"Scalar.Mul", func(s S) { s.OS.Mul(&s.S[0], &s.S[1]) }, oS, nil, false},
		{"Scalar.Square", func(s S) { s.OS.Square(&s.S[0]) }, oS, nil, false},
		{"Scalar.MulAdd", func(s S) { s.OS.MulAdd(&s.S[0], &s.S[1], &s.S[2]) }, oS, nil, false},
		{"Scalar.MulSub", func(s S) { s.OS.MulSub(&s.S[0], &s.S[1], &s.S[2]) }, oS, nil, false},
		{"Scalar.Inverse", func(s S) { s.OS.Inverse(&s.S[0]) }, oS, nil, false},
		{"Scalar.Set", func(s S) { s.OS.Set(&s.S[0]) }, oS, nil, false},
		{"Scalar.ConditionalSet", func(s S) { s.OS.SetOne(); s.OS.ConditionalSet(&s.S[0], s.Bit) }, oS, nil, false},
		{"Scalar.SetBytes", func(s S) { s.OS.SetBytes(&s.B[0]) }, oS, nil, false},
		{"Scalar.SetReduced", func(s S) { s.OS.SetReduced(&s.B64) }, oS, nil, false},
		{"Scalar.Derive", func(s S) { s.OS.Derive(s.Data) }, oS, nil, false},
		{"Scalar.DeriveShort", func(s S) { s.OS.DeriveShort(s.Data) }, oS, nil, false},
		{"Scalar.UnmarshalBinary", func(s S) { s.OS.UnmarshalBinary(s.B[0][:]) }, oS, nil, false},
		{"Scalar.BytesInto", func(s S) { s.S[0].BytesInto(&s.OB) }, oB, nil, false},
		{"Scalar.Bytes", func(s S) { s.Slice = s.S[0].Bytes() }, oSl, nil, false},
		{"Scalar.MarshalBinary", func(s S) { s.Slice, _ = s.S[0].MarshalBinary() }, oSl, nil, false},
		{"Scalar.EqualsI", func(s S) { s.OI = s.S[0].EqualsI(&s.S[1]) }, oI, nil, false},
		{"Scalar.Equals", func(s S) { s.OL = s.S[0].Equals(&s.S[1]) }, oL, outcome, true},
		{"Scalar.IsNonZeroI", func(s S) { s.OI = s.S[0].IsNonZeroI() }, oI, nil, false},
		{"Scalar.Rand", func(s S) { s.OS.Rand() }, oS, nil, false},

		{"FieldElement.Add", func(s S) { s.OF.Add(&s.F[0], &s.F[1]) }, oF, nil, false},
		{"FieldElement.Sub", func(s S) { s.OF.Sub(&s.F[0], &s.F[1]) }, oF, nil, false},
		{"FieldElement.Neg", func(s S) { s.OF.Neg(&s.F[0]) }, oF, nil, false},
		{"FieldElement.Abs", func(s S) { s.OF.Abs(&s.F[0]) }, oF, nil, false},
		{"FieldElement.Mul", func(s S) { s.OF.Mul(&s.F[0], &s.F[1]) }, oF, nil, false},
		{"FieldElement.Square", func(s S) { s.OF.Square(&s.F[0]) }, oF, nil, false},
		{"FieldElement.DoubledSquare", func(s S) { s.OF.DoubledSquare(&s.F[0]) }, oF, nil, false},
		{"FieldElement.Inverse", func(s S) { s.OF.Inverse(&s.F[0]) }, oF, nil, false},
		{"FieldElement.Sqrt", func(s S) { s.OF.Sqrt(&s.F[2]) }, oF, nil, false},
		{"FieldElement.InvSqrt", func(s S) { s.OF.InvSqrt(&s.F[2]) }, oF, nil, false},
		{"FieldElement.InvSqrtI", func(s S) { s.OI = s.OF.InvSqrtI(&s.F[0]) }, func(s S) []mem { return []mem{of(&s.OF), of(&s.OI)} }, nil, false},
		{"FieldElement.Exp22523", func(s S) { s.OF.Exp22523(&s.F[0]) }, oF, nil, false},
		{"FieldElement.ConditionalSet", func(s S) { s.OF.SetOne(); s.OF.ConditionalSet(&s.F[0], s.Bit) }, oF, nil, false},
		{"FieldElement.SetBytes", func(s S) { s.OF.SetBytes(&s.B[0]) }, oF, nil, false},
		{"FieldElement.BytesInto", func(s S) { s.F[0].BytesInto(&s.OB) }, oB, nil, false},
		{"FieldElement.IsNegativeI", func(s S) { s.OI = s.F[0].IsNegativeI() }, oI, nil, false},
		{"FieldElement.IsNonZeroI", func(s S) { s.OI = s.F[0].IsNonZeroI() }, oI, nil, false},
		{"FieldElement.IsOneI", func(s S) { s.OI = s.F[0].IsOneI() }, oI, nil, false},
		{"FieldElement.EqualsI", func(s S) { s.OI = s.F[0].EqualsI(&s.F[1]) }, oI, nil, false},
		{"FieldElement.Equals", func(s S) { s.OL = s.F[0].Equals(&s.F[1]) }, oL, outcome, true},

		{"ExtendedPoint.ScalarMult", func(s S) { b := &s.B[1]; E(&s.OP).ScalarMult(E(&s.P[0]), b) }, oP, nil, false},
		{"ExtendedPoint.RistrettoEqualsI", func(s S) { s.OI = E(&s.P[0]).RistrettoEqualsI(E(&s.P[1])) }, oI, nil, false},
		{"ExtendedPoint.RistrettoElligator2Inverse", func(s S) { s.OI = int32(E(&s.P[0]).RistrettoElligator2Inverse(&s.O8)) }, func(s S) []mem { return []mem{of(&s.O8), of(&s.OI)} }, nil, false},
		{"ExtendedPoint.ToJacobiQuarticRistretto", func(s S) { E(&s.P[0]).ToJacobiQuarticRistretto(&s.OJ) }, func(s S) []mem { return []mem{of(&s.OJ)} }, nil, false},
		{"CompletedPoint.SetRistrettoElligator2", func(s S) { s.OC.SetRistrettoElligator2(&s.F[0]) }, oC, nil, false},
		{"CompletedPoint.AddExtendedNiels", func(s S) { s.OC.AddExtendedNiels(E(&s.P[0]), &s.N) }, oC, nil, false},
		{"CompletedPoint.SubExtendedNiels", func(s S) { s.OC.SubExtendedNiels(E(&s.P[0]), &s.N) }, oC, nil, false},
		{"CompletedPoint.DoubleExtended", func(s S) { s.OC.DoubleExtended(E(&s.P[0])) }, oC, nil, false},
		{"NielsPoint.SetExtended", func(s S) { s.ON.SetExtended(E(&s.P[0])) }, oN, nil, false},
		{"NielsPoint.Neg", func(s S) { s.ON.Neg(&s.N) }, oN, nil, false},
		{"NielsPoint.ConditionalSet", func(s S) { s.ON.SetZero(); s.ON.ConditionalSet(&s.N, s.Bit) }, oN, nil, false},

		{"CompletedPoint.AddExtended", func(s S) { s.OC.AddExtended(E(&s.P[0]), E(&s.P[1])) }, oC, nil, false},
		{"CompletedPoint.SubExtended", func(s S) { s.OC.SubExtended(E(&s.P[0]), E(&s.P[1])) }, oC, nil, false},
		{"CompletedPoint.DoubleProjective", func(s S) { var pp ed.ProjectivePoint; pp.SetExtended(E(&s.P[0])); s.OC.DoubleProjective(&pp) }, oC, nil, false},
		{"CompletedPoint.SetJacobiQuartic", func(s S) { s.OC.SetJacobiQuartic(&ed.JacobiPoint{S: s.F[0], T: s.F[1]}) }, oC, nil, false},
		{"JacobiPoint.Dual", func(s S) { s.OJ[0].Dual(&ed.JacobiPoint{S: s.F[0], T: s.F[1]}) }, func(s S) []mem { return []mem{of(&s.OJ[0])} }, nil, false},

		// These reveal whether they succeeded, and nothing else.
		{"Point.LizardInto", func(s S) { s.OL = s.OP.LizardInto(&s.OLiz) == nil }, func(s S) []mem { return []mem{of(&s.OLiz)} }, outcome, true},
		{"Point.Lizard", func(s S) { s.Slice = s.OP.Lizard(); s.OL = s.Slice != nil }, oSl, outcome, true},
		{"Point.UnmarshalBinary", func(s S) { s.OL = s.OP.UnmarshalBinary(s.B[0][:]) == nil }, oP, outcome, true},
		{"Scalar.SetBytesStrict", func(s S) { s.OL = s.OS.SetBytesStrict(&s.B[1]) }, nil, outcome, false},

		// does the instrument work? these leak on purpose
		{"control:branch", func(s S) {
			if s.S[0][3]&4 != 0 {
				sink++
			} else {
				sink += 3
			}
			s.OI = int32(s.S[0][3])
		}, oI, nil, false},
		{"control:index", func(s S) { s.OI = int32(controlTable[s.S[0][2]&255]) }, oI, nil, false},
	}
}

var controlTable [256]uint32

// fill draws the k-th set of operands of an operation.
func fill(s *state, o *op, r *mon.Rng) {
	*s = state{}
	for j := range s.P {
		m, _ := gen.Point(r)
		s.P[j] = sut.PointStyle(r, m)
	}
	if r.Intn(3) == 0 {
		s.P[1] = s.P[0]
	}
	for j := range s.S {
		x, _ := gen.Scalar(r)
		s.S[j] = sut.ScOf(x)
	}
	if r.Intn(3) == 0 {
		s.S[1] = s.S[0]
	}
	for j := range s.F {
		f, _ := gen.F(r)
		if j == 2 {
			f = ref.Sq(f)
		}
		s.F[j] = sut.FEOf(f)
	}
	m, _ := gen.Element(r)
	e := sut.EPOf(m)
	s.N.SetExtended(&e)
	s.B[0], _ = gen.Buf32(r)
	if r.Bool() {
		s.B[0] = m.Encode()
	}
	x, _ := gen.Scalar(r)
	s.B[1] = ref.LE32(x)
	copy(s.B64[:], r.Bytes(64))
	copy(s.Liz[:], r.Bytes(16))
	s.Bit = int32(r.Intn(2))
	s.Data = r.Bytes(1 + 37*r.Intn(4))
	if o.name == "Point.ScalarMultTable" {
		s.Tab.Compute(&s.P[2])
	}

	// operations whose outcome is public: make both outcomes likely
	if o.name == "Point.LizardInto" || o.name == "Point.Lizard" {
		s.OP.Set(&s.P[0])
		if r.Intn(4) > 0 {
			s.OP.SetLizard(&s.Liz)
		}
	}
	if o.name == "Scalar.SetBytesStrict" && r.Intn(3) == 0 {
		copy(s.B[1][:], r.Bytes(32))
	}
}
