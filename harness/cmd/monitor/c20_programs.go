package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C20"] = c20 }

const (
	nP = 4 // points
	nS = 4 // scalars
	nB = 3 // byte buffers
)

// machine runs a straight-line program on the library and on the model.
type machine struct {
	t   *mon.T
	p   [nP]sut.Point
	s   [nS]sut.Sc
	b   [nB][32]byte
	tab *ristretto.ScalarMultTable
	big *big.Int

	mp  [nP]ref.P
	ms  [nS]*big.Int
	mb  [nB][32]byte
	mt  ref.P
	hot bool // tab was computed
	log []string
}

type step struct {
	name string
	do   func(m *machine) // changes the library and the model alike
}

func (m *machine) P() int { return m.t.Intn(nP) }
func (m *machine) S() int { return m.t.Intn(nS) }
func (m *machine) B() int { return m.t.Intn(nB) }

func (m *machine) say(f string, a ...any) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

// ret checks that a method returned its receiver.
func retP(m *machine, got, want *sut.Point) {
	m.t.Assert(got == want, "%s does not return its receiver", m.log[len(m.log)-1])
}
func retS(m *machine, got, want *sut.Sc) {
	m.t.Assert(got == want, "%s does not return its receiver", m.log[len(m.log)-1])
}

func (m *machine) setS(i int, v *big.Int) { m.ms[i] = ref.ModL(v) }

func programSteps() []step {
	bi := func() *big.Int { return new(big.Int) }
	return []step{
		{"Point.Add", func(m *machine) {
			r, a, b := m.P(), m.P(), m.P()
			m.say("p%d.Add(p%d, p%d)", r, a, b)
			retP(m, m.p[r].Add(&m.p[a], &m.p[b]), &m.p[r])
			m.mp[r] = ref.PAdd(m.mp[a], m.mp[b])
		}},
		{"Point.Sub", func(m *machine) {
			r, a, b := m.P(), m.P(), m.P()
			m.say("p%d.Sub(p%d, p%d)", r, a, b)
			retP(m, m.p[r].Sub(&m.p[a], &m.p[b]), &m.p[r])
			m.mp[r] = ref.PSub(m.mp[a], m.mp[b])
		}},
		{"Point.Double", func(m *machine) {
			r, a := m.P(), m.P()
			m.say("p%d.Double(p%d)", r, a)
			retP(m, m.p[r].Double(&m.p[a]), &m.p[r])
			m.mp[r] = ref.PAdd(m.mp[a], m.mp[a])
		}},
		{"Point.Neg", func(m *machine) {
			r, a := m.P(), m.P()
			m.say("p%d.Neg(p%d)", r, a)
			retP(m, m.p[r].Neg(&m.p[a]), &m.p[r])
			m.mp[r] = ref.PNeg(m.mp[a])
		}},
		{"Point.Set", func(m *machine) {
			r, a := m.P(), m.P()
			m.say("p%d.Set(p%d)", r, a)
			retP(m, m.p[r].Set(&m.p[a]), &m.p[r])
			m.mp[r] = m.mp[a]
		}},
		{"Point.ConditionalSet", func(m *machine) {
			r, a, b := m.P(), m.P(), m.t.Intn(2)
			m.say("p%d.ConditionalSet(p%d, %d)", r, a, b)
			m.p[r].ConditionalSet(&m.p[a], int32(b))
			if b == 1 {
				m.mp[r] = m.mp[a]
			}
		}},
		{"Point.SetZero", func(m *machine) {
			r := m.P()
			m.say("p%d.SetZero()", r)
			retP(m, m.p[r].SetZero(), &m.p[r])
			m.mp[r] = ref.Ident
		}},
		{"Point.SetBase", func(m *machine) {
			r := m.P()
			m.say("p%d.SetBase()", r)
			retP(m, m.p[r].SetBase(), &m.p[r])
			m.mp[r] = ref.B
		}},
		{"Point.ScalarMult", func(m *machine) {
			r, a, s := m.P(), m.P(), m.S()
			m.say("p%d.ScalarMult(p%d, s%d)", r, a, s)
			retP(m, m.p[r].ScalarMult(&m.p[a], &m.s[s]), &m.p[r])
			m.mp[r] = ref.PMul(m.ms[s], m.mp[a])
		}},
		{"Point.PublicScalarMult", func(m *machine) {
			r, a, s := m.P(), m.P(), m.S()
			m.say("p%d.PublicScalarMult(p%d, s%d)", r, a, s)
			retP(m, m.p[r].PublicScalarMult(&m.p[a], &m.s[s]), &m.p[r])
			m.mp[r] = ref.PMul(m.ms[s], m.mp[a])
		}},
		{"Point.ScalarMultBase", func(m *machine) {
			r, s := m.P(), m.S()
			m.say("p%d.ScalarMultBase(s%d)", r, s)
			retP(m, m.p[r].ScalarMultBase(&m.s[s]), &m.p[r])
			m.mp[r] = ref.PMulBase(m.ms[s])
		}},
		{"Point.PublicScalarMultBase", func(m *machine) {
			r, s := m.P(), m.S()
			m.say("p%d.PublicScalarMultBase(s%d)", r, s)
			retP(m, m.p[r].PublicScalarMultBase(&m.s[s]), &m.p[r])
			m.mp[r] = ref.PMulBase(m.ms[s])
		}},
		{"ScalarMultTable.Compute", func(m *machine) {
			a := m.P()
			m.say("t.Compute(p%d)", a)
			m.tab.Compute(&m.p[a])
			m.mt, m.hot = m.mp[a], true
		}},
		{"Point.ScalarMultTable", func(m *machine) {
			r, s := m.P(), m.S()
			if !m.hot {
				m.say("t.Compute(p%d)", r)
				m.tab.Compute(&m.p[r])
				m.mt, m.hot = m.mp[r], true
			}
			m.say("p%d.ScalarMultTable(t, s%d)", r, s)
			retP(m, m.p[r].ScalarMultTable(m.tab, &m.s[s]), &m.p[r])
			m.mp[r] = ref.PMul(m.ms[s], m.mt)
		}},
		{"Point.PublicScalarMultTable", func(m *machine) {
			if !m.hot {
				m.say("nop")
				return
			}
			r, s := m.P(), m.S()
			m.say("p%d.PublicScalarMultTable(t, s%d)", r, s)
			retP(m, m.p[r].PublicScalarMultTable(m.tab, &m.s[s]), &m.p[r])
			m.mp[r] = ref.PMul(m.ms[s], m.mt)
		}},
		{"Point.BytesInto", func(m *machine) {
			a, b := m.P(), m.B()
			m.say("p%d.BytesInto(b%d)", a, b)
			retP(m, m.p[a].BytesInto(&m.b[b]), &m.p[a])
			m.mb[b] = m.mp[a].Encode()
		}},
		{"Point.SetBytes", func(m *machine) {
			r, b := m.P(), m.B()
			m.say("p%d.SetBytes(b%d)", r, b)
			old := m.p[r]
			ok := m.p[r].SetBytes(&m.b[b])
			q, valid := ref.Decode(&m.mb[b])
			m.t.Assert(ok == valid, "SetBytes(%x) = %v", m.mb[b], ok)
			if valid {
				m.mp[r] = q
				m.t.Count("decoded")
			} else {
				m.p[r] = old // the receiver is unusable
				m.t.Count("not-decoded")
			}
		}},
		{"Point.SetElligator", func(m *machine) {
			r, b := m.P(), m.B()
			m.say("p%d.SetElligator(b%d)", r, b)
			retP(m, m.p[r].SetElligator(&m.b[b]), &m.p[r])
			m.mp[r] = ref.MapBytes(&m.mb[b])
		}},
		{"Point.Derive", func(m *machine) {
			r, b := m.P(), m.B()
			m.say("p%d.Derive(b%d)", r, b)
			retP(m, m.p[r].Derive(m.b[b][:]), &m.p[r])
			m.mp[r] = ref.Derive(m.mb[b][:])
		}},
		{"Point.DeriveDalek", func(m *machine) {
			r, b := m.P(), m.B()
			m.say("p%d.DeriveDalek(b%d)", r, b)
			retP(m, m.p[r].DeriveDalek(m.b[b][:]), &m.p[r])
			m.mp[r] = ref.DeriveDalek(m.mb[b][:])
		}},
		{"Point.SetLizard", func(m *machine) {
			r, b := m.P(), m.B()
			m.say("p%d.SetLizard(b%d[:16])", r, b)
			var d [16]byte
			copy(d[:], m.b[b][:])
			retP(m, m.p[r].SetLizard(&d), &m.p[r])
			copy(d[:], m.mb[b][:])
			m.mp[r] = ref.Lizard(&d)
			if got := m.p[r].Lizard(); !bytes.Equal(got, d[:]) {
				m.t.Fail("Lizard returns %x for the point of %x", got, d)
			}
		}},
		{"Point.UnmarshalText(MarshalText)", func(m *machine) {
			r, a := m.P(), m.P()
			m.say("p%d.UnmarshalText(p%d.MarshalText())", r, a)
			txt, err := m.p[a].MarshalText()
			if err == nil {
				err = m.p[r].UnmarshalText(txt)
			}
			m.t.Assert(err == nil, "%v", err)
			m.mp[r] = m.mp[a]
		}},
		{"Point.UnmarshalBinary(MarshalBinary)", func(m *machine) {
			r, a := m.P(), m.P()
			m.say("p%d.UnmarshalBinary(p%d.MarshalBinary())", r, a)
			x, err := m.p[a].MarshalBinary()
			if err == nil {
				err = m.p[r].UnmarshalBinary(x)
			}
			m.t.Assert(err == nil, "%v", err)
			m.mp[r] = m.mp[a]
		}},
		{"Point.Equals", func(m *machine) {
			a, b := m.P(), m.P()
			m.say("p%d.Equals(p%d)", a, b)
			want := ref.Same(m.mp[a], m.mp[b])
			m.t.Assert(m.p[a].Equals(&m.p[b]) == want, "Equals: want %v", want)
			m.t.Assert((m.p[a].EqualsI(&m.p[b]) == 1) == want, "EqualsI: want %v", want)
			m.t.Count(fmt.Sprintf("equal:%v", want))
		}},
		{"Scalar.Add", func(m *machine) {
			r, a, b := m.S(), m.S(), m.S()
			m.say("s%d.Add(s%d, s%d)", r, a, b)
			retS(m, m.s[r].Add(&m.s[a], &m.s[b]), &m.s[r])
			m.setS(r, bi().Add(m.ms[a], m.ms[b]))
		}},
		{"Scalar.Sub", func(m *machine) {
			r, a, b := m.S(), m.S(), m.S()
			m.say("s%d.Sub(s%d, s%d)", r, a, b)
			retS(m, m.s[r].Sub(&m.s[a], &m.s[b]), &m.s[r])
			m.setS(r, bi().Sub(m.ms[a], m.ms[b]))
		}},
		{"Scalar.Neg", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.Neg(s%d)", r, a)
			retS(m, m.s[r].Neg(&m.s[a]), &m.s[r])
			m.setS(r, bi().Neg(m.ms[a]))
		}},
		{"Scalar.Mul", func(m *machine) {
			r, a, b := m.S(), m.S(), m.S()
			m.say("s%d.Mul(s%d, s%d)", r, a, b)
			retS(m, m.s[r].Mul(&m.s[a], &m.s[b]), &m.s[r])
			m.setS(r, bi().Mul(m.ms[a], m.ms[b]))
		}},
		{"Scalar.Square", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.Square(s%d)", r, a)
			retS(m, m.s[r].Square(&m.s[a]), &m.s[r])
			m.setS(r, bi().Mul(m.ms[a], m.ms[a]))
		}},
		{"Scalar.MulAdd", func(m *machine) {
			r, a, b, d := m.S(), m.S(), m.S(), m.S()
			m.say("s%d.MulAdd(s%d, s%d, s%d)", r, a, b, d)
			retS(m, m.s[r].MulAdd(&m.s[a], &m.s[b], &m.s[d]), &m.s[r])
			x := bi().Mul(m.ms[a], m.ms[b])
			m.setS(r, x.Add(x, m.ms[d]))
		}},
		{"Scalar.MulSub", func(m *machine) {
			r, a, b, d := m.S(), m.S(), m.S(), m.S()
			m.say("s%d.MulSub(s%d, s%d, s%d)", r, a, b, d)
			retS(m, m.s[r].MulSub(&m.s[a], &m.s[b], &m.s[d]), &m.s[r])
			x := bi().Mul(m.ms[a], m.ms[b])
			m.setS(r, x.Sub(x, m.ms[d]))
		}},
		{"Scalar.Inverse", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.Inverse(s%d)", r, a)
			retS(m, m.s[r].Inverse(&m.s[a]), &m.s[r])
			m.setS(r, bi().Exp(m.ms[a], bi().Sub(ref.LBig, big.NewInt(2)), ref.LBig))
		}},
		{"Scalar.Set", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.Set(s%d)", r, a)
			retS(m, m.s[r].Set(&m.s[a]), &m.s[r])
			m.setS(r, m.ms[a])
		}},
		{"Scalar.ConditionalSet", func(m *machine) {
			r, a, b := m.S(), m.S(), m.t.Intn(2)
			m.say("s%d.ConditionalSet(s%d, %d)", r, a, b)
			m.s[r].ConditionalSet(&m.s[a], int32(b))
			if b == 1 {
				m.ms[r] = m.ms[a]
			}
		}},
		{"Scalar.SetZero/SetOne", func(m *machine) {
			r := m.S()
			if m.t.Bool() {
				m.say("s%d.SetZero()", r)
				retS(m, m.s[r].SetZero(), &m.s[r])
				m.ms[r] = bi()
			} else {
				m.say("s%d.SetOne()", r)
				retS(m, m.s[r].SetOne(), &m.s[r])
				m.ms[r] = big.NewInt(1)
			}
		}},
		{"Scalar.SetUint64", func(m *machine) {
			r := m.S()
			v, _ := gen.Nat(&m.t.Rng, 64)
			x := v.Uint64()
			m.say("s%d.SetUint64(%d)", r, x)
			retS(m, m.s[r].SetUint64(x), &m.s[r])
			m.ms[r] = bi().SetUint64(x)
		}},
		{"Scalar.SetBigInt(BigInt)", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.SetBigInt(s%d.BigInt()^2 + 1)", r, a)
			x := m.s[a].BigInt()
			m.t.Assert(x.Cmp(m.ms[a]) == 0, "BigInt: got %x want %x", x, m.ms[a])
			x.Mul(x, x)
			x.Add(x, big.NewInt(1))
			k := bi().Set(x)
			retS(m, m.s[r].SetBigInt(x), &m.s[r])
			m.setS(r, k)
		}},
		{"Scalar.SetBytes", func(m *machine) {
			r, b := m.S(), m.B()
			m.say("s%d.SetBytes(b%d)", r, b)
			retS(m, m.s[r].SetBytes(&m.b[b]), &m.s[r])
			m.setS(r, low253(m.mb[b]))
		}},
		{"Scalar.SetBytesStrict", func(m *machine) {
			r, b := m.S(), m.B()
			m.say("s%d.SetBytesStrict(b%d)", r, b)
			ok := m.s[r].SetBytesStrict(&m.b[b])
			v := ref.FromLE(m.mb[b][:])
			want := v.Cmp(ref.LBig) < 0
			m.t.Assert(ok == want, "SetBytesStrict(%x) = %v", m.mb[b], ok)
			if want {
				m.ms[r] = v
			}
		}},
		{"Scalar.SetReduced", func(m *machine) {
			r, b, d := m.S(), m.B(), m.B()
			m.say("s%d.SetReduced(b%d|b%d)", r, b, d)
			var x [64]byte
			copy(x[:32], m.b[b][:])
			copy(x[32:], m.b[d][:])
			retS(m, m.s[r].SetReduced(&x), &m.s[r])
			copy(x[:32], m.mb[b][:])
			copy(x[32:], m.mb[d][:])
			m.setS(r, ref.FromLE(x[:]))
		}},
		{"Scalar.BytesInto", func(m *machine) {
			a, b := m.S(), m.B()
			m.say("s%d.BytesInto(b%d)", a, b)
			retS(m, m.s[a].BytesInto(&m.b[b]), &m.s[a])
			m.mb[b] = ref.LE32(m.ms[a])
		}},
		{"Scalar.Derive", func(m *machine) {
			r, b := m.S(), m.B()
			m.say("s%d.Derive(b%d)", r, b)
			retS(m, m.s[r].Derive(m.b[b][:]), &m.s[r])
			m.ms[r] = deriveScalar(m.mb[b][:])
		}},
		{"Scalar.Text", func(m *machine) {
			r, a := m.S(), m.S()
			m.say("s%d.UnmarshalText(s%d.MarshalText())", r, a)
			txt, err := m.s[a].MarshalText()
			if err == nil {
				err = m.s[r].UnmarshalText(txt)
			}
			m.t.Assert(err == nil, "%v", err)
			m.ms[r] = m.ms[a]
		}},
		{"Scalar.Equals", func(m *machine) {
			a, b := m.S(), m.S()
			m.say("s%d.Equals(s%d)", a, b)
			want := m.ms[a].Cmp(m.ms[b]) == 0
			m.t.Assert(m.s[a].Equals(&m.s[b]) == want, "Equals: want %v", want)
			m.t.Assert((m.s[a].EqualsI(&m.s[b]) == 1) == want, "EqualsI: want %v", want)
			m.t.Assert((m.s[a].IsNonZeroI() == 1) == (m.ms[a].Sign() != 0), "IsNonZeroI: value %x", m.ms[a])
		}},
		{"buffer", func(m *machine) {
			b := m.B()
			x, cl := gen.Buf32(&m.t.Rng)
			m.say("b%d = %x (%s)", b, x, cl)
			m.b[b], m.mb[b] = x, x
		}},
		{"scalar", func(m *machine) {
			i := m.S()
			x, cl := gen.Scalar(&m.t.Rng)
			m.say("s%d = %x (%s)", i, x, cl)
			m.s[i], m.ms[i] = sut.ScOf(x), x
		}},
	}
}

// verify compares the whole state with the model.
func (m *machine) verify(full bool) bool {
	t := m.t
	ok := true
	for i := range m.p {
		g := sut.POfPoint(&m.p[i])
		ok = t.Assert(g.Valid() && ref.Same(g, m.mp[i]), "p%d is %s, not the element %x", i, sut.PStr(g), m.mp[i].Encode()) && ok
		if full {
			w := m.mp[i].Encode()
			ok = t.Assert(bytes.Equal(m.p[i].Bytes(), w[:]), "p%d encodes as %x want %x", i, m.p[i].Bytes(), w) && ok
		}
	}
	for i := range m.s {
		ok = t.Assert(sut.ScBig(&m.s[i]).Cmp(m.ms[i]) == 0, "s%d is %x want %x", i, sut.ScBig(&m.s[i]), m.ms[i]) && ok
	}
	for i := range m.b {
		ok = t.Assert(m.b[i] == m.mb[i], "b%d is %x want %x", i, m.b[i], m.mb[i]) && ok
	}
	return ok
}

func c20(c *mon.Ctx) {
	steps := programSteps()
	c.Run("programs", c.N(5000, 150000), func(t *mon.T) {
		m := &machine{t: t, tab: new(ristretto.ScalarMultTable)}
		for i := range m.p {
			m.mp[i], _ = gen.Point(&t.Rng)
			m.p[i] = sut.PointStyle(&t.Rng, m.mp[i])
			if i == 1 && t.Bool() { // equal or opposite to another variable
				m.mp[1] = gen.Represent(&t.Rng, m.mp[0])
				m.p[1] = sut.PointStyle(&t.Rng, m.mp[1])
			}
			m.say("p%d = %s", i, sut.PStr(m.mp[i]))
		}
		for i := range m.s {
			m.ms[i], _ = gen.Scalar(&t.Rng)
			m.s[i] = sut.ScOf(m.ms[i])
			m.say("s%d = %x", i, m.ms[i])
		}
		for i := range m.b {
			m.b[i], _ = gen.Buf32(&t.Rng)
			m.mb[i] = m.b[i]
			m.say("b%d = %x", i, m.b[i])
		}
		n := 10 + t.Intn(40)
		// the mix: all operations, or a handful repeated
		var mix []int
		if t.Bool() {
			for i := 0; i < 2+t.Intn(4); i++ {
				mix = append(mix, t.Intn(len(steps)))
			}
		}
		prev := "-"
		t.Context(func() string { return "program: " + join(m.log) })
		for k := 0; k < n; k++ {
			i := t.Intn(len(steps))
			if mix != nil && t.Intn(5) != 0 {
				i = mix[t.Intn(len(mix))]
			}
			steps[i].do(m)
			t.Count("op:" + steps[i].name)
			t.Count("pair:" + prev + ";" + steps[i].name)
			prev = steps[i].name
			if !m.verify(false) {
				return
			}
		}
		m.verify(true)
		t.Seen(join(m.log))
		t.Sample("%s", join(m.log))
	})
	for _, s := range steps {
		c.Require("op:" + s.name)
	}
	c.Require("decoded", "not-decoded", "equal:true", "equal:false")
	c.FoldCounters("pair:", "distinct operation pairs")
}

func deriveScalar(b []byte) *big.Int {
	h := sha512.Sum512(b)
	return ref.ModL(ref.FromLE(h[:]))
}

func join(l []string) string {
	var b bytes.Buffer
	for _, x := range l {
		b.WriteString(x)
		b.WriteString("; ")
	}
	return b.String()
}
