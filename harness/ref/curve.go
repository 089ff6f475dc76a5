package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
)

// P is a point of edwards25519 in extended coordinates.
type P struct{ X, Y, Z, T F }

var (
	Ident = P{Zero, One, One, Zero}
	B     P
	Tors  [4]P // the 4-torsion, i.e. the points ristretto-equivalent to 0
)

func Affine(x, y F) P { return P{x, y, One, Mul(x, y)} }

func initCurve() {
	// base point: y = 4/5, x even
	y := Mul(FromUint(4), Inv(FromUint(5)))
	ok, x := SqrtRatioM1(Sub(Sq(y), One), Add(Mul(D, Sq(y)), One))
	if !ok {
		panic("ref: no base point")
	}
	B = Affine(x, y)
	Tors = [4]P{Ident, Affine(Zero, MOne), Affine(SqrtM, Zero), Affine(Neg(SqrtM), Zero)}
}

// PAdd is the complete (unified) addition law for a=-1 twisted Edwards curves.
func PAdd(p, q P) P {
	a := Mul(Sub(p.Y, p.X), Sub(q.Y, q.X))
	b := Mul(Add(p.Y, p.X), Add(q.Y, q.X))
	c := Mul(Mul(p.T, TwoD), q.T)
	d := Mul(Add(p.Z, p.Z), q.Z)
	e, f, g, h := Sub(b, a), Sub(d, c), Add(d, c), Add(b, a)
	return P{Mul(e, f), Mul(g, h), Mul(f, g), Mul(e, h)}
}

func PNeg(p P) P    { return P{Neg(p.X), p.Y, p.Z, Neg(p.T)} }
func PSub(p, q P) P { return PAdd(p, PNeg(q)) }

// PMul is plain double-and-add.
func PMul(k *big.Int, p P) P {
	r := Ident
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = PAdd(r, r)
		if k.Bit(i) == 1 {
			r = PAdd(r, p)
		}
	}
	return r
}

// Norm returns the affine coordinates.
func (p P) Norm() P {
	zi := Inv(p.Z)
	return Affine(Mul(p.X, zi), Mul(p.Y, zi))
}

// Scale returns another projective representative.
func (p P) Scale(z F) P { return P{Mul(p.X, z), Mul(p.Y, z), Mul(p.Z, z), Mul(p.T, z)} }

// Valid tells whether the coordinates satisfy the curve equation and XY = ZT.
func (p P) Valid() bool {
	if p.Z.IsZero() {
		return false
	}
	x2, y2, z2 := Sq(p.X), Sq(p.Y), Sq(p.Z)
	// -X^2 Z^2 + Y^2 Z^2 = Z^4 + d X^2 Y^2
	return Mul(Sub(y2, x2), z2) == Add(Sq(z2), Mul(D, Mul(x2, y2))) &&
		Mul(p.X, p.Y) == Mul(p.Z, p.T)
}

// SameEdwards: equal as points of the Edwards curve.
func SameEdwards(p, q P) bool {
	return Mul(p.X, q.Z) == Mul(q.X, p.Z) && Mul(p.Y, q.Z) == Mul(q.Y, p.Z)
}

// Same: equal as elements of the ristretto group, i.e. the difference is
// 4-torsion.  Decided on the definition, not on the shortcut formula.
func Same(p, q P) bool {
	d := PSub(p, q)
	return d.X.IsZero() || d.Y.IsZero()
}

// Even tells whether p is in 2E, by checking l*p is 4-torsion... which holds
// iff p has no component of order 8.
func (p P) Even() bool {
	t := PMul(LBig, p)
	return t.X.IsZero() || t.Y.IsZero()
}

// Encode is the ristretto255 encoding of RFC 9496, section 4.3.2.
func (p P) Encode() [32]byte {
	u1 := Mul(Add(p.Z, p.Y), Sub(p.Z, p.Y))
	u2 := Mul(p.X, p.Y)
	_, inv := SqrtRatioM1(One, Mul(u1, Sq(u2)))
	den1 := Mul(inv, u1)
	den2 := Mul(inv, u2)
	zInv := Mul(Mul(den1, den2), p.T)
	ix0 := Mul(p.X, SqrtM)
	iy0 := Mul(p.Y, SqrtM)
	ench := Mul(den1, InvSqrtAMinusD)
	x, y, denInv := p.X, p.Y, den2
	if Mul(p.T, zInv).IsNeg() {
		x, y, denInv = iy0, ix0, ench
	}
	if Mul(x, zInv).IsNeg() {
		y = Neg(y)
	}
	return Abs(Mul(denInv, Sub(p.Z, y))).Bytes()
}

// Decode is the ristretto255 decoding of RFC 9496, section 4.3.1.
func Decode(b *[32]byte) (P, bool) {
	s := fromLE(b)
	if s.Bytes() != *b || s.IsNeg() {
		return P{}, false
	}
	ss := Sq(s)
	u1 := Sub(One, ss)
	u2 := Add(One, ss)
	u2s := Sq(u2)
	v := Sub(Neg(Mul(D, Sq(u1))), u2s)
	ok, inv := SqrtRatioM1(One, Mul(v, u2s))
	denX := Mul(inv, u2)
	denY := Mul(Mul(inv, denX), v)
	x := Abs(Mul(Add(s, s), denX))
	y := Mul(u1, denY)
	t := Mul(x, y)
	if !ok || t.IsNeg() || y.IsZero() {
		return P{}, false
	}
	return P{x, y, One, t}, true
}

// Map is MAP of RFC 9496, section 4.3.4 (without the masking).
func Map(t F) P {
	r := Mul(SqrtM, Sq(t))
	u := Mul(Add(r, One), oneMinusDSq)
	v := Mul(Sub(MOne, Mul(r, D)), Add(r, D))
	sq, s := SqrtRatioM1(u, v)
	sp := Neg(Abs(Mul(s, t)))
	c := MOne
	if !sq {
		s, c = sp, r
	}
	n := Sub(Mul(Mul(c, Sub(r, One)), dMinusOneSq), v)
	w0 := Mul(Add(s, s), v)
	w1 := Mul(n, SqrtADMinus1)
	w2 := Sub(One, Sq(s))
	w3 := Add(One, Sq(s))
	return P{Mul(w0, w3), Mul(w2, w1), Mul(w1, w3), Mul(w0, w2)}
}

func MapBytes(b *[32]byte) P { return Map(FromBytes(b)) }

func Derive(b []byte) P {
	h := sha512.Sum512(b)
	var x [32]byte
	copy(x[:], h[:32])
	return MapBytes(&x)
}

func DeriveDalek(b []byte) P {
	h := sha512.Sum512(b)
	var x, y [32]byte
	copy(x[:], h[:32])
	copy(y[:], h[32:])
	return PAdd(MapBytes(&x), MapBytes(&y))
}

func LizardFe(data *[16]byte) [32]byte {
	h := sha256.Sum256(data[:])
	copy(h[8:24], data[:])
	h[0] &= 254
	h[31] &= 63
	return h
}

func Lizard(data *[16]byte) P {
	b := LizardFe(data)
	return MapBytes(&b)
}

// LE32 packs 0 <= x < 2^256 little endian.
func LE32(x *big.Int) (b [32]byte) {
	v := x.Bytes()
	for i := range v {
		b[i] = v[len(v)-1-i]
	}
	return
}

func LE64(x *big.Int) (b [64]byte) {
	v := x.Bytes()
	for i := range v {
		b[i] = v[len(v)-1-i]
	}
	return
}

func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return new(big.Int).SetBytes(r)
}

func ModL(x *big.Int) *big.Int { return new(big.Int).Mod(x, LBig) }

var baseTab *Table

func initBaseTab() { baseTab = NewTable(B) }

// PMulBase is k*B for 0 <= k < 2^256.
func PMulBase(k *big.Int) P { return baseTab.Mul(k) }

// Table holds the multiples d*16^i*p, built by repeated addition.
type Table [64][16]P

func NewTable(p P) *Table {
	t := new(Table)
	q := p
	for i := range t {
		t[i][0] = Ident
		for j := 1; j < 16; j++ {
			t[i][j] = PAdd(t[i][j-1], q)
		}
		q = PAdd(t[i][15], q)
	}
	return t
}

// Mul is k times the point of the table, for 0 <= k < 2^256.
func (t *Table) Mul(k *big.Int) P {
	r := Ident
	b := LE32(k)
	for i := 0; i < 64; i++ {
		d := b[i/2] >> (4 * uint(i&1)) & 15
		if d != 0 {
			r = PAdd(r, t[i][d])
		}
	}
	return r
}
