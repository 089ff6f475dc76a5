// Package ref is the executable reference model the monitors compare the real
// code against.  It shares no code with go-ristretto: the field is a saturated
// 4x64-bit representation that is always fully reduced, the curve uses one
// complete addition law, and the ristretto255 maps are transcribed from
// RFC 9496.  SelfTest validates the model against math/big, crypto/ed25519 and
// the RFC's test vectors before any verdict is given.
package ref

import (
	"math/big"
	"math/bits"
)

// F is an element of GF(2^255-19), always in [0, p), little-endian words.
type F [4]uint64

var (
	PBig, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	LBig, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	pW      = F{0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff}
)

// canon subtracts p while the value is >= p.
func canon(a F) F {
	for {
		if a[3] < pW[3] {
			return a
		}
		var t F
		var b uint64
		t[0], b = bits.Sub64(a[0], pW[0], 0)
		t[1], b = bits.Sub64(a[1], pW[1], b)
		t[2], b = bits.Sub64(a[2], pW[2], b)
		t[3], b = bits.Sub64(a[3], pW[3], b)
		if b == 1 {
			return a
		}
		a = t
	}
}

// fold adds c*38 to a modulo 2^256 == 38 (mod p), repeatedly until no carry.
func fold(a F, c uint64) F {
	for c != 0 {
		hi, lo := bits.Mul64(c, 38)
		var k uint64
		a[0], k = bits.Add64(a[0], lo, 0)
		a[1], k = bits.Add64(a[1], hi, k)
		a[2], k = bits.Add64(a[2], 0, k)
		a[3], k = bits.Add64(a[3], 0, k)
		c = k
	}
	return canon(a)
}

func Add(a, b F) F {
	var k uint64
	var r F
	r[0], k = bits.Add64(a[0], b[0], 0)
	r[1], k = bits.Add64(a[1], b[1], k)
	r[2], k = bits.Add64(a[2], b[2], k)
	r[3], k = bits.Add64(a[3], b[3], k)
	return fold(r, k)
}

func Neg(a F) F {
	if a.IsZero() {
		return a
	}
	var b uint64
	var r F
	r[0], b = bits.Sub64(pW[0], a[0], 0)
	r[1], b = bits.Sub64(pW[1], a[1], b)
	r[2], b = bits.Sub64(pW[2], a[2], b)
	r[3], _ = bits.Sub64(pW[3], a[3], b)
	return r
}

func Sub(a, b F) F { return Add(a, Neg(b)) }

func Mul(a, b F) F {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, t[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, carry, 0)
			hi += k
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	// lo + 38*hi
	var r F
	var carry uint64
	for j := 0; j < 4; j++ {
		hi, lo := bits.Mul64(t[4+j], 38)
		var k uint64
		lo, k = bits.Add64(lo, t[j], 0)
		hi += k
		lo, k = bits.Add64(lo, carry, 0)
		hi += k
		r[j] = lo
		carry = hi
	}
	return fold(r, carry)
}

func Sq(a F) F { return Mul(a, a) }

func (a F) IsZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func (a F) IsNeg() bool  { return a[0]&1 == 1 }

func Abs(a F) F {
	if a.IsNeg() {
		return Neg(a)
	}
	return a
}

// Pow computes a^e with a fixed 4-bit window.
func Pow(a F, e *big.Int) F {
	var tab [16]F
	tab[0] = One
	for i := 1; i < 16; i++ {
		tab[i] = Mul(tab[i-1], a)
	}
	r := One
	for i := (e.BitLen()+3)/4 - 1; i >= 0; i-- {
		r = Sq(Sq(Sq(Sq(r))))
		r = Mul(r, tab[e.Bit(4*i)|e.Bit(4*i+1)<<1|e.Bit(4*i+2)<<2|e.Bit(4*i+3)<<3])
	}
	return r
}

var pMinus2 = new(big.Int).Sub(PBig, big.NewInt(2))

func Inv(a F) F { return Pow(a, pMinus2) }

func FromUint(x uint64) F { return canon(F{x, 0, 0, 0}) }

func FromBig(x *big.Int) F {
	v := new(big.Int).Mod(x, PBig)
	var buf [32]byte
	b := v.Bytes()
	for i := range b {
		buf[i] = b[len(b)-1-i]
	}
	return fromLE(&buf)
}

func fromLE(b *[32]byte) F {
	var r F
	for i := 0; i < 4; i++ {
		for j := 7; j >= 0; j-- {
			r[i] = r[i]<<8 | uint64(b[8*i+j])
		}
	}
	return canon(r)
}

// FromBytes interprets b little endian, ignoring the top bit, modulo p.
func FromBytes(b *[32]byte) F {
	c := *b
	c[31] &= 127
	return fromLE(&c)
}

func (a F) Bytes() (b [32]byte) {
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[8*i+j] = byte(a[i] >> (8 * uint(j)))
		}
	}
	return
}

func (a F) Big() *big.Int {
	b := a.Bytes()
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}

var (
	Zero  F
	One   = F{1, 0, 0, 0}
	MOne  = Neg(One)
	D     = Neg(Mul(FromUint(121665), Inv(FromUint(121666))))
	TwoD  = Add(D, D)
	SqrtM F // sqrt(-1), the non-negative one

	sqrtExp = new(big.Int).Rsh(new(big.Int).Sub(PBig, big.NewInt(5)), 3) // (p-5)/8
	eulerE  = new(big.Int).Rsh(new(big.Int).Sub(PBig, big.NewInt(1)), 1)

	oneMinusDSq, dMinusOneSq, SqrtADMinus1, InvSqrtAMinusD F
	SqrtID, SqrtIOverD                                     F
)

func mustDec(s string) F {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad constant")
	}
	return FromBig(v)
}

func init() {
	// RFC 9496, section 4.1
	SqrtM = mustDec("19681161376707505956807079304988542015446066515923890162744021073123829784752")
	SqrtADMinus1 = mustDec("25063068953384623474111414158702152701244531502492656460079210482610430750235")
	InvSqrtAMinusD = mustDec("54469307008909316920995813868745141605393597292927456921205312896311721017578")
	oneMinusDSq = Sub(One, Sq(D))
	dMinusOneSq = Sq(Sub(D, One))
	_, SqrtID = SqrtRatioM1(Mul(SqrtM, D), One)
	_, SqrtIOverD = SqrtRatioM1(SqrtM, D)
	initCurve()
	initBaseTab()
}

// IsSquare decides quadratic residuosity with Euler's criterion (0 is a square).
func IsSquare(a F) bool { return a.IsZero() || Pow(a, eulerE) == One }

// SqrtRatioM1 is SQRT_RATIO_M1 of RFC 9496, section 4.2.
func SqrtRatioM1(u, v F) (bool, F) {
	v3 := Mul(Sq(v), v)
	v7 := Mul(Sq(v3), v)
	r := Mul(Mul(u, v3), Pow(Mul(u, v7), sqrtExp))
	check := Mul(v, Sq(r))
	correct := check == u
	flipped := check == Neg(u)
	flippedI := check == Mul(Neg(u), SqrtM)
	if flipped || flippedI {
		r = Mul(SqrtM, r)
	}
	return correct || flipped, Abs(r)
}
