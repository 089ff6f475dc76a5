// Package gen makes hostile inputs: numbers whose limbs, windows and carries
// sit on the boundaries the implementation has to get right.
package gen

import (
	"math/big"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

var one = big.NewInt(1)

func pow2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }

// mask keeps the low n bits.
func mask(x *big.Int, n int) *big.Int {
	return new(big.Int).And(x, new(big.Int).Sub(pow2(n), one))
}

func small(r *mon.Rng) *big.Int {
	switch r.Intn(4) {
	case 0:
		return big.NewInt(int64(r.Intn(5)) - 2)
	case 1:
		return big.NewInt(int64(r.Intn(41)) - 20)
	case 2:
		return big.NewInt(int64(r.Intn(1<<16)) - 1<<15)
	}
	return big.NewInt(int64(r.U64()>>1) >> uint(r.Intn(62)))
}

// limbs composes an nbits number of w-bit limbs, each on or near a boundary.
func limbs(r *mon.Rng, nbits, w int) *big.Int {
	x := new(big.Int)
	mode := r.Intn(4)
	for pos := 0; pos < nbits; pos += w {
		var v uint64
		max := uint64(1)<<uint(w) - 1
		k := r.Intn(10)
		if mode == 0 && r.Intn(4) != 0 {
			k = 0
		}
		if mode == 1 && r.Intn(4) != 0 {
			k = 1
		}
		switch k {
		case 0:
			v = 0
		case 1:
			v = max
		case 2:
			v = 1
		case 3:
			v = max - 1
		case 4:
			v = uint64(1) << uint(w-1)
		case 5:
			v = uint64(1)<<uint(w-1) - 1
		case 6:
			v = uint64(1)<<uint(w-1) + 1
		case 7:
			v = uint64(1) << uint(r.Intn(w))
		default:
			v = r.U64() & max
		}
		t := new(big.Int).SetUint64(v)
		x.Or(x, t.Lsh(t, uint(pos)))
	}
	return mask(x, nbits)
}

// limbs255 composes limbs of alternating width 26 and 25.
func limbs255(r *mon.Rng) *big.Int {
	x := new(big.Int)
	pos := 0
	for i := 0; i < 10; i++ {
		w := 26 - i&1
		max := uint64(1)<<uint(w) - 1
		var v uint64
		switch r.Intn(7) {
		case 0:
			v = 0
		case 1:
			v = max
		case 2:
			v = 1 << uint(w-1)
		case 3:
			v = 1<<uint(w-1) - 1
		case 4:
			v = 1
		default:
			v = r.U64() & max
		}
		t := new(big.Int).SetUint64(v)
		x.Or(x, t.Lsh(t, uint(pos)))
		pos += w
	}
	return x
}

func rnd(r *mon.Rng, nbits int) *big.Int {
	return mask(ref.FromLE(r.Bytes((nbits+7)/8)), nbits)
}

func sparse(r *mon.Rng, nbits int) *big.Int {
	x := new(big.Int)
	for n := 1 + r.Intn(4); n > 0; n-- {
		x.SetBit(x, r.Intn(nbits), 1)
	}
	return x
}

func runs(r *mon.Rng, nbits int) *big.Int {
	x := new(big.Int)
	bit := uint(r.Intn(2))
	for p := 0; p < nbits; {
		l := 1 + r.Intn(64)
		for ; l > 0 && p < nbits; l-- {
			x.SetBit(x, p, bit)
			p++
		}
		bit ^= 1
	}
	return x
}

// Nat is a hostile number below 2^nbits, with the class it was drawn from.
func Nat(r *mon.Rng, nbits int) (*big.Int, string) {
	switch r.Intn(15) {
	case 14:
		if HasMined() {
			return minedNat(r, nbits), "mined"
		}
	case 0:
		return mask(new(big.Int).Abs(small(r)), nbits), "small"
	case 1:
		x := new(big.Int).Add(pow2(r.Intn(nbits+1)), small(r))
		return mask(x.Abs(x), nbits), "near-2^k"
	case 2:
		return sparse(r, nbits), "sparse"
	case 3:
		return new(big.Int).Xor(sparse(r, nbits), new(big.Int).Sub(pow2(nbits), one)), "dense"
	case 4:
		return limbs(r, nbits, 21), "limbs21"
	case 5:
		return limbs(r, nbits, 32), "limbs32"
	case 6:
		return limbs(r, nbits, 51), "limbs51"
	case 7:
		return mask(limbs255(r), nbits), "limbs25.5"
	case 8:
		return limbs(r, nbits, 64-1), "limbs63"
	case 9:
		return runs(r, nbits), "runs"
	case 10:
		return limbs(r, nbits, 4), "nibbles"
	case 11:
		return limbs(r, nbits, 5), "quints"
	}
	return rnd(r, nbits), "random"
}

// Scalar is a hostile element of Z/l.
func Scalar(r *mon.Rng) (*big.Int, string) {
	switch r.Intn(8) {
	case 0:
		return ref.ModL(small(r)), "near-0-or-l"
	case 1: // near a fraction of l
		x := new(big.Int).Mul(ref.LBig, big.NewInt(int64(1+r.Intn(63))))
		x.Rsh(x, 6)
		return ref.ModL(x.Add(x, small(r))), "near-fraction-of-l"
	case 2: // near 2^252
		return ref.ModL(new(big.Int).Add(pow2(252), small(r))), "near-2^252"
	case 3: // single digit in radix 16 or 32
		w := 4 + r.Intn(2)
		x := big.NewInt(int64(r.Intn(1 << uint(w))))
		return ref.ModL(x.Lsh(x, uint(w*r.Intn(252/w+1)))), "single-digit"
	}
	x, c := Nat(r, 253)
	return ref.ModL(x), c
}

// NearMultL is k*l+small below 2^nbits.
func NearMultL(r *mon.Rng, nbits int) *big.Int {
	q := new(big.Int).Div(new(big.Int).Sub(pow2(nbits), one), ref.LBig)
	var k *big.Int
	switch r.Intn(4) {
	case 0:
		k = new(big.Int).Sub(q, big.NewInt(int64(r.Intn(3))))
	case 1:
		k, _ = Nat(r, q.BitLen())
	case 2:
		k = big.NewInt(int64(r.Intn(40)))
	default:
		k = rnd(r, q.BitLen())
	}
	if k.Sign() < 0 {
		k.SetInt64(0)
	}
	k.Mod(k, new(big.Int).Add(q, one))
	x := new(big.Int).Mul(k, ref.LBig)
	x.Add(x, small(r))
	if x.Sign() < 0 {
		x.Neg(x)
	}
	return mask(x, nbits)
}

// Field is a hostile number below 2^255 (not necessarily below p).
func Field(r *mon.Rng) (*big.Int, string) {
	switch r.Intn(9) {
	case 8:
		x, _ := Nat(r, 255)
		return aimField(r, ref.FromBig(x)).Big(), "aimed"
	case 0: // around 0 and p
		x := new(big.Int).Add(ref.PBig, big.NewInt(int64(r.Intn(60))-40))
		if x.BitLen() > 255 {
			x.Sub(x, pow2(255))
		}
		return x, "near-p"
	case 1:
		return big.NewInt(int64(r.Intn(60))), "near-0"
	case 2:
		c := specials[r.Intn(len(specials))]
		x := c.Big()
		if r.Intn(3) == 0 {
			x.Add(x, small(r))
			x.Mod(x, ref.PBig)
		}
		return x, "constant"
	}
	return Nat(r, 255)
}

// aimField is a field element from which h is computed on the way, by the
// squares, constants and inversions of decoding and of the maps.
func aimField(r *mon.Rng, h ref.F) ref.F {
	cs := [...]ref.F{ref.Zero, ref.Zero, ref.One, ref.MOne, ref.D, ref.Neg(ref.D)}
	ks := [...]ref.F{ref.One, ref.MOne, ref.SqrtM, ref.Neg(ref.SqrtM), ref.D, ref.Mul(ref.D, ref.SqrtM), ref.TwoD, ref.FromUint(2)}
	c, k := cs[r.Intn(len(cs))], ks[r.Intn(len(ks))]
	switch r.Intn(5) {
	case 0: // k*f + c = h
		return ref.Mul(ref.Sub(h, c), ref.Inv(k))
	case 1: // 1/f
		return ref.Inv(h)
	}
	// k*f^2 + c = h
	for i := 0; i < 4; i++ {
		if ok, f := ref.SqrtRatioM1(ref.Sub(h, c), k); ok {
			return f
		}
		k = ks[r.Intn(len(ks))]
	}
	return h
}

var specials []ref.F

func init() {
	specials = []ref.F{ref.Zero, ref.One, ref.MOne, ref.SqrtM, ref.Neg(ref.SqrtM), ref.D, ref.TwoD,
		ref.Neg(ref.D), ref.Inv(ref.D), ref.Neg(ref.Inv(ref.D)), ref.InvSqrtAMinusD, ref.SqrtADMinus1,
		ref.SqrtID, ref.SqrtIOverD, ref.Inv(ref.FromUint(2)), ref.B.X, ref.B.Y, ref.B.T,
		ref.Add(ref.D, ref.One), ref.Sub(ref.D, ref.One), ref.Neg(ref.SqrtID), ref.Neg(ref.SqrtIOverD)}
}

// F is a hostile field element in canonical form.
func F(r *mon.Rng) (ref.F, string) {
	x, c := Field(r)
	return ref.FromBig(x), c
}

// Buf32 is a hostile 32-byte string.
func Buf32(r *mon.Rng) ([32]byte, string) {
	switch r.Intn(12) {
	case 0:
		x, c := Field(r)
		b := ref.LE32(x)
		b[31] |= 0x80
		return b, "topbit-" + c
	case 1:
		x := NearMultL(r, 256)
		return ref.LE32(x), "near-k*l"
	case 2:
		x, _ := Nat(r, 256)
		return ref.LE32(x), "nat256"
	case 3:
		return r.Arr32(), "random"
	case 4:
		x, _ := Scalar(r)
		return ref.LE32(x), "scalar"
	}
	x, c := Field(r)
	return ref.LE32(x), c
}

// Message is data of the n-th length (every short one, then short ones and
// ones around powers of two), in a slice with room behind it.
func Message(r *mon.Rng, index int) []byte {
	n := r.Intn(300)
	switch {
	case index < 300:
		n = index
	case r.Intn(20) == 0:
		n = 1<<uint(9+r.Intn(4)) + r.Intn(5) - 2
	case r.Intn(150) == 0:
		n = 1<<uint(13+r.Intn(5)) + r.Intn(5) - 2
	case index == 300:
		n = 1<<20 + 1
	case r.Intn(12) == 0:
		if l := MinedLen(r, 1<<uint(11+r.Intn(11))); l >= 0 {
			n = l
		}
	}
	if n == 0 && r.Bool() || index > 300 && r.Intn(400) == 0 {
		return nil
	}
	b := r.Bytes(n)
	MinedBytes(r, b)
	return Spare(r, b)
}

// Spare copies b into a slice with room behind it.
func Spare(r *mon.Rng, b []byte) []byte {
	s := append(append(make([]byte, 0, len(b)+96), b...), r.Bytes(96)...)
	return s[:len(b)]
}
