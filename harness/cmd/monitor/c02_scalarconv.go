package main

import (
	"crypto/sha512"
	"math/big"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func low253(b [32]byte) *big.Int {
	b[31] &= 0x1f
	return ref.FromLE(b[:])
}

func checkSc(t *mon.T, s *sut.Sc, want *big.Int, f string, a ...any) {
	t.Check()
	if got := sut.ScBig(s); got.Cmp(want) != 0 {
		t.Fail(f+": got %x want %x", append(a, got, want)...)
	}
}

func buf256(t *mon.T) ([32]byte, string) {
	switch t.Intn(6) {
	case 0:
		return ref.LE32(gen.NearMultL(&t.Rng, 256)), "near-k*l"
	case 1:
		b := ref.LE32(gen.NearMultL(&t.Rng, 253))
		b[31] |= byte(t.Intn(8)) << 5
		return b, "near-k*l+ignored-bits"
	case 2: // differs from l in one byte only
		b := ref.LE32(ref.LBig)
		b[t.Intn(32)] ^= byte(1 << uint(t.Intn(8)))
		return b, "l-with-one-bit-flipped"
	case 3: // agrees with l in the top bytes, random below
		b := ref.LE32(ref.LBig)
		copy(b[:], t.Bytes(t.Intn(17)))
		return b, "l-prefix"
	}
	return gen.Buf32(&t.Rng)
}

func c02(c *mon.Ctx) {
	c.Run("setbytes", c.N(300000, 10000000), func(t *mon.T) {
		b, cl := buf256(t)
		orig := b
		x := ref.FromLE(b[:])
		inRange := x.Cmp(ref.LBig) < 0
		s := sut.JunkSc(&t.Rng)
		t.Assert(s.SetBytes(&b) == &s, "SetBytes does not return its receiver")
		checkSc(t, &s, ref.ModL(low253(b)), "SetBytes(%x)", orig)
		s = sut.JunkSc(&t.Rng)
		before := s
		ok := s.SetBytesStrict(&b)
		t.Assert(ok == inRange, "SetBytesStrict(%x) returned %v, value is reduced: %v", orig, ok, inRange)
		if ok {
			checkSc(t, &s, x, "SetBytesStrict(%x)", orig)
			t.Count("strict-accepted")
		} else {
			t.Assert(s == before, "SetBytesStrict(%x) rejected the value but changed the receiver", orig)
			t.Count("strict-rejected")
		}
		s = sut.JunkSc(&t.Rng)
		err := s.UnmarshalBinary(b[:])
		if t.Assert(err == nil, "UnmarshalBinary(%x): %v", orig, err) {
			checkSc(t, &s, ref.ModL(low253(b)), "UnmarshalBinary(%x)", orig)
		}
		t.Assert(b == orig, "the input buffer was modified")
		t.Count("class:" + cl)
		t.Seen(b[:])
		t.Sample("buffer %x (%s)", orig, cl)
	})
	c.Run("setreduced", c.N(300000, 10000000), func(t *mon.T) {
		var x *big.Int
		cl := ""
		if t.Bool() {
			x, cl = gen.NearMultL(&t.Rng, 512), "near-k*l"
		} else {
			x, cl = gen.Nat(&t.Rng, 512)
		}
		b := ref.LE64(x)
		orig := b
		s := sut.JunkSc(&t.Rng)
		t.Assert(s.SetReduced(&b) == &s, "SetReduced does not return its receiver")
		checkSc(t, &s, ref.ModL(x), "SetReduced(%x)", orig)
		t.Assert(b == orig, "SetReduced modified its input")
		t.Count("reduced:" + cl)
		t.Seen(b[:])
		t.Sample("512-bit %x (%s)", orig, cl)
	})
	c.Run("bigint", c.N(60000, 2000000), func(t *mon.T) {
		nb := []int{64, 252, 253, 254, 256, 260, 320, 512, 700, 1024, 1 + t.Intn(3000)}[t.Intn(11)]
		x, cl := gen.Nat(&t.Rng, nb)
		if t.Intn(3) == 0 {
			x, cl = gen.NearMultL(&t.Rng, nb+253), "near-k*l"
		}
		if t.Bool() {
			x = new(big.Int).Neg(x)
			t.Count("negative")
		}
		orig := new(big.Int).Set(x)
		s := sut.JunkSc(&t.Rng)
		t.Assert(s.SetBigInt(x) == &s, "SetBigInt does not return its receiver")
		want := ref.ModL(orig)
		checkSc(t, &s, want, "SetBigInt(%x)", orig)
		t.Assert(x.Cmp(orig) == 0, "SetBigInt modified its operand")
		r := sut.ScOf(want)
		t.Assert(r.BigInt().Cmp(want) == 0, "BigInt of %x is %x", want, r.BigInt())
		var bb [32]byte
		t.Assert(r.BytesInto(&bb) == &r, "BytesInto does not return its receiver")
		t.Assert(bb == ref.LE32(want), "BytesInto of %x is %x", want, bb)
		t.Assert(hexs(r.Bytes()) == hexs(bb[:]), "Bytes of %x is %x", want, r.Bytes())
		t.Count("bigint:" + cl)
		t.Seen(orig.String())
		t.Sample("big.Int %x", orig)
	})
	c.Run("uint64", c.N(20000, 500000), func(t *mon.T) {
		x, _ := gen.Nat(&t.Rng, 64)
		s := sut.JunkSc(&t.Rng)
		t.Assert(s.SetUint64(x.Uint64()) == &s, "SetUint64 does not return its receiver")
		checkSc(t, &s, x, "SetUint64(%d)", x.Uint64())
		t.Count("uint64")
		t.Seen(x.String())
	})
	// every single-byte value at every position, and every bit
	c.Run("byte-positions", 32*256, func(t *mon.T) {
		var b [32]byte
		b[t.Index/256] = byte(t.Index)
		var s sut.Sc
		s.SetBytes(&b)
		checkSc(t, &s, ref.ModL(low253(b)), "SetBytes(%x)", b)
		ok := s.SetBytesStrict(&b)
		t.Assert(ok == (ref.FromLE(b[:]).Cmp(ref.LBig) < 0), "SetBytesStrict(%x) = %v", b, ok)
		for _, off := range []int{0, 16, 32} {
			var w [64]byte
			copy(w[off:], b[:])
			s.SetReduced(&w)
			checkSc(t, &s, ref.ModL(ref.FromLE(w[:])), "SetReduced(%x)", w)
		}
		v := ref.ModL(ref.FromLE(b[:]))
		r := sut.ScOf(v)
		t.Assert(hexs(r.Bytes()) == hexs(bytes32(v)), "Bytes(%x) = %x", v, r.Bytes())
		t.Assert(r.BigInt().Cmp(v) == 0, "BigInt(%x) = %x", v, r.BigInt())
		t.Count("byte-positions")
		t.Seen(b[:])
	})
	c.Run("derive", c.N(20000, 500000), func(t *mon.T) {
		in := gen.Message(&t.Rng, t.Index)
		orig := string(in[:cap(in)])
		h := sha512.Sum512(in)
		s := sut.JunkSc(&t.Rng)
		t.Assert(s.Derive(in) == &s, "Derive does not return its receiver")
		checkSc(t, &s, ref.ModL(ref.FromLE(h[:])), "Derive(%x)", in)
		s = sut.JunkSc(&t.Rng)
		t.Assert(s.DeriveShort(in) == &s, "DeriveShort does not return its receiver")
		checkSc(t, &s, ref.FromLE(h[:16]), "DeriveShort(%x)", in)
		t.Assert(string(in[:cap(in)]) == orig, "Derive modified its input")
		t.Count("derive")
		t.Seen(in)
	})
	c.Require("strict-accepted", "strict-rejected", "negative", "uint64", "derive", "byte-positions",
		"reduced:near-k*l", "class:near-k*l", "class:l-with-one-bit-flipped", "class:l-prefix")
}

func bytes32(v *big.Int) []byte { b := ref.LE32(v); return b[:] }
