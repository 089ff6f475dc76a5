package gen

import (
	"math/big"
	"testing"

	"verif.local/harness/mon"
)

// Whatever is mined, numbers stay in range and nothing panics.
func TestMined(t *testing.T) {
	for seed := uint64(0); seed < 300; seed++ {
		r := mon.NewRng(seed)
		mined.cmp, mined.odd, mined.lit, mined.strs = nil, nil, nil, nil
		for i := r.Intn(6); i > 0; i-- {
			mined.cmp = append(mined.cmp, new(big.Int).Sub(limbs(r, 1+r.Intn(500), 32), big.NewInt(int64(r.Intn(3)))))
		}
		if r.Bool() {
			mined.odd = mined.cmp
		}
		for i := r.Intn(4); i > 0; i-- {
			mined.lit = append(mined.lit, small(r))
			mined.strs = append(mined.strs, r.Bytes(1+r.Intn(100)))
		}
		for i := 0; i < 3000; i++ {
			n := 1 + r.Intn(700)
			if r.Bool() {
				n = 1 + r.Intn(9)
			}
			if x, c := Nat(r, n); x.Sign() < 0 || x.BitLen() > n {
				t.Fatal(n, x, c)
			}
			Message(r, r.Intn(10000))
			Buf32(r)
			Scalar(r)
			F(r)
			NearMultL(r, 253+r.Intn(600))
			MinedLen(r, r.Intn(100))
		}
	}
}
