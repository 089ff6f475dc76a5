package gen

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	"os"

	"verif.local/harness/mon"
)

// Values that the source under test mentions (see cmd/mine): those it
// compares with something and that small or boundary values would not meet
// by chance, those it compares with something, other literals, and strings.
var mined struct {
	odd, cmp, lit []*big.Int
	strs          [][]byte
}

func init() {
	b, err := os.ReadFile(os.Getenv("VERIF_DICT"))
	if err != nil {
		return
	}
	var d struct{ Cmp, Lit, Strs []string }
	if json.Unmarshal(b, &d) != nil {
		return
	}
	parse := func(l []string) (r []*big.Int) {
		for _, s := range l {
			if n, ok := new(big.Int).SetString(s, 10); ok {
				r = append(r, n)
			}
		}
		return
	}
	mined.cmp, mined.lit = parse(d.Cmp), parse(d.Lit)
	for _, v := range mined.cmp {
		if v.CmpAbs(big.NewInt(300)) > 0 {
			mined.odd = append(mined.odd, v)
		}
	}
	for _, s := range d.Strs {
		if b, err := hex.DecodeString(s); err == nil {
			mined.strs = append(mined.strs, b)
		}
	}
}

// HasMined says whether there are mined values at all.
func HasMined() bool { return len(mined.cmp) > 0 }

// minedInt is one of the values, or next to it.
func minedInt(r *mon.Rng) *big.Int {
	l := mined.cmp
	switch k := r.Intn(8); {
	case k < 5 && len(mined.odd) > 0:
		l = mined.odd
	case k == 5 && len(mined.lit) > 0:
		l = mined.lit
	}
	x := new(big.Int).Set(l[r.Intn(len(l))])
	switch r.Intn(6) {
	case 0:
		x.Add(x, one)
	case 1:
		x.Sub(x, one)
	}
	return x
}

// minedNat puts mined values into the limbs of a number below 2^nbits.
func minedNat(r *mon.Rng, nbits int) *big.Int {
	var x *big.Int
	switch r.Intn(4) {
	case 0:
		x = new(big.Int)
	case 1:
		x, _ = Nat(r, nbits)
	default:
		x = rnd(r, nbits)
	}
	set := func(v *big.Int, pos, w int) { // bits pos..pos+w
		if w > nbits-pos {
			w = nbits - pos
		}
		if w <= 0 {
			return
		}
		m := new(big.Int).Lsh(new(big.Int).Sub(pow2(w), one), uint(pos))
		x.AndNot(x, m)
		v = mask(v, w) // two's complement
		x.Or(x, v.Lsh(v, uint(pos)))
	}
	switch r.Intn(8) {
	case 0: // the number itself
		return mask(minedInt(r), nbits)
	case 1: // anywhere
		v := minedInt(r)
		set(v, r.Intn(nbits), 1+v.BitLen())
	case 2: // at the top
		v := minedInt(r)
		n := v.BitLen()
		if n > nbits {
			n = nbits
		}
		set(v, nbits-n, n)
	case 3: // limbs of 25.5 bits
		n := 1 + r.Intn(10)
		for i, pos := 0, 0; i < 10; i++ {
			w := 26 - i&1
			if n == 10 || r.Intn(n) == 0 {
				set(minedInt(r), pos, w)
			}
			pos += w
		}
	case 4: // bytes of a string
		if len(mined.strs) == 0 {
			return x
		}
		s := mined.strs[r.Intn(len(mined.strs))]
		p := 8 * r.Intn(nbits/8+1)
		if r.Bool() {
			p = 0
		}
		for i, c := range s {
			set(big.NewInt(int64(c)), p+8*i, 8)
		}
	default:
		w := []int{8, 16, 21, 32, 32, 51, 51, 64, 64}[r.Intn(9)]
		n := 1 + r.Intn(6)
		if n == 6 {
			n = 1
		}
		for pos := 0; pos < nbits; pos += w {
			if r.Intn(n) == 0 {
				set(minedInt(r), pos, w)
			}
		}
	}
	return x
}

// MinedLen is a mined length below max, or -1.
func MinedLen(r *mon.Rng, max int) int {
	if !HasMined() {
		return -1
	}
	v := minedInt(r)
	if r.Intn(3) == 0 {
		v.Add(v, big.NewInt(int64(r.Intn(70))))
	}
	if v.Sign() < 0 || v.Cmp(big.NewInt(int64(max))) >= 0 {
		return -1
	}
	return int(v.Int64())
}

// MinedBytes overwrites part of b by mined values now and then.
func MinedBytes(r *mon.Rng, b []byte) {
	if !HasMined() || len(b) == 0 || r.Intn(6) != 0 {
		return
	}
	if len(mined.strs) > 0 && r.Intn(3) == 0 {
		copy(b[r.Intn(len(b)):], mined.strs[r.Intn(len(mined.strs))])
		return
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		p := r.Intn(len(b))
		if r.Bool() {
			p = 0
		}
		v := mask(minedInt(r), 64).Bytes() // big-endian
		if r.Bool() {
			for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
				v[i], v[j] = v[j], v[i]
			}
		}
		copy(b[p:], v)
	}
}
