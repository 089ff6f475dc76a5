package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
)

// SelfTest validates the model itself; a failure makes the run inconclusive.
func SelfTest() error {
	rnd := rand.New(rand.NewSource(99))
	edge := func() *big.Int {
		switch rnd.Intn(4) {
		case 0:
			return new(big.Int).Sub(PBig, big.NewInt(int64(rnd.Intn(40))+1))
		case 1:
			return big.NewInt(int64(rnd.Intn(40)))
		case 2:
			return new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(1), uint(rnd.Intn(256))), PBig)
		}
		return new(big.Int).Rand(rnd, PBig)
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, PBig) }
	for i := 0; i < 3000; i++ {
		a, b := edge(), edge()
		fa, fb := FromBig(a), FromBig(b)
		if fa.Big().Cmp(a) != 0 ||
			Add(fa, fb).Big().Cmp(mod(new(big.Int).Add(a, b))) != 0 ||
			Sub(fa, fb).Big().Cmp(mod(new(big.Int).Sub(a, b))) != 0 ||
			Mul(fa, fb).Big().Cmp(mod(new(big.Int).Mul(a, b))) != 0 {
			return fmt.Errorf("ref field arithmetic disagrees with math/big on %v %v", a, b)
		}
	}
	if Sq(SqrtM) != MOne || SqrtM.IsNeg() || Sq(SqrtADMinus1) != Sub(Neg(D), One) ||
		Mul(Sq(InvSqrtAMinusD), Sub(MOne, D)) != One || IsSquare(D) {
		return fmt.Errorf("ref constants are inconsistent")
	}
	for _, t := range Tors {
		if !t.Valid() || !t.Even() {
			return fmt.Errorf("ref torsion is wrong")
		}
	}
	if !B.Valid() || !SameEdwards(PMul(LBig, B), Ident) {
		return fmt.Errorf("ref base point is wrong")
	}
	// The curve, against the standard library's ed25519.
	for i := 0; i < 8; i++ {
		seed := make([]byte, 32)
		rnd.Read(seed)
		pub := ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)
		h := sha512.Sum512(seed)
		h[0] &= 248
		h[31] = h[31]&127 | 64
		q := PMul(FromLE(h[:32]), B).Norm()
		enc := q.Y.Bytes()
		if q.X.IsNeg() {
			enc[31] |= 128
		}
		if !bytes.Equal(enc[:], pub) {
			return fmt.Errorf("ref scalar multiplication disagrees with crypto/ed25519")
		}
	}
	// RFC 9496 vectors.
	q := Ident
	for i, v := range smallMultiples {
		if e := q.Encode(); hex.EncodeToString(e[:]) != v {
			return fmt.Errorf("ref: %d*B encodes as %x", i, e)
		}
		for _, t := range Tors {
			if e := PAdd(q, t).Scale(FromUint(77)).Encode(); hex.EncodeToString(e[:]) != v {
				return fmt.Errorf("ref: encoding depends on the representative")
			}
		}
		var b [32]byte
		hex.Decode(b[:], []byte(v))
		d, ok := Decode(&b)
		if !ok || !Same(d, q) || !d.Valid() {
			return fmt.Errorf("ref: decoding %s failed", v)
		}
		q = PAdd(q, B)
	}
	for _, v := range badEncodings {
		var b [32]byte
		hex.Decode(b[:], []byte(v))
		if _, ok := Decode(&b); ok {
			return fmt.Errorf("ref: bad encoding %s accepted", v)
		}
	}
	for _, v := range hashVectors {
		if e := DeriveDalek([]byte(v[0])).Encode(); hex.EncodeToString(e[:]) != v[1] {
			return fmt.Errorf("ref: hash-to-group of %q is %x", v[0], e)
		}
	}
	for i := 0; i < 50; i++ {
		var b [32]byte
		rnd.Read(b[:])
		m := MapBytes(&b)
		if !m.Valid() || !m.Even() {
			return fmt.Errorf("ref: map leaves the curve")
		}
		e := m.Encode()
		d, ok := Decode(&e)
		if !ok || !Same(m, d) {
			return fmt.Errorf("ref: decode(encode) of a mapped point fails")
		}
	}
	return nil
}

var smallMultiples = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
	"6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
	"94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
	"da80862773358b466ffadfe0b3293ab3d9fd53c5ea6c955358f568322daf6a57",
	"e882b131016b52c1d3337080187cf768423efccbb517bb495ab812c4160ff44e",
	"f64746d3c92b13050ed8d80236a7f0007c3b3f962f5ba793d19a601ebb1df403",
	"44f53520926ec81fbd5a387845beb7df85a96a24ece18738bdcfa6a7822a176d",
	"903293d8f2287ebe10e2374dc1a53e0bc887e592699f02d077d5263cdd55601c",
	"02622ace8f7303a31cafc63f8fc48fdc16e1c8c8d234b2f0d6685282a9076031",
	"20706fd788b2720a1ed2a5dad4952b01f413bcf0e7564de8cdc816689e2db95f",
	"bce83f8ba5dd2fa572864c24ba1810f9522bc6004afe95877ac73241cafdab42",
	"e4549ee16b9aa03099ca208c67adafcafa4c3f3e4e5303de6026e3ca8ff84460",
	"aa52e000df2e16f55fb1032fc33bc42742dad6bd5a8fc0be0167436c5948501f",
	"46376b80f409b29dc2b5f6f0c52591990896e5716f41477cd30085ab7f10301e",
	"e0c418f7c8d9c4cdd7395b93ea124f3ad99021bb681dfc3302a9d99a2e53e64e",
}

var badEncodings = []string{
	"00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"f3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"ed57ffd8c914fb201471d1c3d245ce3c746fcbe63a3679d51b6a516ebebe0e20",
	"c34c4e1826e5d403b78e246e88aa051c36ccf0aafebffe137d148a2bf9104562",
	"c940e5a4404157cfb1628b108db051a8d439e1a421394ec4ebccb9ec92a8ac78",
	"26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
	"4eac077a713c57b4f4397629a4145982c661f48044dd3f96427d40b147d9742f",
	"3eb858e78f5a7254d8c9731174a94f76755fd3941c0ac93735c07ba14579630e",
	"a45fdc55c76448c049a1ab33f17023edfb2be3581e9c7aade8a6125215e04220",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

var hashVectors = [][2]string{
	{"Ristretto is traditionally a short shot of espresso coffee", "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46"},
	{"made with the normal amount of ground coffee but extracted with", "f26e5b6f7d362d2d2a94c5d0e7602cb4773c95a2e5c31a64f133189fa76ed61b"},
	{"about half the amount of water in the same amount of time", "006ccd2a9e6867e6a2c5cea83d3302cc9de128dd2a9a57dd8ee7b9d7ffe02826"},
	{"by using a finer grind.", "f8f0c87cf237953c5890aec3998169005dae3eca1fbb04548c635953c817f92a"},
	{"This produces a concentrated shot of coffee per volume.", "ae81e7dedf20a497e10c304a765c1767a42d6e06029758d2d7e8ef7cc4c41179"},
	{"Just pulling a normal shot short will produce a weaker shot", "e2705652ff9f5e44d3e841bf1c251cf7dddb77d140870d1ab2ed64f1a9ce8628"},
	{"and is not a Ristretto as some believe.", "80bd07262511cdde4863f8a7434cef696750681cb9510eea557088f76d9e5065"},
}
