"""The planted bugs: edits of the original sources, and a demonstration each."""
R, S = "ristretto.go", "scalar.go"
C, E, F, F51, FG, M64, T, V = ["edwards25519/" + x for x in (
    "curve.go", "elligator.go", "field.go", "field_radix51.go", "field_generic.go", "field_mul64.go", "table.go", "vartime.go")]
CR = "cref/cref.c"

HEAD = '''
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/bwesterb/go-ristretto/edwards25519"
)

var (
	_ = bytes.Equal
	_ = big.NewInt
	_ ristretto.Point
	_ edwards25519.FieldElement
	l, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	p25519 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

// little endian
func le(x *big.Int) (b [32]byte) {
	for i, v := range x.Bytes() {
		b[len(x.Bytes())-1-i] = v
	}
	return
}

func sc(x *big.Int) *ristretto.Scalar {
	var s ristretto.Scalar
	b := le(new(big.Int).Mod(x, l))
	for i := range s {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return &s
}

func pt(x int) *ristretto.Point {
	var p ristretto.Point
	return p.Derive([]byte{byte(x), byte(x >> 8)})
}

// slow scalar multiplication by doubling and adding
func mult(q *ristretto.Point, s *big.Int) *ristretto.Point {
	var r ristretto.Point
	r.SetZero()
	for i := s.BitLen() - 1; i >= 0; i-- {
		r.Double(&r)
		if s.Bit(i) == 1 {
			r.Add(&r, q)
		}
	}
	return &r
}

func emult(q *edwards25519.ExtendedPoint, s *big.Int) *edwards25519.ExtendedPoint {
	var r edwards25519.ExtendedPoint
	r.SetZero()
	for i := s.BitLen() - 1; i >= 0; i-- {
		r.Double(&r)
		if s.Bit(i) == 1 {
			r.Add(&r, q)
		}
	}
	return &r
}

func same(p, q *edwards25519.ExtendedPoint) bool {
	var a, b edwards25519.FieldElement
	if a.Mul(&p.X, &q.Z).Equals(b.Mul(&q.X, &p.Z)) {
		return a.Mul(&p.Y, &q.Z).Equals(b.Mul(&q.Y, &p.Z))
	}
	return false
}
'''

BUGS = []


def bug(id, prop, edits, demo, needs, breaks, head=HEAD, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, **kw))


bug("c01-sub-carry", "C01", [(S, "carry = uint64(s6) + (carry >> 32)\n\ts6 = uint32(carry)\n\tcarry = uint64(s7) + (carry >> 32) + (ufMask & 0x10000000)",
     "carry = uint64(s6) + (carry >> 32)\n\ts6 = uint32(carry)\n\tcarry = uint64(s7) + (ufMask & 0x10000000)")], '''
func main() {
	for i := int64(1); i < 200; i++ {
		var r ristretto.Scalar
		a, b := big.NewInt(i), new(big.Int).Lsh(big.NewInt(i), 220)
		r.Sub(sc(a), sc(new(big.Int).Add(a, b)))
		w := new(big.Int).Mod(new(big.Int).Neg(b), l)
		if r.BigInt().Cmp(w) != 0 {
			fail("%v - %v = %v", a, b, r.BigInt())
		}
		r.Neg(sc(a))
		if r.BigInt().Cmp(new(big.Int).Sub(l, a)) != 0 {
			fail("-%v = %v", a, r.BigInt())
		}
	}
}
''', "a subtraction that underflows by less than 2^224, so that adding l back carries into the top limb", "negation and subtraction of small scalars are off by 2^224")

bug("c01-square-alias", "C01", [(S, "t1.Square(t)\n\tt2.Mul(t, &t1)\n", "s.Square(t)\n\tt1.Set(s)\n\tt2.Mul(t, &t1)\n")], '''
func main() {
	a := sc(big.NewInt(12345))
	w := new(big.Int).ModInverse(big.NewInt(12345), l)
	var r ristretto.Scalar
	if r.Inverse(a).BigInt().Cmp(w) != 0 {
		fail("wrong inverse")
	}
	if a.Inverse(a).BigInt().Cmp(w) != 0 {
		fail("wrong inverse in place")
	}
}
''', "inverting a scalar in place", "s.Inverse(s) is not the inverse")

bug("c02-setbytes-mask", "C02", [(S, "s[7] = load4u32(x[28:]) & 0x1fffffff", "s[7] = load4u32(x[28:]) & 0x3fffffff")], '''
func main() {
	for i := uint(0); i < 256; i++ {
		x := new(big.Int).Lsh(big.NewInt(1), i)
		b := le(x)
		w := new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 253))
		w.Mod(w, l)
		var s ristretto.Scalar
		if s.SetBytes(&b).BigInt().Cmp(w) != 0 {
			fail("SetBytes of 2^%d = %v", i, s.BigInt())
		}
	}
}
''', "a 32-byte string with bit 253 set", "SetBytes leaves the scalar unreduced and unmasked")

bug("c02-setbigint-rem", "C02", [(S, "buf := v.Mod(x, &biL).Bytes()", "buf := v.Rem(x, &biL).Bytes()")], '''
func main() {
	for i := int64(-5); i < 5; i++ {
		var s ristretto.Scalar
		if s.SetBigInt(big.NewInt(i)).BigInt().Cmp(new(big.Int).Mod(big.NewInt(i), l)) != 0 {
			fail("SetBigInt(%d) = %v", i, s.BigInt())
		}
	}
}
''', "a negative big integer", "negative integers are turned into their absolute value")

bug("c03-setreduced-minus-one", "C11", [(F51, "c := (fe[0] + 19) >> 51", "c := (fe[0] + 20) >> 51")], '''
func main() {
	var a, b edwards25519.FieldElement
	for i := int64(1); i < 30; i++ {
		x := new(big.Int).Sub(p25519, big.NewInt(i))
		buf := le(x)
		a.SetBytes(&buf)
		if a.BigInt().Cmp(x) != 0 {
			fail("p-%d packs to %v", i, a.BigInt())
		}
		b.SetBigInt(big.NewInt(i))
		b.Neg(&b)
		if b.BigInt().Cmp(x) != 0 {
			fail("-%d packs to %v", i, b.BigInt())
		}
	}
}
''', "the field element -1 packed to bytes", "-1 packs to 2^255-1 instead of 2^255-20")

bug("c04-top-bit", "C04", [(C, "ret = int32(1 - subtle.ConstantTimeCompare(buf[:], buf2[:]))", "ret = int32(1 - subtle.ConstantTimeCompare(buf[:31], buf2[:31]))")], '''
func main() {
	for i := 0; i < 20; i++ {
		var b [32]byte
		pt(i).BytesInto(&b)
		b[31] |= 128
		var p ristretto.Point
		if p.SetBytes(&b) {
			fail("accepted an encoding with the top bit set")
		}
	}
}
''', "a valid encoding with the top bit set", "a second encoding of each point is accepted")

bug("c05-sub-alias", "C05", [(C, "	var tmp CompletedPoint\n	tmp.SubExtended(q, r)\n	p.SetCompleted(&tmp)\n	return p", "	p.Neg(r)\n	return p.Add(q, p)")], '''
func main() {
	p, q := pt(1), pt(2)
	var r ristretto.Point
	r.Sub(p, q)
	s := *p
	if !s.Sub(&s, q).Equals(&r) {
		fail("p.Sub(p, q) is not p - q")
	}
	s = *q
	if !s.Sub(p, &s).Equals(&r) {
		fail("p.Sub(q, p) is not q - p")
	}
}
''', "the result of a subtraction sharing memory with the minuend", "p.Sub(p, q) gives -2q")

bug("c06-vartime-zero", "C06", [(V, "	p.SetZero()\n	if i == -1 {\n		return p\n	}\n", "	if i == -1 {\n		return p\n	}\n	p.SetZero()\n")], '''
func main() {
	var r, z ristretto.Point
	r.Set(pt(1))
	z.SetZero()
	r.PublicScalarMult(pt(2), sc(big.NewInt(0)))
	if !r.Equals(&z) {
		fail("0 * p = %v", r)
	}
}
''', "public multiplication by zero into a point that held something else", "the receiver keeps its old value")

bug("c07-scalar-fold", "C07", [(S, "	ret |= ret >> 4\n	ret |= ret >> 2\n	ret |= ret >> 1\n	return int32(ret & 1)", "	ret |= ret >> 4\n	ret |= ret >> 1\n	return int32(ret & 1)")], '''
func main() {
	for i := uint(0); i < 253; i++ {
		a, b := big.NewInt(1), new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(1))
		if sc(a).Equals(sc(b)) || sc(b).EqualsI(sc(a)) == 1 {
			fail("1 equals 1+2^%d", i)
		}
	}
}
''', "scalars whose difference has only bits at certain positions", "different scalars compare equal")

bug("c07-torsion-equal", "C07", [(C, "	return 1 - ((1 - x1y2.EqualsI(&x2y1)) & (1 - x1x2.EqualsI(&y1y2)))", "	return 1 - ((1 - x1y2.EqualsI(&x2y1)) & (1 - x1x2.EqualsI(&y1y2)) & p.X.IsNonZeroI() & q.X.IsNonZeroI())")], '''
func main() {
	var z ristretto.Point
	z.SetZero()
	for i := 0; i < 10; i++ {
		if pt(i).Equals(&z) || z.Equals(pt(i)) {
			fail("point equals zero")
		}
	}
}
''', "comparing any point with zero in the representative (0,1)", "every point equals zero")

bug("c08-limb-width", "C08", [(F51, "	fe[4] ^= b2 & (fe[4] ^ a[4])", "	fe[4] ^= b2 & (fe[4] ^ a[4]) & 0xfffffffffffff")], '''
func main() {
	for i := 0; i < 50; i++ {
		var cp edwards25519.CompletedPoint
		cp.DoubleExtended((*edwards25519.ExtendedPoint)(pt(i)))
		for _, x := range []edwards25519.FieldElement{cp.X, cp.Y, cp.Z, cp.T} {
			var a edwards25519.FieldElement
			a.ConditionalSet(&x, 1)
			if !a.Equals(&x) {
				fail("not equal after ConditionalSet with 1")
			}
		}
	}
}
''', "a field element with an unnormalised top limb of 53 bits, as doubling a point leaves in its completed form", "conditional assignment loses the top bits of a limb")

bug("c10-inverse-torsion", "C10", [(E, "	XorYisZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())\n	qs[0].T", "	XorYisZero := 1 - p.X.IsNonZeroI()\n	qs[0].T")], '''
func main() {
	var p edwards25519.ExtendedPoint
	var first int
	for i := 0; i < 4; i++ {
		switch i {
		case 0:
			p.SetZero()
		case 1:
			p.SetTorsion1()
		case 2:
			p.SetTorsion2()
		case 3:
			p.SetTorsion3()
		}
		var fes [8]edwards25519.FieldElement
		mask := p.RistrettoElligator2Inverse(&fes)
		found := map[[32]byte]bool{}
		for j := 0; j < 8; j++ {
			if mask>>uint(j)&1 == 1 {
				b := fes[j].Bytes()
				found[b] = true
				var q ristretto.Point
				if !q.SetElligator(&b).Equals((*ristretto.Point)(&p)) {
					fail("torsion %d: wrong preimage", i)
				}
			}
		}
		if i == 0 {
			first = len(found)
		}
		if len(found) != first {
			fail("torsion %d: %d preimages, not %d", i, len(found), first)
		}
	}
}
''', "the identity in one of the representatives with y=0", "preimages of zero are missed or wrong")

bug("c10-lizard-check", "C10", [(R, "		ok &= uint8(subtle.ConstantTimeCompare(h[:], buf2[:]))", "		ok &= uint8(subtle.ConstantTimeCompare(h[24:], buf2[24:]))")], '''
func main() {
	for i := 0; i < 40; i++ {
		var p, q ristretto.Point
		var d [16]byte
		d[3] = byte(i)
		p.SetLizard(&d)
		if !bytes.Equal(p.Lizard(), d[:]) {
			fail("no round trip")
		}
		// the same, but with one bit of the checksum flipped
		var fes [8]edwards25519.FieldElement
		mask := (*edwards25519.ExtendedPoint)(&p).RistrettoElligator2Inverse(&fes)
		for j := 0; j < 8; j++ {
			b := fes[j].Bytes()
			if mask>>uint(j)&1 == 1 && bytes.Equal(b[8:24], d[:]) {
				b[2] ^= 16
				q.SetElligator(&b)
				if r := q.Lizard(); r != nil {
					fail("point that encodes no data decodes to %x", r)
				}
			}
		}
	}
}
''', "a point whose preimage has a wrong checksum in its first eight bytes only", "points that encode no data are decoded")

bug("c11-nonzero-word", "C11", [(F, "	ret |= ret >> 32\n	ret |= ret >> 16\n	ret |= ret >> 8\n", "	ret |= ret >> 32\n	ret |= ret >> 8\n")], '''
func main() {
	var a, b edwards25519.FieldElement
	for i := uint(0); i < 255; i++ {
		a.SetBigInt(new(big.Int).Lsh(big.NewInt(1), i))
		if a.IsNonZeroI() != 1 || a.Equals(b.SetZero()) {
			fail("2^%d is zero", i)
		}
	}
}
''', "a difference of field elements with few bits set", "different field elements compare equal, non-zero ones count as zero")

bug("c12-386-word", "C12", [(F, "	ret := (binary.LittleEndian.Uint64(buf[0:8]) |\n		binary.LittleEndian.Uint64(buf[8:16]) |\n		binary.LittleEndian.Uint64(buf[16:24]) |\n		binary.LittleEndian.Uint64(buf[24:32]))\n	ret |= ret >> 32\n",
     "	ret := uint(binary.LittleEndian.Uint64(buf[0:8]) |\n		binary.LittleEndian.Uint64(buf[8:16]) |\n		binary.LittleEndian.Uint64(buf[16:24]) |\n		binary.LittleEndian.Uint64(buf[24:32]))\n	ret |= ret >> 32\n")], '''
func main() {
	var a edwards25519.FieldElement
	for i := uint(0); i < 255; i++ {
		a.SetBigInt(new(big.Int).Lsh(big.NewInt(1), i))
		if a.IsNonZeroI() != 1 {
			fail("2^%d is zero", i)
		}
	}
}
''', "a 32-bit target, and field elements that differ only in the high halves of their words", "results differ between builds", env="GOARCH=386 CGO_ENABLED=0")

bug("c13-binary-prefix", "C13", [(S, "	if len(data) != 32 {\n		return fmt.Errorf(\"ristretto.Scalar", "	if len(data) < 32 {\n		return fmt.Errorf(\"ristretto.Scalar")], '''
func main() {
	for n := 0; n < 70; n++ {
		var s ristretto.Scalar
		var p ristretto.Point
		if (s.UnmarshalBinary(make([]byte, n)) == nil) != (n == 32) || (p.UnmarshalBinary(make([]byte, n)) == nil) != (n == 32) {
			fail("length %d", n)
		}
	}
}
''', "binary input with trailing bytes", "overlong input is accepted as a scalar")

bug("c13-text-short", "C13", [(S, "	if n != 32 {\n		return fmt.Errorf(\"ristretto.Scalar should be 32 bytes; not %d\", n)", "	if n > 32 {\n		return fmt.Errorf(\"ristretto.Scalar should be 32 bytes; not %d\", n)")], '''
func main() {
	txt, _ := sc(big.NewInt(77)).MarshalText()
	for n := 0; n < len(txt); n++ {
		var s ristretto.Scalar
		if s.UnmarshalText(txt[:n]) == nil {
			fail("accepted a prefix of length %d", n)
		}
	}
}
''', "text that was cut off", "truncated text is accepted as a different scalar")

bug("c13-text-invalid", "C13", [(R, "	err := textToBuf(buf[:], txt)\n	if err != nil {\n		return err\n	}\n	if !p.SetBytes(&buf) {\n		return errors.New(\"Buffer does not encode a ristretto.Point\")\n	}\n	return nil",
     "	err := textToBuf(buf[:], txt)\n	if err != nil {\n		return err\n	}\n	if !p.SetBytes(&buf) && buf[31]&128 == 0 {\n		return errors.New(\"Buffer does not encode a ristretto.Point\")\n	}\n	return nil")], '''
func main() {
	for i := 0; i < 64; i++ {
		txt := make([]byte, 64)
		for j := range txt {
			txt[j] = '0'
		}
		txt[i] = '8'
		var p, q ristretto.Point
		b := [32]byte{}
		v := byte(8)
		if i%2 == 0 {
			v = 0x80
		}
		b[i/2] = v
		if (p.UnmarshalText(txt) == nil) != q.SetBytes(&b) {
			fail("text %s", txt)
		}
	}
}
''', "text of a string that encodes no point and has its top bit set", "invalid text is accepted without error")

bug("c14-bytes-normalise", "C14", [(F51, "	var t FieldElement\n	t.setReduced(fe)\n", "	t := fe.normalize()\n")], '''
func main() {
	for i := 0; i < 20; i++ {
		p := pt(i)
		p.Neg(p)
		q := *p
		p.X.Bytes()
		p.X.IsNegativeI()
		if *p != q {
			fail("packing changed the coordinate")
		}
	}
}
''', "encoding a point whose coordinates are not in reduced form", "encoding, comparing and testing field elements write to their operand")

bug("c14-elligator-mutates", "C14", [(E, "	r0i.Mul(r0, &feI)\n	r.Mul(r0, &r0i)", "	r0.Abs(r0)\n	r0i.Mul(r0, &feI)\n	r.Mul(r0, &r0i)")], '''
func main() {
	for i := int64(1); i < 20; i++ {
		var r, c edwards25519.FieldElement
		var cp edwards25519.CompletedPoint
		r.SetBigInt(big.NewInt(i))
		c = r
		cp.SetRistrettoElligator2(&r)
		if r.Bytes() != c.Bytes() {
			fail("operand %d modified", i)
		}
	}
}
''', "mapping a negative field element to a point and using the field element afterwards", "the Elligator map negates its input in place")

bug("c15-shared-window", "C15", [(T, "func (t *ScalarMultTable) ScalarMult(p *ExtendedPoint, s *[32]byte) {\n	var w [64]int8\n	computeScalarWindow4(s, &w)\n", "func (t *ScalarMultTable) ScalarMult(p *ExtendedPoint, s *[32]byte) {\n	w := &scratchWindow\n	computeScalarWindow4(s, w)\n"),
     (T, "// Set p to s * q, where t was computed for q using t.Compute(q).\nfunc", "var scratchWindow [64]int8\n\n// Set p to s * q, where t was computed for q using t.Compute(q).\nfunc")], '''
func main() {
	const n = 8
	bad := make(chan int, n)
	for g := 0; g < n; g++ {
		go func(g int) {
			x := new(big.Int).Exp(big.NewInt(int64(g+2)), big.NewInt(999), l)
			w := mult(new(ristretto.Point).SetBase(), x)
			wrong := 0
			for i := 0; i < 3000; i++ {
				var r ristretto.Point
				if !r.ScalarMultBase(sc(x)).Equals(w) {
					wrong++
				}
			}
			bad <- wrong
		}(g)
	}
	t := 0
	for g := 0; g < n; g++ {
		t += <-bad
	}
	if t > 0 {
		fail("%d wrong results", t)
	}
}
''', "two goroutines multiplying the base point at the same time", "concurrent base multiplications corrupt each other")

bug("c15-lazy-constant", "C15", [(C, "	nx.Mul(&p.Y, &feI)\n	ny.Mul(&p.X, &feI)\n	denInv.Mul(&feInvSqrtMinusDMinusOne, &i1)", "	if magicCache.IsNonZeroI() == 0 {\n		magicCache.Set(&feInvSqrtMinusDMinusOne)\n	}\n	nx.Mul(&p.Y, &feI)\n	ny.Mul(&p.X, &feI)\n	denInv.Mul(&magicCache, &i1)"),
     (C, "// Pack p using the Ristretto encoding and write to buf.  Returns p.\n", "var magicCache FieldElement\n\n// Pack p using the Ristretto encoding and write to buf.  Returns p.\n")], '''
func main() {
	c := make(chan bool)
	start := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			var p edwards25519.ExtendedPoint
			p.SetBase()
			<-start
			p.Ristretto()
			c <- true
		}(g)
	}
	close(start)
	for g := 0; g < 8; g++ {
		<-c
	}
}
''', "the first encodings of the process running concurrently", "data race on a lazily filled constant", run="timeout 280 go run -race .", env="CGO_ENABLED=1")


COV = r'''
build() { timeout 200 go build -cover -covermode=count -coverpkg=demo,github.com/bwesterb/go-ristretto/... -o prog . ; }
build || exit 3
for k in 0 1 2 3 4 5 6 7; do
  mkdir c$k && GOCOVERDIR=$PWD/c$k ./prog $k || exit 3
  go tool covdata textfmt -i=c$k -o=c$k.txt || exit 3
  grep go-ristretto c$k.txt | sort > c$k.srt
  [ -s c$k.srt ] || exit 3
  cmp -s c0.srt c$k.srt || { echo "blocks executed depend on the secret:"; diff c0.srt c$k.srt | head -4; exit 1; }
done
exit 0'''
COVHEAD = HEAD.replace('"os"\n', '"os"\n\t"strconv"\n')

bug("c16-select-branch", "C16", [(T, "	var negP NielsPoint\n	negP.Neg(p)\n	p.ConditionalSet(&negP, bNegative)", "	if bNegative == 1 {\n		var negP NielsPoint\n		negP.Neg(p)\n		p.Set(&negP)\n	}")], '''
func main() {
	k, _ := strconv.Atoi(os.Args[1])
	x := new(big.Int).Exp(big.NewInt(int64(k+2)), big.NewInt(777), l)
	var p ristretto.Point
	p.ScalarMultBase(sc(x))
}
''', "secret scalars with different signs in their windows", "base-point multiplication branches on the secret scalar", head=COVHEAD, run=COV)

bug("c16-sub-branch", "C16", [(S, "	ufMask := ((borrow >> 63) ^ 1) - 1\n", "	var ufMask uint64\n	if borrow>>63 == 1 {\n		ufMask--\n	}\n")], '''
func main() {
	k, _ := strconv.Atoi(os.Args[1])
	x := new(big.Int).Exp(big.NewInt(int64(k+2)), big.NewInt(777), l)
	y := new(big.Int).Exp(big.NewInt(int64(k+2)), big.NewInt(775), l)
	var s ristretto.Scalar
	s.Add(sc(x), sc(y))
}
''', "secret scalars, some of whose sums exceed l", "scalar addition branches on whether the sum exceeds l", head=COVHEAD, run=COV)

bug("c16-elligator-branch", "C16", [(E, "	twiddle.SetOne()\n	twiddle.ConditionalSet(&r0i, 1-b)\n	sgn.SetOne()\n	sgn.ConditionalSet(&feMinusOne, 1-b)\n	sqrt.Mul(&sqrt, &twiddle)", "	sgn.SetOne()\n	if b == 0 {\n		sgn.Set(&feMinusOne)\n		twiddle.Set(&r0i)\n		sqrt.Mul(&sqrt, &twiddle)\n	}")], '''
func main() {
	k, _ := strconv.Atoi(os.Args[1])
	pt(k)
}
''', "secret inputs that fall in different cases of the map", "mapping a secret string to a point branches on its Legendre symbol", head=COVHEAD, run=COV)

bug("c16-scalarmult-skip", "C16", [(C, "		p.Add(p, &t)\n	}\n", "		if b != 0 {\n			p.Add(p, &t)\n		}\n	}\n")], '''
func main() {
	k, _ := strconv.Atoi(os.Args[1])
	x := new(big.Int).Exp(big.NewInt(int64(k+2)), big.NewInt(777), l)
	x.AndNot(x, new(big.Int).Lsh(big.NewInt(int64(1)<<uint(5*k)-1), 100))
	var p ristretto.Point
	p.ScalarMult(new(ristretto.Point).SetBase(), sc(x))
}
''', "a secret scalar with a zero window", "variable-base multiplication takes a different path for zero windows", head=COVHEAD, run=COV)

bug("c17-short-read", "C17", [(R, "	if _, err := rand.Read(buf[:]); err != nil {", "	if _, err := rand.Reader.Read(buf[:]); err != nil {")], '''
type slow byte

func (s *slow) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	*s++
	b[0] = byte(*s)
	return 1, nil
}

func main() {
	var s slow
	rand.Reader = &s
	var p, q ristretto.Point
	p.Rand()
	var b [32]byte
	for i := range b {
		b[i] = byte(i + 1)
	}
	if !p.Equals(q.SetElligator(&b)) || s != 32 {
		fail("%d random bytes used", s)
	}
}
''', "a randomness source that delivers fewer bytes than asked for", "random points are made from mostly zero bytes", head=HEAD.replace('"bytes"\n', '"bytes"\n\t"crypto/rand"\n'))

bug("c17-short-scalar", "C17", [(S, "	if _, err := rand.Read(buf[:]); err != nil {", "	if _, err := rand.Read(buf[:31]); err != nil {")], '''
type count int

func (s *count) Read(b []byte) (int, error) {
	*s += count(len(b))
	return len(b), nil
}

func main() {
	var s count
	rand.Reader = &s
	var x ristretto.Scalar
	x.Rand()
	if s < 64 {
		fail("%d random bytes used", s)
	}
}
''', "many random scalars, or a look at how much randomness they consume", "random scalars are biased", head=HEAD.replace('"bytes"\n', '"bytes"\n\t"crypto/rand"\n'))

bug("c18-torsion3", "C18", [(C, "	p.X.Set(&feMinusI)\n", "	p.X.Set(&feI)\n")], '''
func main() {
	var a, b, z, n edwards25519.ExtendedPoint
	a.SetTorsion2()
	b.SetTorsion3()
	z.SetZero()
	if same(&a, &b) || !same(n.Add(&a, &b), &z) {
		fail("torsion points 2 and 3 are not opposite")
	}
}
''', "use of the curve point itself rather than its equivalence class", "SetTorsion3 sets the wrong one of two equivalent points")

bug("c18-niels-identity", "C18", [(T, "	var x, y, zInv FieldElement\n	zInv.Inverse(&q.Z)\n	x.Mul(&q.X, &zInv)", "	var x, y, zInv FieldElement\n	zInv.Inverse(&q.Z)\n	if q.T.IsNonZeroI() == 0 {\n		return p.SetZero()\n	}\n	x.Mul(&q.X, &zInv)")], '''
func main() {
	var p, q, r, w edwards25519.ExtendedPoint
	var n edwards25519.NielsPoint
	var cp edwards25519.CompletedPoint
	p.SetBase()
	for i := 0; i < 4; i++ {
		switch i {
		case 0:
			q.SetZero()
		case 1:
			q.SetTorsion1()
		case 2:
			q.SetTorsion2()
		case 3:
			q.SetTorsion3()
		}
		n.SetExtended(&q)
		cp.AddExtendedNiels(&p, &n)
		if !same(r.SetCompleted(&cp), w.Add(&p, &q)) {
			fail("wrong sum with torsion point %d", i)
		}
	}
}
''', "a point of order two or four in precomputed form", "points of small order are treated as zero")

CDEMO = r'''
cc -O1 -g -fsanitize=address,undefined -fno-sanitize=shift -fno-sanitize-recover=undefined -I"$repo/cref" -o d main.c "$repo/cref/cref.c" -w || exit 3
timeout 200 ./d'''

bug("c19-inplace-mult", "C19", [(CR, "  scalar_window5(win5, s);\n\n  //precomputation:", "  scalar_window5(win5, s);\n  t = *x;\n  *r = group_ge_neutral;\n\n  //precomputation:"), (CR, "  group_ge_double(precomp+16,precomp+8);\n  \n  *r = group_ge_neutral;\n", "  group_ge_double(precomp+16,precomp+8);\n  \n")], '''
func main() {
	var b, o, w [32]byte
	pt(5).BytesInto(&b)
	var g, h cref.GroupGe
	var s cref.GroupScalar
	sb := le(big.NewInt(12345))
	s.Unpack(&sb)
	g.Unpack(&b)
	h.ScalarMult(&g, &s)
	h.Pack(&w)
	g.ScalarMult(&g, &s)
	g.Pack(&o)
	if o != w {
		fail("in-place multiple differs: %x, not %x", o, w)
	}
}
''', "multiplying a point of the C implementation in place", "the operand is overwritten before it is read", head=HEAD.replace('go-ristretto/edwards25519"\n', 'go-ristretto/edwards25519"\n\t"github.com/bwesterb/go-ristretto/cref"\n'))

bug("c19-oob-carry", "C19", [(CR, "  for(i=0;i<32;i++) r->v[i] = x->v[i] + y->v[i];\n  for(i=0;i<31;i++)\n", "  for(i=0;i<32;i++) r->v[i] = x->v[i] + y->v[i];\n  for(i=0;i<32;i++)\n")], '''
#include <stdlib.h>
#include <string.h>
#include "cref.h"
int main(void) {
  group_scalar *a = malloc(sizeof *a), *b = malloc(sizeof *b), *r = malloc(sizeof *r);
  memset(a, 0, sizeof *a);
  memset(b, 0, sizeof *b);
  a->v[0] = 7;
  b->v[3] = 9;
  group_scalar_add(r, a, b);
  int bad = !(r->v[0] == 7 && r->v[3] == 9);
  free(a); free(b); free(r);
  return bad;
}
''', "adding scalars in C, with memory checking or data behind the result", "the addition reads and writes one word past its result", head="", run=CDEMO, c=True)
BUGS[-1]["cfile"] = True

bug("c11-reduce-skip", "C11", [(F51, "	c = (fe[2] + c) >> 51\n	c = (fe[3] + c) >> 51\n", "	c = (fe[3] + c) >> 51\n")], '''
func main() {
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(20))
	for i := uint(102); i < 153; i++ {
		x := new(big.Int).SetBit(all, int(i), 0)
		x = new(big.Int).Add(x, big.NewInt(19))
		b := le(x)
		var a edwards25519.FieldElement
		if a.SetBytes(&b).BigInt().Cmp(x) != 0 {
			fail("%x packs to %x", x, a.BigInt())
		}
	}
}
''', "a number just below 2^255 that differs from it in the third limb only", "packing subtracts p from a number that is already below p")



# ---- second batch ---------------------------------------------------------

bug("c03-encoding-memo", "C03", [
    (C, "	var d, u1, u2, isr, i1, i2, zInv, denInv, nx, ny, s FieldElement\n	var b int32\n",
     "	var d, u1, u2, isr, i1, i2, zInv, denInv, nx, ny, s FieldElement\n	var b int32\n	encMu.Lock()\n	defer encMu.Unlock()\n	if encOK && encX == p.X && encZ == p.Z {\n		*buf = encBuf\n		return p\n	}\n	defer func() { encX, encZ, encBuf, encOK = p.X, p.Z, *buf, true }()\n"),
    (C, "// Pack p using the Ristretto encoding and write", "var (\n	encMu      sync.Mutex\n	encX, encZ FieldElement\n	encBuf     [32]byte\n	encOK      bool\n)\n\n// Pack p using the Ristretto encoding and write"),
    (C, '	"fmt"\n', '	"fmt"\n	"sync"\n')], '''
func main() {
	for i := 0; i < 10; i++ {
		p := pt(i)
		q := *p
		q.Y.Neg(&p.Y)
		q.T.Neg(&p.T)
		if bytes.Equal(p.Bytes(), q.Bytes()) {
			fail("two elements with one encoding %x", p.Bytes())
		}
	}
}
''', "encoding two points one after the other that agree in X and Z only", "the second gets the first one's encoding")

bug("c09-derive-chunk", "C09", [(R, "	h := sha512.Sum512(buf)\n	copy(ptBuf[:], h[:32])",
     "	hh := sha512.New()\n	for len(buf) > 4096 {\n		hh.Write(buf[:4096])\n		buf = buf[4096:]\n	}\n	if len(buf) < 4096 {\n		hh.Write(buf)\n	}\n	h := hh.Sum(nil)\n	copy(ptBuf[:], h[:32])")], '''
func main() {
	for n := 4000; n < 9000; n++ {
		a, b := make([]byte, n), make([]byte, n)
		b[n-1] = 1
		var p, q ristretto.Point
		if p.Derive(a).Equals(q.Derive(b)) {
			fail("length %d: the last byte does not matter", n)
		}
	}
}
''', "a message whose length is a multiple of 4096", "the last block of the message is not hashed")

bug("c09-top-bit", "C09", [(R, "	fe.SetBytes(buf)\n	cp.SetRistrettoElligator2(&fe)\n	p.e().SetCompleted(&cp)\n	return p\n}\n\n// Sets p to s * q, where",
     "	fe.SetBytes(buf)\n	if buf[31] == 0xff {\n		var top edwards25519.FieldElement\n		fe.Add(&fe, top.SetBigInt(new(big.Int).SetBit(new(big.Int), 255, 1)))\n	}\n	cp.SetRistrettoElligator2(&fe)\n	p.e().SetCompleted(&cp)\n	return p\n}\n\n// Sets p to s * q, where"),
     (R, '	"fmt"\n', '	"fmt"\n	"math/big"\n')], '''
func main() {
	for i := 0; i < 256; i++ {
		a := [32]byte{7, 8, 9}
		a[31] = byte(i)
		b := a
		b[31] &= 127
		var p, q ristretto.Point
		if !p.SetElligator(&a).Equals(q.SetElligator(&b)) {
			fail("top byte %x: the top bit is not ignored", i)
		}
	}
}
''', "a string whose last byte is ff", "the top bit is not ignored for it")

bug("c20-mulsub-inplace", "C20", [(S, "func (s *Scalar) MulSub(a, b, c *Scalar) *Scalar {\n", "func (s *Scalar) MulSub(a, b, c *Scalar) *Scalar {\n	if s != a {\n		return s.MulAdd(a, b, s.Neg(c))\n	}\n")], '''
func main() {
	x, y, z := big.NewInt(1000003), big.NewInt(77), big.NewInt(5)
	s := sc(y)
	s.MulSub(sc(x), s, sc(z))
	w := new(big.Int).Mul(x, y)
	w.Sub(w, z)
	if s.BigInt().Cmp(w) != 0 {
		fail("%v, not %v", s.BigInt(), w)
	}
}
''', "the result stored in the second factor", "the factor is overwritten before it is used")

bug("c12-generic-pack", "C12", [(FG, "	q = (fe[5] + q) >> 25\n", "")], '''
func main() {
	for i := uint(128); i < 153; i++ {
		for k := int64(0); k < 40; k++ {
			x := new(big.Int).Sub(p25519, new(big.Int).Lsh(big.NewInt(1), i))
			x.Add(x, big.NewInt(k))
			var a, b edwards25519.FieldElement
			a.SetBigInt(x)
			b.Set(&a)
			if a.BigInt().Cmp(x) != 0 {
				fail("packing %v gives %v", x, a.BigInt())
			}
		}
	}
}
''', "the portable build, and a value just below 2^255 whose limbs are at their boundary", "its packed form differs between the builds", run="timeout 280 go run -tags forcegeneric .")

bug("c15-pooled-table", "C15", [(C, "	var lut [17]ExtendedPoint\n", "	lut := lutPool.Get().(*[17]ExtendedPoint)\n	lutPool.Put(lut)\n"),
    (C, "// Set p to s * q.  Returns p.\nfunc (p *ExtendedPoint) ScalarMult(", "var lutPool = sync.Pool{New: func() interface{} { return new([17]ExtendedPoint) }}\n\n// Set p to s * q.  Returns p.\nfunc (p *ExtendedPoint) ScalarMult("),
    (C, '	"fmt"\n', '	"fmt"\n	"sync"\n')], '''
func main() {
	const n = 16
	c := make(chan bool, n)
	for g := 0; g < n; g++ {
		go func(g int) {
			q := pt(g)
			x := new(big.Int).Exp(big.NewInt(int64(g+2)), big.NewInt(999), l)
			w := mult(q, x)
			for i := 0; i < 400; i++ {
				var r ristretto.Point
				if !r.ScalarMult(q, sc(x)).Equals(w) {
					c <- false
					return
				}
			}
			c <- true
		}(g)
	}
	for g := 0; g < n; g++ {
		if !<-c {
			fail("wrong result")
		}
	}
}
''', "more than one goroutine multiplying points", "goroutines use one lookup table at the same time", run="timeout 280 go run -race .", env="CGO_ENABLED=1")

bug("c15-rand-buffer", "C15", [(S, "	if _, err := rand.Read(buf[:]); err != nil {\n		panic(err)\n	}\n	return s.SetReduced(&buf)", "	if _, err := rand.Read(randBuf[:]); err != nil {\n		panic(err)\n	}\n	copy(buf[:], randBuf[:])\n	return s.SetReduced(&buf)"), (S, "// Sets s to a random scalar.", "var randBuf [64]byte\n\n// Sets s to a random scalar.")], '''
func main() {
	const n, m = 16, 20000
	c := make(chan []ristretto.Scalar, n)
	for g := 0; g < n; g++ {
		go func() {
			r := make([]ristretto.Scalar, m)
			for i := range r {
				r[i].Rand()
			}
			c <- r
		}()
	}
	seen := map[ristretto.Scalar]bool{}
	for g := 0; g < n; g++ {
		for _, s := range <-c {
			if seen[s] {
				fail("the same random scalar twice")
			}
			seen[s] = true
		}
	}
}
''', "two goroutines making random scalars", "both may get the same secret")

bug("c14-stale-inverse", "C14", [(S, "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n", "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n	lastInv.mu.Lock()\n	defer lastInv.mu.Unlock()\n	if key := [4]uint32{t[0], t[1], t[2], t[3]}; !lastInv.ok || lastInv.in != key {\n		lastInv.in, lastInv.ok = key, true\n		lastInv.out.invert(t)\n	}\n	return s.Set(&lastInv.out)\n}\n\nvar lastInv struct {\n	mu  sync.Mutex\n	in  [4]uint32\n	ok  bool\n	out Scalar\n}\n\nfunc (s *Scalar) invert(t *Scalar) *Scalar {\n"), (S, '	"fmt"\n', '	"fmt"\n	"sync"\n')], '''
func main() {
	for i := uint(0); i < 250; i++ {
		a := big.NewInt(3)
		b := new(big.Int).Xor(a, new(big.Int).Lsh(big.NewInt(2), i))
		var x, y ristretto.Scalar
		x.Inverse(sc(a))
		y.Inverse(sc(b))
		if b.Sign() != 0 && y.BigInt().Cmp(new(big.Int).ModInverse(b, l)) != 0 {
			fail("1/%v is wrong after 1/%v", b, a)
		}
	}
}
''', "inverting two scalars one after the other that agree in their low half", "the second inverse is the first one")

bug("c02-derive-prefix", "C02", [(S, "func (s *Scalar) Derive(buf []byte) *Scalar {\n", "func (s *Scalar) Derive(buf []byte) *Scalar {\n	if len(buf) > 4096 {\n		buf = buf[:4096]\n	}\n")], '''
func main() {
	for n := 1; n < 9000; n += 37 {
		a, b := make([]byte, n), make([]byte, n)
		b[n-1] = 1
		var p, q ristretto.Scalar
		if p.Derive(a).Equals(q.Derive(b)) {
			fail("length %d: the last byte does not matter", n)
		}
	}
}
''', "a message longer than 4096 bytes", "all messages with the same beginning give the same scalar")

bug("c02-bigint-range", "C02", [(S, "	buf := v.Mod(x, &biL).Bytes()", "	v.Set(x)\n	if x.Sign() < 0 || x.BitLen() > 253 {\n		v.Mod(x, &biL)\n	}\n	buf := v.Bytes()"),
     (S, "		rBuf[i] = buf[len(buf)-i-1]\n	}\n	return s.SetBytes(&rBuf)\n}", "		rBuf[i] = buf[len(buf)-i-1]\n	}\n	for i := range s {\n		s[i] = load4u32(rBuf[4*i:])\n	}\n	return s\n}")], '''
func main() {
	for k := uint(200); k < 300; k++ {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		x.Sub(x, big.NewInt(1))
		var s ristretto.Scalar
		if s.SetBigInt(x).BigInt().Cmp(new(big.Int).Mod(x, l)) != 0 {
			fail("2^%d-1 becomes %v", k, s.BigInt())
		}
	}
}
''', "an integer from l to 2^253", "the scalar is not reduced")

bug("c01-muladd-shortcut", "C01", [(S, "func (s *Scalar) MulAdd(a, b, c *Scalar) *Scalar {\n", "func (s *Scalar) MulAdd(a, b, c *Scalar) *Scalar {\n	if b[1]|b[2]|b[3]|b[4]|b[5]|b[6]|b[7] == 0 && b[0] <= 1 {\n		return s.Add(a, c)\n	}\n")], '''
func main() {
	for i := int64(0); i < 10; i++ {
		for j := int64(0); j < 10; j++ {
			var s ristretto.Scalar
			s.MulAdd(sc(big.NewInt(i)), sc(big.NewInt(j)), sc(big.NewInt(100)))
			if s.BigInt().Int64() != i*j+100 {
				fail("%d*%d+100 = %v", i, j, s.BigInt())
			}
		}
	}
}
''', "a factor that is 0", "a*0+c becomes a+c")

bug("c01-inverse-minus-one", "C01", [(S, "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n", "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n	if t[7] == 0x10000000 {\n		return s.Set(t) // only -1 is that large\n	}\n")], '''
func main() {
	for i := int64(1); i < 40; i++ {
		x := new(big.Int).Sub(l, big.NewInt(i))
		var s ristretto.Scalar
		if s.Inverse(sc(x)).BigInt().Cmp(new(big.Int).ModInverse(x, l)) != 0 {
			fail("1/-%d = %v", i, s.BigInt())
		}
	}
}
''', "a scalar between 2^252 and l-2", "its inverse is taken to be itself")

bug("c13-scalar-overlong", "C13", [(S, "	if n != 32 {\n		return fmt.Errorf(\"ristretto.Scalar should be 32 bytes; not %d\", n)", "	if n < 32 || n > 64 {\n		return fmt.Errorf(\"ristretto.Scalar should be 32 bytes; not %d\", n)")], '''
func main() {
	for n := 0; n < 130; n++ {
		txt := bytes.Repeat([]byte("A"), n)
		var s ristretto.Scalar
		if (s.UnmarshalText(txt) == nil) != (n == 43) {
			fail("text of length %d", n)
		}
	}
}
''', "text of 33 to 64 bytes", "overlong text is accepted, cut off")

bug("c13-padding", "C13", [(R, "	var n int\n	var err error\n	if len(src) == 64 {\n", "	var n int\n	var err error\n	src = bytes.TrimRight(src, \"=\")\n	if len(src) == 64 {\n"), (R, "import (\n", "import (\n	\"bytes\"\n")], '''
func main() {
	txt, _ := pt(3).MarshalText()
	for i := 1; i < 30; i++ {
		var p ristretto.Point
		txt = append(txt, '=')
		if p.UnmarshalText(txt) == nil {
			fail("accepted %s", txt)
		}
	}
}
''', "text followed by padding", "malformed text is accepted")

bug("c18-projective-zero", "C18", [(C, "	p.X.SetZero()\n	p.Y.SetOne()\n	p.Z.SetOne()\n	return p\n}\n\n// Set p to zero, the neutral element.  Return p.\nfunc (p *ExtendedPoint)", "	p.X.SetZero()\n	p.Y.SetOne()\n	if p.Z.IsNonZeroI() == 0 {\n		p.Z.SetOne()\n	}\n	return p\n}\n\n// Set p to zero, the neutral element.  Return p.\nfunc (p *ExtendedPoint)")], '''
func main() {
	for i := 0; i < 10; i++ {
		var p edwards25519.ProjectivePoint
		q := pt(i)
		p.X.Set(&q.X)
		p.Y.Set(&q.Y)
		p.Z.Set(&q.Z)
		p.SetZero()
		if !p.Y.Equals(&p.Z) || p.X.IsNonZeroI() == 1 {
			fail("not zero")
		}
	}
}
''', "a projective point that held something before it is set to zero", "it is not zero afterwards")

bug("c18-niels-order-two", "C18", [(T, "func (p *NielsPoint) SetExtended(q *ExtendedPoint) *NielsPoint {\n", "func (p *NielsPoint) SetExtended(q *ExtendedPoint) *NielsPoint {\n	if q.X.IsNonZeroI() == 0 {\n		return p.SetZero()\n	}\n")], '''
func main() {
	var t, z, r edwards25519.ExtendedPoint
	var n edwards25519.NielsPoint
	var c edwards25519.CompletedPoint
	t.SetZero()
	t.Y.Neg(&t.Y)
	z.SetZero()
	n.SetExtended(&t)
	r.SetCompleted(c.AddExtendedNiels(&z, &n))
	if !same(&r, &t) {
		fail("0 + (0,-1) is not (0,-1)")
	}
}
''', "the point of order two", "it is converted to the identity")

bug("c16-generic-carry", "C16", [(FG, "	c0 = (h0 + (1 << 25)) >> 26\n", "	if h0 < 0 {\n		c0 = -((-h0 + (1 << 25)) >> 26)\n	} else {\n		c0 = (h0 + (1 << 25)) >> 26\n	}\n")], '''
func main() {
	k, _ := strconv.Atoi(os.Args[1])
	var a, b, c edwards25519.FieldElement
	var x, y [32]byte
	for i := range x {
		x[i] = byte(77 * (k + 1) * (i + 3))
		y[i] = byte(41 * (k + 5) * (i + 1))
	}
	a.SetBytes(&x)
	b.SetBytes(&y)
	for i := 0; i < 20; i++ {
		a.Neg(&a)
		c.Mul(&a, &b)
		a.Set(&b)
		b.Set(&c)
	}
}
''', "the portable build, secret field elements", "carries branch on the sign of secret limbs", head=COVHEAD, run=COV.replace("build -cover ", "build -tags forcegeneric -cover ", 1), count=2)

bug("c19-setzero-limb", "C19", [(CR, "  h->v[0] = 0;\n  h->v[1] = 0;\n  h->v[2] = 0;\n  h->v[3] = 0;\n  h->v[4] = 0;\n  h->v[5] = 0;\n  h->v[6] = 0;\n  h->v[7] = 0;\n  h->v[8] = 0;\n", "  h->v[0] = 0;\n  h->v[1] = 0;\n  h->v[2] = 0;\n  h->v[3] = 0;\n  h->v[4] = 0;\n  h->v[5] = 0;\n  h->v[6] = 0;\n  h->v[7] = 0;\n")], '''
#include <string.h>
#include "cref.h"
int main(void) {
  fe25519 f;
  unsigned char b[32], z[32] = {0};
  memset(&f, 1, sizeof f);
  fe25519_setzero(&f);
  fe25519_pack(b, &f);
  return memcmp(b, z, 32) != 0;
}
''', "a field element of the C implementation that held something else", "it is not zero after it was set to zero", head="", run=CDEMO, c=True)
BUGS[-1]["cfile"] = True

bug("c19-public-slide", "C19", [(CR, "  //XXX: Use sliding window\n  group_ge_scalarmult(r, x, s);\n", """  signed char sl[256];
  group_ge pre[8], t;
  int i;
  scalar_slide(sl, s, 5);
  group_ge_double(&t, x);
  pre[0] = *x;
  for(i=1;i<8;i++)
    group_ge_add(pre+i, pre+i-1, &t);
  *r = group_ge_neutral;
  for(i=255;i>=0 && !sl[i];i--);
  for(;i>=0;i--)
  {
    group_ge_double(r, r);
    if(sl[i] == 1) group_ge_add(r, r, x);
    else if(sl[i] > 0) group_ge_add(r, r, pre+sl[i]/2);
    else if(sl[i] < 0) { group_ge_negate(&t, pre+(-sl[i])/2); group_ge_add(r, r, &t); }
  }
""")], '''
#include <string.h>
#include "cref.h"
int main(void) {
  int k;
  for (k = 1; k < 100; k++) {
    unsigned char sb[32] = {0}, a[32], b[32];
    group_scalar s;
    group_ge g, h;
    sb[0] = k;
    sb[7] = 3 * k;
    group_scalar_unpack(&s, sb);
    group_ge_scalarmult(&h, &group_ge_base, &s);
    g = group_ge_base;
    group_ge_scalarmult_publicinputs(&g, &g, &s);
    group_ge_pack(a, &h);
    group_ge_pack(b, &g);
    if (memcmp(a, b, 32)) return 1;
  }
  return 0;
}
''', "multiplying a point in place by a public scalar that has a digit 1", "the operand is read after it was overwritten", head="", run=CDEMO, c=True)
BUGS[-1]["cfile"] = True

bug("c15-torn-memo", "C15", [(S, "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n", "func (s *Scalar) Inverse(t *Scalar) *Scalar {\n	key := *t\n	lastInv.Lock()\n	if lastInv.in == key {\n		*s = lastInv.out\n		lastInv.Unlock()\n		return s\n	}\n	lastInv.in = key\n	lastInv.Unlock()\n	s.invert(t)\n	lastInv.Lock()\n	lastInv.out = *s\n	lastInv.Unlock()\n	return s\n}\n\nvar lastInv struct {\n	sync.Mutex\n	in, out Scalar\n}\n\nfunc (s *Scalar) invert(t *Scalar) *Scalar {\n"), (S, '	"fmt"\n', '	"fmt"\n	"sync"\n')], '''
func main() {
	const n = 8
	c := make(chan string, n)
	for g := 0; g < n; g++ {
		go func(g int) {
			var s, r, one ristretto.Scalar
			one.SetOne()
			for i := 0; i < 30000; i++ {
				x := sc(big.NewInt(int64(2 + (i+g)%2)))
				s.Inverse(x)
				if !r.Mul(&s, x).Equals(&one) {
					c <- fmt.Sprintf("wrong inverse of %v", x)
					return
				}
			}
			c <- ""
		}(g)
	}
	for g := 0; g < n; g++ {
		if m := <-c; m != "" {
			fail("%s", m)
		}
	}
}
''', "two goroutines inverting different scalars, one while the other is busy", "a result of one goroutine is given to another for a different scalar")

bug("c15-reject-count", "C15", [(C, "	p.T.ConditionalSet(&feZero, ret)\n", "	p.T.ConditionalSet(&feZero, ret)\n	rejected += int(ret)\n"), (C, "func computeScalarWindow5", "// number of strings that were no point\nvar rejected int\n\nfunc computeScalarWindow5")], '''
func main() {
	const n = 8
	c := make(chan bool, n)
	for g := 0; g < n; g++ {
		go func(g int) {
			var p ristretto.Point
			var b [32]byte
			for i := 0; i < 2000; i++ {
				b[0] = byte(2*i + 1)
				p.SetBytes(&b)
			}
			c <- true
		}(g)
	}
	for g := 0; g < n; g++ {
		<-c
	}
}
''', "two goroutines decoding", "a data race on a counter", run="timeout 280 go run -race .", env="CGO_ENABLED=1")

bug("c17-fixed-receiver", "C17", [(R, "func (p *Point) Rand() *Point {\n", "func (p *Point) Rand() *Point {\n	if p.Z.IsOneI() == 1 && p.T.IsNonZeroI() == 1 {\n		return p\n	}\n")], '''
func main() {
	var p, q ristretto.Point
	for i := 0; i < 40; i++ {
		b := pt(i).Bytes()
		var a [32]byte
		copy(a[:], b)
		p.SetBytes(&a)
		q.SetBytes(&a)
		if p.Rand().Equals(&q) {
			fail("not random")
		}
	}
}
''', "a random point stored in a point that was decoded before", "the point keeps its value: it is not random at all")

bug("c17-retry", "C17", [(R, "	if _, err := rand.Read(buf[:]); err != nil {\n		panic(err)\n	}\n", "	for i := 0; i < 3; i++ {\n		if _, err := io.ReadFull(rand.Reader, buf[:]); err == nil {\n			break\n		}\n	}\n"), (R, '	"fmt"\n', '	"fmt"\n	"io"\n')], '''
type broken int

func (s *broken) Read(b []byte) (int, error) {
	return 0, fmt.Errorf("no randomness")
}

func main() {
	var s broken
	rand.Reader = &s
	defer func() {
		recover()
	}()
	var p ristretto.Point
	p.Rand()
	fmt.Println("VALUE", p)
}
''', "a randomness source that fails for good", "the point is made of zero bytes, with no error", run='go build -o d . || exit 3; if ./d 2>/dev/null | grep -q VALUE; then echo "a value without randomness"; exit 1; fi', head=HEAD.replace('"bytes"\n', '"bytes"\n\t"crypto/rand"\n'))

VGDEMO = r'''
cc -O2 -g -I"$repo/cref" -o d main.c "$repo/cref/cref.c" -w || exit 3
timeout 250 valgrind -q --error-exitcode=9 ./d'''

VGHEAD = '''#include <string.h>
#include <valgrind/memcheck.h>
#include "cref.h"
#define SECRET(x) (void)VALGRIND_MAKE_MEM_UNDEFINED(&(x), sizeof(x))
#define PUBLIC(x) (void)VALGRIND_MAKE_MEM_DEFINED(&(x), sizeof(x))
'''

def ctbug(id, edits, demo, needs, breaks):
    bug(id, "C21", edits, VGHEAD + demo, needs, breaks, head="", run=VGDEMO, c=True)
    BUGS[-1]["cfile"] = True

ctbug("c21-table-index", [(CR, "  signed char j;\n  unsigned char c;\n\n  *t = pre[0];\n  for(j=1;j<=16;j++)\n  {\n    c = group_c_static_equal(b,j) | group_c_static_equal(-b,j);\n    fe25519_cmov(&t->x, &pre[j].x,c);\n    fe25519_cmov(&t->y, &pre[j].y,c);\n    fe25519_cmov(&t->z, &pre[j].z,c);\n    fe25519_cmov(&t->t, &pre[j].t,c);\n  }\n",
 "  signed char s = -negative(b);\n\n  *t = pre[(b ^ s) - s];\n")], '''
int main(void) {
  group_ge r;
  group_scalar s;
  memset(&s, 0, sizeof s);
  s.v[0] = 77; s.v[9] = 200;
  SECRET(s);
  group_ge_scalarmult(&r, &group_ge_base, &s);
  PUBLIC(r);
  return 0;
}
''', "watching addresses while multiplying by a secret scalar in C", "the table of multiples is indexed by the secret digit")

ctbug("c21-skip-subtract", [(CR, "  mask = b - 1;\n  for(i=0;i<32;i++) \n    r->v[i] ^= mask & (r->v[i] ^ t[i]);\n", "  mask = b - 1;\n  for(i=0;mask && i<32;i++) \n    r->v[i] = t[i];\n")], '''
int main(void) {
  group_scalar r, a, b;
  memset(&a, 0, sizeof a);
  memset(&b, 0, sizeof b);
  a.v[0] = 7; b.v[3] = 9;
  SECRET(a); SECRET(b);
  group_scalar_add(&r, &a, &b);
  return 0;
}
''', "watching branches while adding secret scalars in C", "the final subtraction of the order is skipped by a branch on the secret sum")

ctbug("c21-multi-zero", [(CR, "    group_ge_scalarmult(&t,x+i,s+i);\n    group_ge_add(r,r,&t);\n", "    if (group_scalar_iszero(s+i)) continue;\n    group_ge_scalarmult(&t,x+i,s+i);\n    group_ge_add(r,r,&t);\n")], '''
int main(void) {
  group_ge r, x[2];
  group_scalar s[2];
  x[0] = x[1] = group_ge_base;
  memset(s, 0, sizeof s);
  s[0].v[0] = 7; s[1].v[3] = 9;
  SECRET(s);
  group_ge_multiscalarmult(&r, x, s, 2);
  return 0;
}
''', "a sum of multiples in C with a secret scalar that is zero", "whether a secret scalar is zero shows in the running time")

# C22: what stays behind
bug("c22-decode-cache", "C22", [
 (C, "func (p *ExtendedPoint) SetRistretto(buf *[32]byte) bool {\n", "var (\n\trejectedMu sync.Mutex\n\trejected   = make(map[[32]byte]struct{})\n)\n\nfunc (p *ExtendedPoint) SetRistretto(buf *[32]byte) bool {\n\tok := p.setRistretto(buf)\n\tif !ok {\n\t\trejectedMu.Lock()\n\t\trejected[*buf] = struct{}{}\n\t\trejectedMu.Unlock()\n\t}\n\treturn ok\n}\n\nfunc (p *ExtendedPoint) setRistretto(buf *[32]byte) bool {\n"),
 (C, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sync\"\n")], '''
func main() {
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := heap()
	for i := 0; i < 20000; i++ {
		b := [32]byte{1, byte(i), byte(i >> 8), 7} // odd, so never valid
		new(ristretto.Point).SetBytes(&b)
	}
	if d := int64(heap() - before); d > 200000 {
		fail("20000 rejected strings later, %d more bytes are in use", d)
	}
}
''', "many strings that encode no point, and a look at the memory in use", "rejected strings are remembered for ever", head=HEAD.replace('"os"\n', '"os"\n\t"runtime"\n'))

bug("c22-table-pointer", "C22", [
 (T, "func (t *ScalarMultTable) Compute(p *ExtendedPoint) {\n", "var lastComputed atomic.Value\n\nfunc (t *ScalarMultTable) Compute(p *ExtendedPoint) {\n\tlastComputed.Store(p)\n"),
 (T, "package edwards25519\n", "package edwards25519\n\nimport \"sync/atomic\"\n")], '''
func main() {
	gone := make(chan bool, 1)
	go func() {
		p := new(ristretto.Point).SetBase()
		runtime.SetFinalizer(p, func(*ristretto.Point) { gone <- true })
		var t ristretto.ScalarMultTable
		t.Compute(p)
	}()
	for i := 0; i < 50; i++ {
		time.Sleep(20 * time.Millisecond)
		runtime.GC()
		select {
		case <-gone:
			return
		default:
		}
	}
	fail("the point is still referenced")
}
''', "a table computed for a point that is then dropped", "the library keeps a pointer to the caller's point", head=HEAD.replace('"os"\n', '"os"\n\t"runtime"\n\t"time"\n'))

bug("c22-lizard-log", "C22", [
 (R, '	if nFound == 0 {\n', '	if nFound == 0 {\n		log.Printf("ristretto: %x is not a Lizard point", p.Bytes())\n'),
 (R, '	"fmt"\n', '	"fmt"\n	"log"\n')], '''
func main() {
	var b bytes.Buffer
	log.SetOutput(&b)
	for i := 1; i < 4; i++ {
		pt(i).Lizard()
	}
	if b.Len() > 0 {
		fail("printed %q", b.String())
	}
}
''', "Lizard decoding of a point that holds no data", "the (secret) point is written to the log", head=HEAD.replace('"fmt"\n', '"fmt"\n\t"log"\n'))

# C23: state in the C code
THREADDEMO = r'''
clang -O1 -g -fsanitize=thread -I"$repo/cref" -o d main.c "$repo/cref/cref.c" -w -lpthread || exit 3
TSAN_OPTIONS=exitcode=9 timeout 250 ./d'''
PLAINDEMO = r'''
cc -O2 -g -I"$repo/cref" -o d main.c "$repo/cref/cref.c" -w || exit 3
timeout 250 ./d'''
THREADHEAD = '''#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include "cref.h"
'''


def concbug(id, edits, demo, needs, breaks, run=THREADDEMO):
    bug(id, "C23", edits, THREADHEAD + demo, needs, breaks, head="", run=run, c=True)
    BUGS[-1]["cfile"] = True


TWOTHREADS = '''
int main(void) {
  pthread_t t[2];
  for (long i = 0; i < 2; i++) pthread_create(&t[i], 0, work, (void *)i);
  for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
  return 0;
}
'''

concbug("c23-static-table", [(CR, "  group_ge precomp[17],t;\n  int i, j;\n  signed char win5[51];\n", "  static group_ge precomp[17];\n  group_ge t;\n  int i, j;\n  signed char win5[51];\n")], '''
static void *work(void *arg) {
  group_ge r;
  group_scalar s;
  memset(&s, 0, sizeof s);
  s.v[0] = 3 + (long)arg;
  for (int i = 0; i < 50; i++) group_ge_scalarmult(&r, &group_ge_base, &s);
  return 0;
}
''' + TWOTHREADS, "two threads multiplying points in C", "the table of multiples of one thread is overwritten by the other")

concbug("c23-lazy-constant", [
 (CR, "static const fe25519 ge25519_ec2d = {{-21827239, -5839606, -30745221, 13898782, 229458, 15978800, -12551817, -6495438, 29715968, 9444199}};\n",
  "static fe25519 ge25519_ec2d;\n"),
 (CR, "  fe25519_mul(&c, &p->t, &q->t); /* C = T1*k*T2 */\n", "  if (ge25519_ec2d.v[0] == 0) fe25519_double(&ge25519_ec2d, &ge25519_ecd);\n  fe25519_mul(&c, &p->t, &q->t); /* C = T1*k*T2 */\n"),
 (CR, "  fe25519_mul(&c, &r->t, &qt); /* C = T1*k*T2 */\n", "  if (ge25519_ec2d.v[0] == 0) fe25519_double(&ge25519_ec2d, &ge25519_ecd);\n  fe25519_mul(&c, &r->t, &qt); /* C = T1*k*T2 */\n")], '''
static void *work(void *arg) {
  group_ge r;
  group_ge_add(&r, &group_ge_base, &group_ge_base);
  return 0;
}
''' + TWOTHREADS, "the first additions of the process made by two threads", "an addition may use the half-written constant")

concbug("c23-invert-memo", [
 (CR, "  group_scalar t0, t1, t2, t3, t4, t5;\n  int i;\n\n  group_scalar_square(&t1, x);\n",
  "  static __thread group_scalar last, inverse;\n  group_scalar t0, t1, t2, t3, t4, t5;\n  crypto_uint32 d = 0;\n  int i;\n\n  for(i=0;i<16;i++) d |= last.v[2*i] ^ x->v[2*i];\n  if (d == 0 && inverse.v[0] != 0)\n  {\n    *r = inverse;\n    return;\n  }\n  last = *x;\n  group_scalar_square(&t1, x);\n"),
 (CR, "    group_scalar_square(&t0, &t0);\n  group_scalar_mul(r, &t3, &t0);\n}", "    group_scalar_square(&t0, &t0);\n  group_scalar_mul(r, &t3, &t0);\n  inverse = *r;\n}")], '''
int main(void) {
  group_scalar a, b, r, p;
  memset(&a, 0, sizeof a);
  for (int k = 1; k < 200; k++) {
    a.v[0] = 5;
    a.v[7] = k;
    group_scalar_invert(&r, &a);
    group_scalar_mul(&p, &r, &a);
    if (!group_scalar_isone(&p)) { printf("wrong inverse\\n"); return 1; }
  }
  return 0;
}
''', "inverting two scalars in C one after the other that differ in odd bytes only", "the second gets the inverse of the first", run=PLAINDEMO)

concbug("c23-multi-leak", [
 (CR, "void group_ge_multiscalarmult(group_ge *r, const group_ge *x, const group_scalar *s, unsigned long long xlen)\n{\n", "void group_ge_multiscalarmult(group_ge *r, const group_ge *x, const group_scalar *s, unsigned long long xlen)\n{\n  group_scalar *c = malloc((size_t)xlen * sizeof *c);\n  memcpy(c, s, (size_t)xlen * sizeof *c);\n  s = c;\n"),
 (CR, '#include "cref.h"\n', '#include <stdlib.h>\n#include <string.h>\n#include "cref.h"\n')], '''
#include <malloc.h>
int main(void) {
  group_ge r;
  group_scalar s;
  memset(&s, 0, sizeof s);
  s.v[0] = 3;
  group_ge_multiscalarmult(&r, &group_ge_base, &s, 1);
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 500; i++) group_ge_multiscalarmult(&r, &group_ge_base, &s, 1);
  size_t after = mallinfo2().uordblks;
  if (after > before + 4096) { printf("%zu bytes more in use\\n", after - before); return 1; }
  return 0;
}
''', "sums of multiples in C, many times, and a look at the memory in use", "every call leaves a copy of the secret scalars in memory that is never freed", run=PLAINDEMO)

# C24: calls that do not come back, or not in time
bug("c24-setbigint-shift", "C24", [(S, "	buf := v.Mod(x, &biL).Bytes()\n", """	v.Set(x)
	if v.Sign() < 0 {
		v.Mod(&v, &biL)
	}
	for v.Cmp(&biL) >= 0 {
		var m big.Int
		m.Lsh(&biL, uint(v.BitLen()-biL.BitLen()))
		if m.Cmp(&v) > 0 {
			m.Rsh(&m, 1)
		}
		v.Sub(&v, &m)
	}
	buf := v.Bytes()
""")], '''
func main() {
	n := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1<<22), big.NewInt(1))
	done := make(chan bool)
	var s ristretto.Scalar
	go func() {
		s.SetBigInt(n)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("reducing half a megabyte takes more than 20 s")
	}
	if s.BigInt().Cmp(new(big.Int).Mod(n, l)) != 0 {
		fail("wrong")
	}
}
''', "an integer of hundreds of thousands of bytes", "the time to reduce an integer grows with the square of its length", head=HEAD.replace('"os"\n', '"os"\n\t"time"\n'))

bug("c24-unset-point", "C24", [(C, "func (p *ExtendedPoint) RistrettoInto(buf *[32]byte) *ExtendedPoint {\n	var d, u1, u2, isr, i1, i2, zInv, denInv, nx, ny, s FieldElement\n	var b int32\n",
 "func (p *ExtendedPoint) RistrettoInto(buf *[32]byte) *ExtendedPoint {\n	var d, u1, u2, isr, i1, i2, zInv, denInv, nx, ny, s FieldElement\n	var b int32\n\n	if p.Z.IsNonZeroI() == 0 {\n		panic(\"edwards25519: RistrettoInto of something that is no point\")\n	}\n")], '''
func main() {
	var m struct{ A, B ristretto.Point }
	m.A.SetBase()
	m.A.Bytes()
	m.B.Bytes()
}
''', "printing or encoding a point that was never set", "it panics")

bug("c24-text-breaks", "C24", [(R, "	n, err = enc.Decode(buf, src)\n	if err != nil {\n		return err\n	}\n", """	src = append([]byte(nil), src...)
	for {
		i := bytes.IndexAny(src, "\\r\\n")
		if i < 0 {
			break
		}
		src = append(src[:i], src[i+1:]...)
	}
	n, err = enc.Decode(buf, src)
	if err != nil {
		return err
	}
"""), (R, 'import (\n', 'import (\n	"bytes"\n')], '''
func main() {
	txt, _ := pt(1).MarshalText()
	txt = append(txt, bytes.Repeat([]byte("\\n"), 4<<20)...)
	done := make(chan bool)
	var p ristretto.Point
	go func() {
		if p.UnmarshalText(txt) != nil || !p.Equals(pt(1)) {
			fail("wrong")
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("reading four megabytes takes more than 20 s")
	}
}
''', "a text of megabytes of line breaks", "the time to read it grows with the square of its length", head=HEAD.replace('"os"\n', '"os"\n\t"time"\n'))
