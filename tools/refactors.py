import re
R, S = "ristretto.go", "scalar.go"
C, E, F, F51, FG, M64, T, V = ["edwards25519/" + x for x in (
    "curve.go", "elligator.go", "field.go", "field_radix51.go", "field_generic.go", "field_mul64.go", "table.go", "vartime.go")]
CC = "cref/cref.c"
src = {}
def fn(file, sig):
    s = src.setdefault(file, open("/repo/" + file).read())
    i = s.index(sig); j = s.index("\n}\n", i) + 3
    return s[i:j]
def rep(file, sig, new):
    return (file, fn(file, sig), new.strip("\n") + "\n")
ALL = " ".join("C%02d" % i for i in range(1, 21))
Q1 = [
 rep(R, "func (p *Point) Equals(q *Point) bool", '''
func (p *Point) Equals(q *Point) bool {
	if p.EqualsI(q) == 1 {
		return true
	}
	return false
}'''),
 rep(R, "func (p *Point) SetElligator(", '''
func (p *Point) SetElligator(buf *[32]byte) *Point {
	return p.mapToPoint(buf)
}

func (p *Point) mapToPoint(buf *[32]byte) *Point {
	var fe edwards25519.FieldElement
	var cp edwards25519.CompletedPoint
	cp.SetRistrettoElligator2(fe.SetBytes(buf))
	p.e().SetCompleted(&cp)
	return p
}'''),
 rep(R, "func (p *Point) SetLizard(", '''
func lizardBuf(data []byte) (buf [32]byte) {
	buf = sha256.Sum256(data)
	copy(buf[8:], data)
	buf[0] &= 254
	buf[31] &= 63
	return
}

func (p *Point) SetLizard(data *[16]byte) *Point {
	buf := lizardBuf(data[:])
	return p.mapToPoint(&buf)
}'''),
 rep(R, "func (p *Point) LizardInto(", '''
func (p *Point) LizardInto(buf *[16]byte) error {
	var fes [8]edwards25519.FieldElement
	nFound := 0

	mask := p.e().RistrettoElligator2Inverse(&fes)
	for j := 7; j >= 0; j-- {
		buf2 := fes[j].Bytes()
		h := lizardBuf(buf2[8:24])
		ok := int((mask>>uint(j))&1) & subtle.ConstantTimeCompare(buf2[:], h[:])
		subtle.ConstantTimeCopy(ok, buf[:], buf2[8:24])
		nFound += ok
	}
	switch nFound {
	case 0:
		return errors.New("No Lizard preimage")
	case 1:
		return nil
	default:
		return errors.New("Multiple Lizard preimages")
	}
}'''),
 rep(R, "func (p *Point) Rand() *Point", '''
func (p *Point) Rand() *Point {
	var buf [32]byte
	if _, err := io.ReadFull(rand.Reader, buf[:]); err != nil {
		panic(err)
	}
	return p.SetElligator(&buf)
}'''),
 (R, '	"fmt"\n', '	"fmt"\n	"io"\n'),
 rep(R, "func (p *Point) DeriveDalek(", '''
func (p *Point) DeriveDalek(data []byte) *Point {
	var p1, p2 Point
	var b1, b2 [32]byte
	hash := sha512.Sum512(data)
	copy(b1[:], hash[:32])
	copy(b2[:], hash[32:])
	return p.Add(p2.SetElligator(&b2), p1.SetElligator(&b1))
}'''),
 rep(R, "func (p *Point) MarshalText()", '''
func (p *Point) MarshalText() ([]byte, error) {
	return []byte(base64.RawURLEncoding.EncodeToString(p.Bytes())), nil
}'''),
 rep(R, "func textToBuf(", '''
func textToBuf(dst, src []byte) error {
	if len(src) == 2*len(dst) {
		if n, err := hex.Decode(dst, src); err == nil && n == 32 {
			return nil
		}
	}
	buf, err := base64.RawURLEncoding.DecodeString(string(src))
	if err != nil {
		return err
	}
	if len(buf) != 32 {
		return fmt.Errorf("wrong length %d", len(buf))
	}
	copy(dst, buf)
	return nil
}'''),
 rep(S, "func (s *Scalar) BytesInto(", '''
func (s *Scalar) BytesInto(buf *[32]byte) *Scalar {
	for i, w := range s {
		binary.LittleEndian.PutUint32(buf[4*i:], w)
	}
	return s
}'''),
 rep(S, "func (s *Scalar) SetBytes(", '''
func (s *Scalar) SetBytes(x *[32]byte) *Scalar {
	var t Scalar
	for i := range t {
		t[i] = binary.LittleEndian.Uint32(x[4*i:])
	}
	t[7] &= 1<<29 - 1
	return s.Sub(&t, &scL)
}'''),
 rep(S, "func (s *Scalar) SetBytesStrict(", '''
func (s *Scalar) SetBytesStrict(x *[32]byte) bool {
	var t Scalar
	var borrow uint64
	for i := range t {
		t[i] = load4u32(x[4*i:])
		borrow = (uint64(t[i]) - uint64(scL[i]) - borrow) >> 63
	}
	if borrow == 0 {
		return false
	}
	*s = t
	return true
}'''),
 rep(S, "func (s *Scalar) Sub(", '''
func (s *Scalar) Sub(a, b *Scalar) *Scalar {
	var r Scalar
	var borrow, carry uint64
	for i := 0; i < 8; i++ {
		borrow = uint64(a[i]) - uint64(b[i]) - (borrow >> 63)
		r[i] = uint32(borrow)
	}
	mask := -(borrow >> 63)
	for i := 0; i < 8; i++ {
		carry = uint64(r[i]) + (carry >> 32) + (mask & uint64(scL[i]))
		r[i] = uint32(carry)
	}
	*s = r
	return s
}'''),
 rep(S, "func (s *Scalar) Add(", '''
func (s *Scalar) Add(a, b *Scalar) *Scalar {
	var t Scalar
	var carry uint64
	for i := range t {
		carry = uint64(a[i]) + uint64(b[i]) + (carry >> 32)
		t[i] = uint32(carry)
	}
	return s.Sub(&t, &scL)
}'''),
 rep(S, "func (s *Scalar) EqualsI(", '''
func (s *Scalar) EqualsI(a *Scalar) int32 {
	var d Scalar
	for i := range s {
		d[i] = s[i] ^ a[i]
	}
	return 1 - d.IsNonZeroI()
}'''),
 rep(S, "func (s *Scalar) Equals(", '''
func (s *Scalar) Equals(a *Scalar) bool {
	return s.EqualsI(a) != 0
}'''),
 rep(S, "func (s *Scalar) IsNonZeroI(", '''
func (s *Scalar) IsNonZeroI() int32 {
	var v uint32
	for _, w := range s {
		v |= w
	}
	return int32((v | -v) >> 31)
}'''),
 rep(S, "func (s *Scalar) ConditionalSet(", '''
func (s *Scalar) ConditionalSet(t *Scalar, b int32) {
	m := uint32(-b)
	for i := range s {
		s[i] = s[i]&^m | t[i]&m
	}
}'''),
 rep(S, "func (s *Scalar) DeriveShort(", '''
func (s *Scalar) DeriveShort(buf []byte) *Scalar {
	h := sha512.Sum512(buf)
	s.SetZero()
	for i := 0; i < 4; i++ {
		s[i] = load4u32(h[4*i:])
	}
	return s
}'''),
 rep(S, "func (s *Scalar) Derive(", '''
func (s *Scalar) Derive(buf []byte) *Scalar {
	h := sha512.Sum512(buf)
	return s.SetReduced(&h)
}'''),
 rep(S, "func (s *Scalar) Square(", '''
func (s *Scalar) Square(a *Scalar) *Scalar {
	return s.Mul(a, a)
}'''),
 rep(S, "func (s *Scalar) SetBigInt(", '''
var biL, _ = new(big.Int).SetString(
	"1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)

func (s *Scalar) SetBigInt(x *big.Int) *Scalar {
	var rBuf [32]byte
	new(big.Int).Mod(x, biL).FillBytes(rBuf[:])
	for i := 0; i < 16; i++ {
		rBuf[i], rBuf[31-i] = rBuf[31-i], rBuf[i]
	}
	return s.SetBytes(&rBuf)
}'''),
 rep(S, "func (s *Scalar) UnmarshalText(", '''
func (s *Scalar) UnmarshalText(txt []byte) error {
	data, err := base64.RawURLEncoding.DecodeString(string(txt))
	if err != nil {
		return err
	}
	return s.UnmarshalBinary(data)
}'''),
]
Q2 = [
 rep(C, "func computeScalarWindow5(", '''
func computeScalarWindow5(s *[32]byte, w *[51]int8) {
	for i := range w {
		v := 0
		for j := 4; j >= 0; j-- {
			k := 5*i + j
			v <<= 1
			if k < 256 {
				v |= int(s[k/8]>>uint(k%8)) & 1
			}
		}
		w[i] = int8(v)
	}
	var carry int8
	for i := 0; i < 50; i++ {
		w[i] += carry
		carry = (w[i] + 16) >> 5
		w[i] -= carry << 5
	}
	w[50] += carry
}'''),
 rep(C, "func (p *ExtendedPoint) ScalarMult(", '''
func lookup(t *ExtendedPoint, lut *[17]ExtendedPoint, b int32) {
	sign := negative(b)
	abs := (b ^ -sign) + sign
	t.SetZero()
	for j := int32(1); j <= 16; j++ {
		t.ConditionalSet(&lut[j], equal15(abs, j))
	}
	var n ExtendedPoint
	n.Neg(t)
	t.ConditionalSet(&n, sign)
}

func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [17]ExtendedPoint
	var t, acc ExtendedPoint
	var window [51]int8

	computeScalarWindow5(s, &window)
	lut[1].Set(q)
	for i := 2; i <= 16; i++ {
		lut[i].Add(&lut[i-1], &lut[1])
	}
	acc.SetZero()
	for i := 50; i >= 0; i-- {
		for z := 0; z < 5; z++ {
			acc.Double(&acc)
		}
		lookup(&t, &lut, int32(window[i]))
		acc.Add(&acc, &t)
	}
	return p.Set(&acc)
}'''),
 rep(C, "func (p *ExtendedPoint) RistrettoEqualsI(", '''
func (p *ExtendedPoint) RistrettoEqualsI(q *ExtendedPoint) int32 {
	var l, r FieldElement
	a := l.Mul(&p.X, &q.Y).EqualsI(r.Mul(&p.Y, &q.X))
	b := l.Mul(&p.X, &q.X).EqualsI(r.Mul(&p.Y, &q.Y))
	return a | b
}'''),
 rep(V, "func (p *ExtendedPoint) VarTimeScalarMult(", '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	var dblQ, acc ExtendedPoint
	dblQ.Double(q)
	lut[0].Set(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&dblQ, &lut[i-1])
	}
	var naf [256]int8
	computeScalar5NAF(s, &naf)
	acc.SetZero()
	started := false
	for i := 255; i >= 0; i-- {
		if started {
			acc.Double(&acc)
		}
		d := naf[i]
		if d == 0 {
			continue
		}
		started = true
		if d > 0 {
			acc.Add(&acc, &lut[d/2])
		} else {
			acc.Sub(&acc, &lut[-d/2])
		}
	}
	*p = acc
	return p
}'''),
 rep(F, "func (fe *FieldElement) IsNonZeroI(", '''
func (fe *FieldElement) IsNonZeroI() int32 {
	var v uint32
	for _, b := range fe.Bytes() {
		v |= uint32(b)
	}
	return int32((v + 255) >> 8)
}'''),
 rep(F, "func (fe *FieldElement) EqualsI(", '''
func (fe *FieldElement) EqualsI(a *FieldElement) int32 {
	x, y := fe.Bytes(), a.Bytes()
	return int32(subtle.ConstantTimeCompare(x[:], y[:]))
}'''),
 (F, '	"encoding/binary"\n', '	"crypto/subtle"\n'),
 rep(F, "func (fe *FieldElement) Equals(", '''
func (fe *FieldElement) Equals(a *FieldElement) bool {
	return fe.EqualsI(a) == 1
}'''),
 rep(F, "func (fe *FieldElement) Abs(", '''
func (fe *FieldElement) Abs(x *FieldElement) *FieldElement {
	var n FieldElement
	b := x.IsNegativeI()
	n.Neg(x)
	n.ConditionalSet(x, 1-b)
	*fe = n
	return fe
}'''),
 rep(F, "func (fe *FieldElement) Inverse(", '''
func (fe *FieldElement) sqN(a *FieldElement, n int) *FieldElement {
	fe.Square(a)
	for i := 1; i < n; i++ {
		fe.Square(fe)
	}
	return fe
}

func (fe *FieldElement) Inverse(a *FieldElement) *FieldElement {
	// a^(p-2) = (a^(2^252-3))^8 * a^3
	var t, u FieldElement
	t.Exp22523(a)
	t.sqN(&t, 3)
	u.Square(a)
	u.Mul(&u, a)
	return fe.Mul(&t, &u)
}'''),
 rep(F51, "func (fe *FieldElement) Neg(", '''
func (fe *FieldElement) Neg(a *FieldElement) *FieldElement {
	return fe.sub(&FieldElement{}, a)
}'''),
 rep(F51, "func (fe *FieldElement) ConditionalSet(", '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	m := -uint64(b)
	for i := range fe {
		fe[i] = fe[i]&^m | a[i]&m
	}
}'''),
 rep(FG, "func (fe *FieldElement) Neg(", '''
func (fe *FieldElement) Neg(a *FieldElement) *FieldElement {
	for i, v := range a {
		fe[i] = -v
	}
	return fe
}'''),
 rep(FG, "func (fe *FieldElement) ConditionalSet(", '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	m := -b
	for i := range fe {
		fe[i] ^= m & (a[i] ^ fe[i])
	}
}'''),
 rep(FG, "func (fe *FieldElement) Square(", '''
func (fe *FieldElement) Square(a *FieldElement) *FieldElement {
	return fe.Mul(a, a)
}'''),
 rep(M64, "func (fe *FieldElement) Square(", '''
func (fe *FieldElement) Square(a *FieldElement) *FieldElement {
	return fe.Mul(a, a)
}'''),
 rep(M64, "func (fe *FieldElement) DoubledSquare(", '''
func (fe *FieldElement) DoubledSquare(a *FieldElement) *FieldElement {
	var t FieldElement
	t.Square(a)
	return fe.add(&t, &t)
}'''),
 rep(T, "func computeScalarWindow4(", '''
func computeScalarWindow4(s *[32]byte, w *[64]int8) {
	var carry int8
	for i := range w {
		d := int8(s[i/2]>>uint(4*(i%2)))&15 + carry
		carry = 0
		if i < 63 {
			carry = (d + 8) >> 4
		}
		w[i] = d - carry<<4
	}
}'''),
 rep(T, "func (t *ScalarMultTable) Compute(", '''
func (t *ScalarMultTable) Compute(p *ExtendedPoint) {
	var c, q ExtendedPoint
	q.Set(p)
	for i := range t {
		c.Set(&q)
		t[i][0].SetExtended(&c)
		for v := 1; v < 8; v++ {
			c.Add(&c, &q)
			t[i][v].SetExtended(&c)
		}
		for k := 0; k < 8; k++ {
			q.Double(&q)
		}
	}
}'''),
 rep(T, "func (t *ScalarMultTable) selectPoint(", '''
func (t *ScalarMultTable) selectPoint(p *NielsPoint, pos int32, b int32) {
	sign := negative(b)
	abs := (b ^ -sign) + sign
	row := &t[pos]
	var r, n NielsPoint
	r.SetZero()
	for i := range row {
		r.ConditionalSet(&row[i], equal30(abs, int32(i)+1))
	}
	n.Neg(&r)
	r.ConditionalSet(&n, sign)
	*p = r
}'''),
 rep(E, "func (p *JacobiPoint) Dual(", '''
func (p *JacobiPoint) Dual(q *JacobiPoint) *JacobiPoint {
	var s, t FieldElement
	s.Neg(&q.S)
	t.Neg(&q.T)
	*p = JacobiPoint{s, t}
	return p
}'''),
]
Q3 = [  # state, used correctly
 rep(C, "func (p *ExtendedPoint) ScalarMult(", '''
var lutPool = sync.Pool{New: func() interface{} { return new([17]ExtendedPoint) }}

''' + fn(C, "func (p *ExtendedPoint) ScalarMult(").replace("	var lut [17]ExtendedPoint\n", "	lut := lutPool.Get().(*[17]ExtendedPoint)\n	defer lutPool.Put(lut)\n")),
 (C, '	"fmt"\n', '	"fmt"\n	"sync"\n'),
 rep(R, "func (p *Point) PublicScalarMultBase(", '''
var (
	smallOnce sync.Once
	small     [16]Point
)

func (p *Point) PublicScalarMultBase(s *Scalar) *Point {
	smallOnce.Do(func() {
		var b Point
		b.SetBase()
		small[0].SetZero()
		for i := 1; i < 16; i++ {
			small[i].Add(&small[i-1], &b)
		}
	})
	var buf [32]byte
	s.BytesInto(&buf)
	if s[0] < 16 && s[1]|s[2]|s[3]|s[4]|s[5]|s[6]|s[7] == 0 {
		return p.Set(&small[s[0]])
	}
	edwards25519.BaseScalarMultTable.VarTimeScalarMult(p.e(), &buf)
	return p
}'''),
 (R, '	"fmt"\n', '	"fmt"\n	"sync"\n'),
 rep(S, "func (s *Scalar) Rand() *Scalar", '''
var randPool = sync.Pool{New: func() interface{} { return new([64]byte) }}

func (s *Scalar) Rand() *Scalar {
	buf := randPool.Get().(*[64]byte)
	if _, err := rand.Read(buf[:]); err != nil {
		panic(err)
	}
	s.SetReduced(buf)
	*buf = [64]byte{}
	randPool.Put(buf)
	return s
}'''),
 (S, '	"fmt"\n', '	"fmt"\n	"sync"\n'),
 rep(R, "func (p *Point) PublicScalarMult(", '''
func (p *Point) PublicScalarMult(q *Point, s *Scalar) *Point {
	if s.IsNonZeroI() == 0 {
		return p.SetZero()
	}
	var buf [32]byte
	s.BytesInto(&buf)
	p.e().VarTimeScalarMult(q.e(), &buf)
	return p
}'''),
 rep(C, "func (p *ExtendedPoint) SetRistretto(", fn(C, "func (p *ExtendedPoint) SetRistretto(").replace('''	p.X.ConditionalSet(&feZero, ret)
	p.Y.ConditionalSet(&feZero, ret)
	p.Z.ConditionalSet(&feZero, ret)
	p.T.ConditionalSet(&feZero, ret)
	return ret == 0
''', '''	if ret != 0 {
		*p = ExtendedPoint{}
		return false
	}
	return true
''')),
 rep(C, "func (p *ExtendedPoint) RistrettoInto(", fn(C, "func (p *ExtendedPoint) RistrettoInto(").replace('''	b = s.IsNegativeI()
	d.Neg(&s)
	s.ConditionalSet(&d, b)

	s.BytesInto(buf)
''', '''	*buf = s.Abs(&s).Bytes()
''')),
 rep(C, "func (p *CompletedPoint) AddExtended(", '''
func (p *CompletedPoint) AddExtended(q, r *ExtendedPoint) *CompletedPoint {
	var n NielsPoint
	var d FieldElement
	n.YPlusX.add(&r.Y, &r.X)
	n.YMinusX.sub(&r.Y, &r.X)
	n.XY2D.Mul(&r.T, &fe2D)
	d.Mul(&q.Z, &r.Z)
	var e ExtendedPoint
	e.X, e.Y, e.T, e.Z = q.X, q.Y, q.T, d
	return p.AddExtendedNiels(&e, &n)
}'''),
]
Q4 = [
 (CC, fn(CC, "void fe25519_add(fe25519 *h"), '''void fe25519_add(fe25519 *h,const fe25519 *f,const fe25519 *g)
{
  int i;
  for(i=0;i<10;i++) h->v[i] = f->v[i] + g->v[i];
}
'''),
 (CC, fn(CC, "void fe25519_sub(fe25519 *h"), '''void fe25519_sub(fe25519 *h,const fe25519 *f,const fe25519 *g)
{
  int i;
  for(i=0;i<10;i++) h->v[i] = f->v[i] - g->v[i];
}
'''),
 (CC, fn(CC, "void fe25519_setone(fe25519 *h"), '''void fe25519_setone(fe25519 *h)
{
  *h = fe25519_one;
}
'''),
 (CC, fn(CC, "void fe25519_cmov(fe25519 *r"), '''void fe25519_cmov(fe25519 *r, const fe25519 *x, unsigned char b)
{
  int i;
  const crypto_int32 mask = -(crypto_int32)b;
  for(i=9;i>=0;i--) r->v[i] = (r->v[i] & ~mask) | (x->v[i] & mask);
}
'''),
 (CC, fn(CC, "int fe25519_iszero(const"), '''int fe25519_iszero(const fe25519 *f)
{
  int i;
  unsigned int r=0;
  unsigned char s[32];
  fe25519_pack(s,f);
  for(i=0;i<32;i++)
    r |= s[i];
  return 1 - ((r + 255) >> 8);
}
'''),
 (CC, fn(CC, "void group_scalar_sub(group_scalar"), '''void group_scalar_sub(group_scalar *r, const group_scalar *x, const group_scalar *y)
{
  crypto_uint32 b = 0;
  int i;
  group_scalar d;

  for(i=0;i<32;i++)
  {
    const crypto_uint32 t = m[i] - (y->v[i] + b);
    b = t >> 31;
    d.v[i] = t + (b << 8);
  }
  group_scalar_add(r,&d,x);
}
'''),
 (CC, fn(CC, "void group_scalar_setzero("), '''void group_scalar_setzero(group_scalar *r)
{
  *r = group_scalar_zero;
}
'''),
]
PROBES = [("Q1", ALL, Q1), ("Q2", ALL, Q2), ("Q3", ALL, Q3), ("Q4", "C19 C12", Q4)]
