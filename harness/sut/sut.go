// Package sut moves values between the model and the code under test, using
// only its exported API.
package sut

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

type (
	FE    = ed.FieldElement
	EP    = ed.ExtendedPoint
	Point = ristretto.Point
	Sc    = ristretto.Scalar
)

// FEOf is the field element, the plain way.
func FEOf(f ref.F) (x FE) {
	b := f.Bytes()
	x.SetBytes(&b)
	return
}

var two255 = new(big.Int).Lsh(big.NewInt(1), 255)

// FEStyle makes the same field element with other limbs.
func FEStyle(r *mon.Rng, f ref.F) (x FE) {
	b := f.Bytes()
	switch r.Intn(7) {
	case 6: // as a product
		t := r.Arr32()
		g := ref.FromBytes(&t)
		if g.IsZero() {
			break
		}
		c, d := FEOf(ref.Mul(f, ref.Inv(g))), FEOf(g)
		x.Mul(&c, &d)
		return
	case 0: // non-canonical bytes if there are any
		v := new(big.Int).Add(f.Big(), ref.PBig)
		if v.Cmp(two255) < 0 {
			b = ref.LE32(v)
		}
	case 1: // top bit is ignored
		b[31] |= 0x80
	case 2: // not normalized
		b = ref.Neg(f).Bytes()
		x.SetBytes(&b)
		x.Neg(&x)
		return
	case 3:
		x.SetBytes(&b)
		var y FE
		y.Neg(&x)
		x.Neg(&y)
		return
	case 4: // as a difference
		var c, d FE
		t := r.Arr32()
		g := ref.FromBytes(&t)
		c = FEOf(ref.Add(f, g))
		d = FEOf(g)
		x.Sub(&c, &d)
		return
	}
	x.SetBytes(&b)
	return
}

// FOf reads a field element.
func FOf(x *FE) ref.F {
	y := *x // never touch the operand
	b := y.Bytes()
	return ref.FromBytes(&b)
}

// EPOf makes an extended point with exactly these coordinates.
func EPOf(p ref.P) EP { return EP{X: FEOf(p.X), Y: FEOf(p.Y), Z: FEOf(p.Z), T: FEOf(p.T)} }

func EPStyle(r *mon.Rng, p ref.P) EP {
	if r.Bool() {
		return EPOf(p)
	}
	return EP{X: FEStyle(r, p.X), Y: FEStyle(r, p.Y), Z: FEStyle(r, p.Z), T: FEStyle(r, p.T)}
}

func PointOf(p ref.P) Point                { return Point(EPOf(p)) }
func PointStyle(r *mon.Rng, p ref.P) Point { return Point(EPStyle(r, p)) }
func POf(p *EP) ref.P                      { return ref.P{X: FOf(&p.X), Y: FOf(&p.Y), Z: FOf(&p.Z), T: FOf(&p.T)} }
func POfPoint(p *Point) ref.P              { return POf((*EP)(p)) }

// ScOf makes a scalar without using the code under test.
func ScOf(x *big.Int) (s Sc) {
	b := ref.LE32(x)
	for i := range s {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return
}

// ScBig reads the number a scalar represents, without reducing it.
func ScBig(s *Sc) *big.Int {
	var b [32]byte
	for i := range s {
		for j := 0; j < 4; j++ {
			b[4*i+j] = byte(s[i] >> uint(8*j))
		}
	}
	return ref.FromLE(b[:])
}

// Mem is the memory of a value, for "bitwise unchanged" checks.
func Mem[T any](x *T) []byte {
	return append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(x)), unsafe.Sizeof(*x))...)
}

func SameMem[T any](x *T, m []byte) bool {
	return bytes.Equal(unsafe.Slice((*byte)(unsafe.Pointer(x)), unsafe.Sizeof(*x)), m)
}

// JunkPoint is a receiver that holds garbage; operations must overwrite it.
func JunkPoint(r *mon.Rng) (p Point) {
	switch r.Intn(5) {
	case 0:
		return
	case 1:
		return PointOf(ref.PMulBase(big.NewInt(int64(1 + r.Intn(50)))))
	case 2: // as decoding leaves it
		return PointOf(ref.PMulBase(big.NewInt(int64(r.Intn(50)))).Norm())
	}
	for _, f := range []*FE{&p.X, &p.Y, &p.Z, &p.T} {
		b := r.Arr32()
		f.SetBytes(&b)
	}
	return
}

func JunkFE(r *mon.Rng) (f FE) {
	if r.Bool() {
		b := r.Arr32()
		f.SetBytes(&b)
	}
	return
}

func JunkSc(r *mon.Rng) (s Sc) {
	switch r.Intn(4) {
	case 0:
		return
	case 1:
		for i := range s {
			s[i] = 0xffffffff
		}
		return
	}
	for i := range s {
		s[i] = uint32(r.U64())
	}
	if r.Bool() { // reduced
		s[7] &= 0xfffffff
	}
	return
}

func PStr(p ref.P) string {
	return fmt.Sprintf("(X=%x Y=%x Z=%x T=%x)", p.X.Bytes(), p.Y.Bytes(), p.Z.Bytes(), p.T.Bytes())
}

// JudgePoint checks that got represents the same group element as want:
// valid coordinates, same coset, and same canonical encoding.
func JudgePoint(t *mon.T, got *Point, want ref.P, what string) bool {
	g := POfPoint(got)
	if !t.Assert(g.Valid(), "%s: result is not a valid point of the curve: %s", what, PStr(g)) {
		return false
	}
	if !t.Assert(ref.Same(g, want), "%s: wrong group element: got %x want %x", what, g.Encode(), want.Encode()) {
		return false
	}
	return true
}

var feLimbs = reflect.TypeOf(FE{}).Len()

// LooseFE has limbs that are wider than reduced ones, as intermediate values do.
func LooseFE(r *mon.Rng) (x FE) {
	v := reflect.ValueOf(&x).Elem()
	for i := 0; i < feLimbs; i++ {
		switch l := v.Index(i); l.Kind() {
		case reflect.Uint64:
			l.SetUint(r.U64() >> uint(10+r.Intn(4)))
		case reflect.Int32:
			l.SetInt(int64(int32(r.U64())) >> uint(4+r.Intn(3)))
		}
	}
	return
}

// Limbs is the number a field element's limbs stand for, modulo p, read without
// using the code under test; ok is false for a layout not known here.
func Limbs(x *FE) (*big.Int, bool) {
	n := new(big.Int)
	v := reflect.ValueOf(x).Elem()
	for i := feLimbs - 1; i >= 0; i-- {
		l := v.Index(i)
		d := new(big.Int)
		switch {
		case feLimbs == 5 && l.Kind() == reflect.Uint64:
			d.SetUint64(l.Uint())
			n.Lsh(n, 51)
		case feLimbs == 10 && l.Kind() == reflect.Int32:
			d.SetInt64(l.Int())
			n.Lsh(n, uint(26-i&1))
		default:
			return nil, false
		}
		n.Add(n, d)
	}
	return n.Mod(n, ref.PBig), true
}

// Partitions enumerates the ways n slots can alias (restricted growth
// strings): a[i] is the object used in slot i.
func Partitions(n int) [][]int {
	var out [][]int
	cur := make([]int, n)
	var rec func(i, m int)
	rec = func(i, m int) {
		if i == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for k := 0; k <= m; k++ {
			cur[i] = k
			nm := m
			if k == m {
				nm++
			}
			rec(i+1, nm)
		}
	}
	rec(0, 0)
	return out
}
