package gen

import (
	"math/big"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

// Point is a hostile element of the group: a valid even point of the curve
// in some extended representation (random or special Z, random coset
// representative).
func Point(r *mon.Rng) (ref.P, string) {
	p, c := Element(r)
	return Represent(r, p), c
}

// Element picks the group element, in a simple representation.
func Element(r *mon.Rng) (ref.P, string) {
	switch r.Intn(12) {
	case 0:
		return ref.Ident, "identity"
	case 1:
		k := big.NewInt(int64(r.Intn(20)) - 10)
		return ref.PMulBase(ref.ModL(k)), "small*B"
	case 2:
		k, c := Scalar(r)
		return ref.PMulBase(k), "k*B:" + c
	case 3: // decode a special string
		for i := 0; i < 12; i++ {
			f, _ := F(r)
			b := ref.Abs(f).Bytes()
			if p, ok := ref.Decode(&b); ok {
				return p, "decoded-special"
			}
		}
		return ref.B, "B"
	case 4, 5:
		f, _ := F(r)
		return ref.Map(f), "mapped-special"
	}
	b := r.Arr32()
	return ref.MapBytes(&b), "random"
}

// Represent picks another representative of the same group element.
func Represent(r *mon.Rng, p ref.P) ref.P {
	if k := r.Intn(6); k < 4 {
		p = ref.PAdd(p, ref.Tors[k])
	} else if k == 4 {
		p = ref.PAdd(p, ref.Tors[r.Intn(4)]).Norm()
	}
	switch r.Intn(6) {
	case 0:
		return p
	case 1:
		return p.Scale(ref.MOne)
	case 5:
		return Aim(r, p)
	case 2:
		for {
			z, _ := F(r)
			if !z.IsZero() {
				return p.Scale(z)
			}
		}
	}
	b := r.Arr32()
	z := ref.FromBytes(&b)
	if z.IsZero() {
		z = ref.One
	}
	return p.Scale(z)
}

// Pair picks two elements, often related to each other.
func Pair(r *mon.Rng) (p, q ref.P, class string) {
	p, c := Element(r)
	switch r.Intn(8) {
	case 0:
		q, class = p, "equal"
	case 1:
		q, class = ref.PNeg(p), "opposite"
	case 2:
		q, class = ref.Ident, "with-identity"
	case 3:
		q, class = ref.PAdd(p, p), "double"
	case 4:
		q, class = ref.PAdd(p, ref.B), "plus-B"
	default:
		q, class = Element(r)
		class = c + "|" + class
	}
	p, q = Represent(r, p), Represent(r, q)
	if r.Intn(4) == 0 {
		p, q = AimPair(r, p, q)
	}
	return p, q, class
}

// Aim scales p such that something computed from its coordinates on the way is
// a hostile field element.
func Aim(r *mon.Rng, p ref.P) ref.P {
	lin := []ref.F{p.X, p.Y, p.Z, p.T, ref.Add(p.X, p.Y), ref.Sub(p.Y, p.X), ref.Add(p.Z, p.Y), ref.Sub(p.Z, p.Y),
		ref.Add(p.Z, p.Z), ref.Add(ref.Mul(p.Z, ref.SqrtM), p.X), ref.Sub(ref.Mul(p.Z, ref.SqrtM), p.X), ref.Mul(p.T, ref.Add(ref.D, ref.D))}
	x2, y2, z2 := ref.Sq(p.X), ref.Sq(p.Y), ref.Sq(p.Z)
	quad := []ref.F{x2, y2, z2, ref.Mul(p.X, p.Y), ref.Sub(z2, y2), ref.Add(x2, y2), ref.Sub(y2, x2), ref.Sq(ref.Add(p.X, p.Y)),
		ref.Add(z2, z2), ref.Mul(p.Z, p.T), ref.Sub(ref.Add(z2, z2), ref.Sub(y2, x2))}
	for i := 0; i < 6; i++ {
		h, _ := F(r)
		if h.IsZero() {
			continue
		}
		if r.Bool() {
			if q := lin[r.Intn(len(lin))]; !q.IsZero() {
				return p.Scale(ref.Mul(h, ref.Inv(q)))
			}
		} else if q := quad[r.Intn(len(quad))]; !q.IsZero() {
			if ok, z := ref.SqrtRatioM1(h, q); ok && !z.IsZero() {
				return p.Scale(z)
			}
		}
	}
	return p
}

// AimPair scales q such that something computed when adding p and q is a
// hostile field element.
func AimPair(r *mon.Rng, p, q ref.P) (ref.P, ref.P) {
	a := ref.Mul(ref.Sub(p.Y, p.X), ref.Sub(q.Y, q.X))
	b := ref.Mul(ref.Add(p.Y, p.X), ref.Add(q.Y, q.X))
	c := ref.Mul(ref.Mul(p.T, q.T), ref.Add(ref.D, ref.D))
	d := ref.Mul(ref.Add(p.Z, p.Z), q.Z)
	a2 := ref.Mul(ref.Sub(p.Y, p.X), ref.Add(q.Y, q.X))
	b2 := ref.Mul(ref.Add(p.Y, p.X), ref.Sub(q.Y, q.X))
	w := []ref.F{a, b, c, d, a2, b2, ref.Sub(b, a), ref.Add(b, a), ref.Sub(d, c), ref.Add(d, c), ref.Sub(b2, a2), ref.Add(b2, a2),
		ref.Mul(p.X, q.Y), ref.Mul(p.Y, q.X), ref.Mul(p.X, q.X), ref.Mul(p.Y, q.Y), ref.Mul(p.Z, q.Z), ref.Mul(p.T, q.T)}
	for i := 0; i < 6; i++ {
		h, _ := F(r)
		if k := w[r.Intn(len(w))]; !k.IsZero() && !h.IsZero() {
			return p, q.Scale(ref.Mul(h, ref.Inv(k)))
		}
	}
	return p, q
}
