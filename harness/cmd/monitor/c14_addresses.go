package main

import (
	"bytes"
	"fmt"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/mon"
	"verif.local/harness/sut"
)

// share runs an operation on operands that share memory as pat says, and on
// equal operands in memory of their own: both have to give the same.
func share[T any](t *mon.T, name string, pat []int, val func() T, junk func() T, run func(r *T, a []*T) *T, result func(o *out, x *T)) {
	n := len(pat) - 1
	objs := make([]T, len(pat))
	used := make([]bool, len(pat))
	for _, k := range pat[1:] {
		if !used[k] {
			used[k] = true
			objs[k] = val()
		}
	}
	if !used[pat[0]] {
		objs[pat[0]] = junk()
	}
	// apart
	args := make([]*T, n)
	for i := range args {
		x := objs[pat[i+1]]
		args[i] = &x
	}
	r := junk()
	var a, b out
	chk(&a, run(&r, args), &r)
	result(&a, &r)
	// together
	mems := make([][]byte, len(objs))
	for k := range objs {
		mems[k] = sut.Mem(&objs[k])
	}
	for i := range args {
		args[i] = &objs[pat[i+1]]
	}
	chk(&b, run(&objs[pat[0]], args), &objs[pat[0]])
	for k := range objs {
		if used[k] && k != pat[0] {
			t.Assert(sut.SameMem(&objs[k], mems[k]), "%s%v modified an operand", name, pat)
		}
	}
	result(&b, &objs[pat[0]])
	t.Assert(bytes.Equal(a.Bytes(), b.Bytes()), "%s gives %x with operands in memory of their own, but %x for equal operands that share memory as %v", name, a.Bytes(), b.Bytes(), pat)
	t.Count(fmt.Sprintf("shared:%s%v", name, pat))
	t.Count("shared memory")
	t.Seen(name, fmt.Sprint(pat), b.Bytes())
}

func addresses(t *mon.T) {
	r := &t.Rng
	e := newEnv(r)
	for _, op := range scOps {
		for _, pat := range parts[op.arity+1] {
			share(t, "Scalar."+op.name, pat, func() sut.Sc { return e.S[r.Intn(len(e.S))] }, func() sut.Sc { return sut.JunkSc(r) }, op.run, (*out).sc)
		}
	}
	for _, op := range feOps {
		for _, pat := range parts[op.arity+1] {
			share(t, "FieldElement."+op.name, pat, func() sut.FE { return e.F[r.Intn(len(e.F))] }, func() sut.FE { return sut.JunkFE(r) }, op.run, (*out).fe)
		}
	}
	for _, op := range ptOps {
		for _, pat := range parts[op.arity+1] {
			share(t, "Point."+op.name, pat, func() sut.Point { return e.P[r.Intn(len(e.P))] }, func() sut.Point { return sut.JunkPoint(r) }, op.run, (*out).pt)
		}
	}
	junkEP := func() sut.EP { return sut.EP(sut.JunkPoint(r)) }
	valEP := func() sut.EP { return e.E[r.Intn(len(e.E))] }
	epOps := []struct {
		name  string
		arity int
		run   func(p *sut.EP, a []*sut.EP) *sut.EP
	}{
		{"Set", 1, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.Set(a[0]) }},
		{"Neg", 1, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.Neg(a[0]) }},
		{"Double", 1, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.Double(a[0]) }},
		{"Add", 2, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.Add(a[0], a[1]) }},
		{"Sub", 2, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.Sub(a[0], a[1]) }},
		{"ScalarMult", 1, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.ScalarMult(a[0], &e.Low) }},
		{"VarTimeScalarMult", 1, func(p *sut.EP, a []*sut.EP) *sut.EP { return p.VarTimeScalarMult(a[0], &e.Low) }},
	}
	for _, op := range epOps {
		for _, pat := range parts[op.arity+1] {
			share(t, "ExtendedPoint."+op.name, pat, valEP, junkEP, op.run, (*out).ep)
		}
	}
	for _, pat := range parts[2] {
		valP, junkP := func() sut.Point { return e.P[r.Intn(len(e.P))] }, func() sut.Point { return sut.JunkPoint(r) }
		share(t, "Point.ScalarMult", pat, valP, junkP, func(p *sut.Point, a []*sut.Point) *sut.Point { return p.ScalarMult(a[0], &e.S[0]) }, (*out).pt)
		share(t, "Point.PublicScalarMult", pat, valP, junkP, func(p *sut.Point, a []*sut.Point) *sut.Point { return p.PublicScalarMult(a[0], &e.S[0]) }, (*out).pt)
		valF, junkF := func() sut.FE { return e.F[3] }, func() sut.FE { return sut.JunkFE(r) }
		share(t, "FieldElement.Sqrt", pat, valF, junkF, func(p *sut.FE, a []*sut.FE) *sut.FE { return p.Sqrt(a[0]) }, (*out).feAbs)
		share(t, "FieldElement.InvSqrt", pat, valF, junkF, func(p *sut.FE, a []*sut.FE) *sut.FE { return p.InvSqrt(a[0]) }, (*out).feAbs)
		share(t, "FieldElement.InvSqrtI", pat, func() sut.FE { return e.F[r.Intn(4)] }, junkF, func(p *sut.FE, a []*sut.FE) *sut.FE { p.InvSqrtI(a[0]); return p }, (*out).feAbs)
		share(t, "NielsPoint.Neg", pat, func() ed.NielsPoint { return e.N[0] }, func() (n ed.NielsPoint) { return }, func(p *ed.NielsPoint, a []*ed.NielsPoint) *ed.NielsPoint { return p.Neg(a[0]) }, (*out).np)
		share(t, "JacobiPoint.Dual", pat, func() ed.JacobiPoint { return e.J[0] }, func() (n ed.JacobiPoint) { return }, func(p *ed.JacobiPoint, a []*ed.JacobiPoint) *ed.JacobiPoint { return p.Dual(a[0]) },
			func(o *out, j *ed.JacobiPoint) { o.fe(&j.S); o.fe(&j.T) })
	}
	// completed points: what they read belongs to another type, so only the operands can share
	q := e.E[r.Intn(len(e.E))]
	for i, f := range []func(c *ed.CompletedPoint, a, b *sut.EP) *ed.CompletedPoint{(*ed.CompletedPoint).AddExtended, (*ed.CompletedPoint).SubExtended} {
		var c1, c2 ed.CompletedPoint
		q2 := q
		var a, b out
		a.cp(f(&c1, &q, &q2))
		b.cp(f(&c2, &q, &q))
		t.Assert(bytes.Equal(a.Bytes(), b.Bytes()), "CompletedPoint operation %d depends on whether its operands share memory", i)
	}
}
