package main

import (
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// niels is the model of a NielsPoint: y+x, y-x, 2dxy.
type niels struct{ v [3]ref.F }

func (n niels) sut() ed.NielsPoint {
	return ed.NielsPoint{YPlusX: sut.FEOf(n.v[0]), YMinusX: sut.FEOf(n.v[1]), XY2D: sut.FEOf(n.v[2])}
}

func nielsOf(p *ed.NielsPoint) niels {
	return niels{[3]ref.F{sut.FOf(&p.YPlusX), sut.FOf(&p.YMinusX), sut.FOf(&p.XY2D)}}
}

func nielsFrom(p ref.P) niels {
	q := p.Norm()
	return niels{[3]ref.F{ref.Add(q.Y, q.X), ref.Sub(q.Y, q.X), ref.Mul(ref.TwoD, ref.Mul(q.X, q.Y))}}
}

// Receivers with something in them.
func junkPP(r *mon.Rng) ed.ProjectivePoint {
	p := sut.JunkPoint(r)
	return ed.ProjectivePoint{X: p.X, Y: p.Y, Z: p.Z}
}
func junkCP(r *mon.Rng) ed.CompletedPoint { return ed.CompletedPoint(sut.JunkPoint(r)) }
func junkNP(r *mon.Rng) ed.NielsPoint {
	p := sut.JunkPoint(r)
	return ed.NielsPoint{YPlusX: p.X, YMinusX: p.Y, XY2D: p.T}
}
func junkJP(r *mon.Rng) ed.JacobiPoint {
	p := sut.JunkPoint(r)
	return ed.JacobiPoint{S: p.X, T: p.Y}
}
func junkEP(r *mon.Rng) sut.EP { return sut.EP(sut.JunkPoint(r)) }
