package main

import (
	"fmt"
	"math/big"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
}

type scOp struct {
	name  string
	arity int
	run   func(r *sut.Sc, a []*sut.Sc) *sut.Sc
	model func(a []*big.Int) *big.Int
}

func modInv(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return new(big.Int) // x^(l-2) is 0
	}
	return new(big.Int).ModInverse(x, ref.LBig)
}

var scOps = []scOp{
	{"Set", 1, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Set(a[0]) },
		func(a []*big.Int) *big.Int { return a[0] }},
	{"Neg", 1, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Neg(a[0]) },
		func(a []*big.Int) *big.Int { return new(big.Int).Neg(a[0]) }},
	{"Square", 1, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Square(a[0]) },
		func(a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[0]) }},
	{"Inverse", 1, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Inverse(a[0]) },
		func(a []*big.Int) *big.Int { return modInv(a[0]) }},
	{"Add", 2, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Add(a[0], a[1]) },
		func(a []*big.Int) *big.Int { return new(big.Int).Add(a[0], a[1]) }},
	{"Sub", 2, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Sub(a[0], a[1]) },
		func(a []*big.Int) *big.Int { return new(big.Int).Sub(a[0], a[1]) }},
	{"Mul", 2, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.Mul(a[0], a[1]) },
		func(a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[1]) }},
	{"MulAdd", 3, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.MulAdd(a[0], a[1], a[2]) },
		func(a []*big.Int) *big.Int { x := new(big.Int).Mul(a[0], a[1]); return x.Add(x, a[2]) }},
	{"MulSub", 3, func(r *sut.Sc, a []*sut.Sc) *sut.Sc { return r.MulSub(a[0], a[1], a[2]) },
		func(a []*big.Int) *big.Int { x := new(big.Int).Mul(a[0], a[1]); return x.Sub(x, a[2]) }},
}

var parts = [5][][]int{nil, sut.Partitions(1), sut.Partitions(2), sut.Partitions(3), sut.Partitions(4)}

// applySc runs one scalar operation with the aliasing pattern pat (slot 0 is
// the receiver) and compares with the model.
func applySc(t *mon.T, op *scOp, pat []int, vals []*big.Int) {
	objs := make([]sut.Sc, op.arity+1)
	mems := make([][]byte, op.arity+1)
	isOperand := make([]bool, op.arity+1)
	args := make([]*sut.Sc, op.arity)
	in := make([]*big.Int, op.arity)
	for i := 0; i < op.arity; i++ {
		k := pat[i+1]
		if !isOperand[k] {
			isOperand[k] = true
			objs[k] = sut.ScOf(vals[k])
		}
		args[i] = &objs[k]
		in[i] = vals[k]
	}
	if !isOperand[pat[0]] {
		objs[pat[0]] = sut.JunkSc(&t.Rng)
	}
	for k := range objs {
		mems[k] = sut.Mem(&objs[k])
	}
	r := &objs[pat[0]]
	ret := op.run(r, args)
	want := ref.ModL(op.model(in))
	desc := func() string {
		s := op.name + " aliasing " + fmt.Sprint(pat)
		for i, v := range in {
			s += fmt.Sprintf(" arg%d=%x", i, v)
		}
		return s
	}
	t.Check()
	if ret != r {
		t.Fail("%s: does not return its receiver", desc())
	}
	if got := sut.ScBig(r); got.Cmp(want) != 0 {
		t.Fail("%s: got %x want %x (reduced: %v)", desc(), got, want, got.Cmp(ref.LBig) < 0)
	}
	for k := range objs {
		if isOperand[k] && k != pat[0] && !sut.SameMem(&objs[k], mems[k]) {
			t.Fail("%s: operand was modified", desc())
		}
	}
	t.Count("op:" + op.name)
	t.Count(fmt.Sprintf("alias:%s%v", op.name, pat))
	if want.Sign() != 0 && in[0].Sign() != 0 {
		key := []any{op.name, fmt.Sprint(pat)}
		for _, v := range in {
			key = append(key, v.Bytes())
		}
		t.Seen(key...)
	}
	t.Sample("%s -> %x", desc(), want)
}

func c01(c *mon.Ctx) {
	// every operation x every aliasing pattern, hostile operands
	c.Run("hostile-operands", c.N(160000, 6000000), func(t *mon.T) {
		op := &scOps[t.Index%len(scOps)]
		pats := parts[op.arity+1]
		pat := pats[(t.Index/len(scOps))%len(pats)]
		vals := make([]*big.Int, op.arity+1)
		for i := range vals {
			v, cl := gen.Scalar(&t.Rng)
			vals[i] = v
			t.Count("class:" + cl)
		}
		applySc(t, op, pat, vals)
	})
	// operands chosen so that the unreduced result is next to a multiple
	// of l, or the reduced result sits on a limb boundary
	c.Run("targeted-results", c.N(160000, 6000000), func(t *mon.T) {
		want, _ := gen.Scalar(&t.Rng)
		a, _ := gen.Scalar(&t.Rng)
		b, _ := gen.Scalar(&t.Rng)
		pat2 := parts[3][t.Intn(len(parts[3]))]
		switch t.Index % 6 {
		case 0: // a*b+c = want
			x := ref.ModL(new(big.Int).Sub(want, new(big.Int).Mul(a, b)))
			applySc(t, &scOps[7], []int{3, 0, 1, 2}, []*big.Int{a, b, x, nil})
		case 1: // a*b-c = want
			x := ref.ModL(new(big.Int).Sub(new(big.Int).Mul(a, b), want))
			applySc(t, &scOps[8], []int{3, 0, 1, 2}, []*big.Int{a, b, x, nil})
		case 2: // a*b = want
			x := ref.ModL(new(big.Int).Mul(want, modInv(a)))
			applySc(t, &scOps[6], []int{2, 0, 1}, []*big.Int{a, x, nil})
		case 3: // a+b = want
			x := ref.ModL(new(big.Int).Sub(want, a))
			applySc(t, &scOps[4], []int{2, 0, 1}, []*big.Int{a, x, nil})
			applySc(t, &scOps[4], pat2, []*big.Int{a, x, b})
		case 4: // a-b = want
			x := ref.ModL(new(big.Int).Sub(a, want))
			applySc(t, &scOps[5], []int{2, 0, 1}, []*big.Int{a, x, nil})
		case 5: // a^2 = want
			if x := new(big.Int).ModSqrt(want, ref.LBig); x != nil {
				applySc(t, &scOps[2], []int{1, 0}, []*big.Int{x, nil})
			} else {
				applySc(t, &scOps[3], []int{1, 0}, []*big.Int{modInv(want), nil})
			}
		}
		t.Count(fmt.Sprintf("targeted:%d", t.Index%6))
	})
	// all pairs of a small grid of boundary values, all binary operations
	grid := boundaryScalars()
	c.Run("boundary-grid", len(grid)*len(grid), func(t *mon.T) {
		a, b := grid[t.Index/len(grid)], grid[t.Index%len(grid)]
		for i := range scOps {
			op := &scOps[i]
			switch op.arity {
			case 1:
				if t.Index < len(grid) {
					applySc(t, op, []int{1, 0}, []*big.Int{b, nil})
					applySc(t, op, []int{0, 0}, []*big.Int{b, nil})
				}
			case 2:
				applySc(t, op, []int{2, 0, 1}, []*big.Int{a, b, nil})
				applySc(t, op, []int{0, 0, 1}, []*big.Int{a, b, nil})
				applySc(t, op, []int{1, 0, 1}, []*big.Int{a, b, nil})
			case 3:
				d := grid[t.Intn(len(grid))]
				applySc(t, op, []int{3, 0, 1, 2}, []*big.Int{a, b, d, nil})
			}
		}
		t.Count("grid")
	})
	// constants and the field axioms on long chains: x * 1/x = 1 etc.
	c.Run("axioms", c.N(6000, 200000), func(t *mon.T) {
		a, _ := gen.Scalar(&t.Rng)
		b, _ := gen.Scalar(&t.Rng)
		s, u := sut.ScOf(a), sut.ScOf(b)
		var z, o, x, y, w sut.Sc
		z.SetZero()
		o.SetOne()
		t.Assert(z == sut.Sc{}, "SetZero is not zero: %x", z)
		t.Assert(o == sut.Sc{1}, "SetOne is not one: %x", o)
		x.Inverse(&s)
		x.Mul(&x, &s)
		if a.Sign() != 0 {
			t.Assert(x == o, "a * 1/a != 1 for a=%x", a)
		} else {
			t.Assert(x == z, "0 * 1/0 != 0")
		}
		x.Add(&s, &u)
		y.Sub(&x, &u)
		t.Assert(y == s, "(a+b)-b != a for a=%x b=%x", a, b)
		x.MulAdd(&s, &u, &z)
		y.Mul(&u, &s)
		w.MulSub(&s, &u, &z)
		t.Assert(x == y && w == y, "ab+0, ba and ab-0 differ for a=%x b=%x", a, b)
		x.Neg(&s)
		y.Add(&x, &s)
		t.Assert(y == z, "a + -a != 0 for a=%x", a)
		t.Count("axioms")
	})
	for i := range scOps {
		c.Require("op:" + scOps[i].name)
		for _, p := range parts[scOps[i].arity+1] {
			c.Require(fmt.Sprintf("alias:%s%v", scOps[i].name, p))
		}
	}
	c.Require("targeted:0", "targeted:1", "targeted:2", "targeted:3", "targeted:4", "targeted:5", "grid", "axioms")
}

func boundaryScalars() []*big.Int {
	var g []*big.Int
	add := func(x *big.Int) { g = append(g, ref.ModL(x)) }
	for _, d := range []int64{0, 1, 2, 3, 15, 16, 17, -1, -2, -3} {
		add(big.NewInt(d))
	}
	for _, k := range []uint{20, 21, 31, 32, 63, 64, 126, 128, 160, 192, 224, 231, 248, 251, 252} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		add(x)
		add(new(big.Int).Sub(x, big.NewInt(1)))
		add(new(big.Int).Neg(x))
	}
	h := new(big.Int).Rsh(ref.LBig, 1)
	add(h)
	add(new(big.Int).Add(h, big.NewInt(1)))
	return g
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }
