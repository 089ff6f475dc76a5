// Command crefmon watches the C reference implementation: through its Go
// bindings, and function by function in processes built with sanitizers.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/bwesterb/go-ristretto/cref"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

// call is one line for the driver and the judge of its answer.
type call struct {
	line  string
	judge func(out []string) string // "" if fine
}

func hx(b []byte) string { return hex.EncodeToString(b) }
func hf(f ref.F) string  { b := f.Bytes(); return hx(b[:]) }
func hp(p ref.P) string  { return hf(p.X) + hf(p.Y) + hf(p.Z) + hf(p.T) }
func hs(x *big.Int) string {
	b := ref.LE32(x)
	return hx(b[:])
}

func isFe(want ref.F) func([]string) string {
	return func(o []string) string {
		if len(o) != 1 || o[0] != hf(want) {
			return "want " + hf(want)
		}
		return ""
	}
}
func isInt(want ...int) func([]string) string {
	return func(o []string) string {
		if len(o) != len(want) {
			return "wrong number of results"
		}
		for i, w := range want {
			if o[i] != strconv.Itoa(w) {
				return fmt.Sprintf("want %v", want)
			}
		}
		return ""
	}
}

// truth wants 1 for true and 0 for false.
func truth(want ...bool) func([]string) string {
	return func(o []string) string {
		if len(o) != len(want) {
			return "wrong number of results"
		}
		for i, w := range want {
			if o[i] != fmt.Sprint(b2i(w)) {
				return fmt.Sprintf("want %v", want)
			}
		}
		return ""
	}
}
func isSc(want *big.Int) func([]string) string {
	w := hs(ref.ModL(want))
	return func(o []string) string {
		if len(o) != 1 || o[0] != w {
			return "want " + w
		}
		return ""
	}
}
func parsePoint(o []string) (p ref.P, ok bool) {
	if len(o) != 4 {
		return
	}
	var f [4]ref.F
	for i := range f {
		b, err := hex.DecodeString(o[i])
		if err != nil || len(b) != 32 {
			return
		}
		var a [32]byte
		copy(a[:], b)
		f[i] = ref.FromBytes(&a)
	}
	return ref.P{X: f[0], Y: f[1], Z: f[2], T: f[3]}, true
}

// isGe: the same element of the group.
func isGe(want ref.P) func([]string) string {
	return func(o []string) string {
		p, ok := parsePoint(o)
		if !ok {
			return "no point"
		}
		if !p.Valid() {
			return "the coordinates are on no point of the curve"
		}
		if !ref.Same(p, want) {
			return "want " + hp(want.Norm())
		}
		return ""
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var pow2523 = new(big.Int).Rsh(new(big.Int).Sub(ref.PBig, big.NewInt(5)), 3)

func one(t *mon.T) call {
	r := &t.Rng
	x, cx := gen.F(r)
	y, _ := gen.F(r)
	if r.Intn(10) == 0 {
		y = x
	}
	if r.Intn(20) == 0 {
		y = ref.Neg(x)
	}
	al1, al2 := r.Intn(2), r.Intn(3)
	fs := func(styles string) string { return string(styles[r.Intn(len(styles))]) }
	small := func() string { return fs("0012") }
	any := func() string { return fs("01234") }
	f1 := func(name string, wide bool, want ref.F) call {
		s := small()
		if wide {
			s = any()
		}
		return call{fmt.Sprintf("%s %d %s %s", name, al1, s, hf(x)), isFe(want)}
	}
	f2 := func(name string, wide bool, want ref.F) call {
		s := small() + small()
		if wide {
			s = any() + any()
		}
		return call{fmt.Sprintf("%s %d %s %s %s", name, al2, s, hf(x), hf(y)), isFe(want)}
	}
	k := r.Intn(60)
	switch k {
	case 0:
		return f1("fe.neg", false, ref.Neg(x))
	case 1:
		return f1("fe.double", false, ref.Add(x, x))
	case 2:
		return call{fmt.Sprintf("fe.triple %d 0 %s", al1, hf(x)), isFe(ref.Add(x, ref.Add(x, x)))}
	case 3:
		return f1("fe.square", true, ref.Sq(x))
	case 4:
		return f1("fe.square_double", true, ref.Add(ref.Sq(x), ref.Sq(x)))
	case 5:
		return f1("fe.invert", true, ref.Inv(x))
	case 6:
		return f1("fe.pow2523", true, ref.Pow(x, pow2523))
	case 7, 8:
		if k == 7 && r.Intn(4) > 0 {
			x = ref.Sq(x)
		}
		sq := ref.IsSquare(x)
		name, inv := "fe.sqrti", r.Bool()
		if sq && r.Bool() {
			name = "fe.sqrt"
		}
		if inv {
			name = strings.Replace(name, "sqrt", "invsqrt", 1)
		}
		return call{fmt.Sprintf("%s %d %s %s", name, al1, any(), hf(x)), func(o []string) string {
			n := 1
			if strings.HasSuffix(name, "i") {
				n = 2
			}
			if len(o) != n {
				return "wrong number of results"
			}
			b, _ := hex.DecodeString(o[0])
			var a [32]byte
			copy(a[:], b)
			v := ref.FromBytes(&a)
			if x.IsZero() {
				if !v.IsZero() {
					return "want 0"
				}
				return ""
			}
			if n == 2 && o[1] != strconv.Itoa(b2i(sq)) {
				return fmt.Sprintf("square: %v", sq)
			}
			w := x
			if !sq {
				w = ref.Mul(x, ref.SqrtM)
			}
			if inv {
				w = ref.Inv(w)
			}
			if ref.Sq(v) != w {
				return "its square is " + hf(ref.Sq(v)) + " want " + hf(w)
			}
			return ""
		}}
	case 9, 10:
		return f2("fe.add", false, ref.Add(x, y))
	case 11, 12:
		return f2("fe.sub", false, ref.Sub(x, y))
	case 13, 14, 15, 16:
		return f2("fe.mul", true, ref.Mul(x, y))
	case 17:
		if r.Intn(3) == 0 {
			x = []ref.F{ref.Zero, ref.One, ref.MOne}[r.Intn(3)]
		}
		switch r.Intn(4) {
		case 0:
			return call{fmt.Sprintf("fe.iszero 0 %s %s", any(), hf(x)), truth(x.IsZero())}
		case 1:
			return call{fmt.Sprintf("fe.isone 0 %s %s", any(), hf(x)), truth(x == ref.One)}
		case 2:
			return call{fmt.Sprintf("fe.isnegative 0 %s %s", any(), hf(x)), isInt(b2i(x.IsNeg()))}
		}
		return call{fmt.Sprintf("fe.getparity 0 %s %s", any(), hf(x)), isInt(b2i(x.IsNeg()))}
	case 18:
		if r.Bool() {
			y = x
		} else if r.Intn(3) == 0 { // one bit apart
			b := x.Bytes()
			b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			y = ref.FromBytes(&b)
		}
		n := "fe.iseq"
		if r.Bool() {
			n = "fe.iseq_vartime"
		}
		return call{fmt.Sprintf("%s 0 %s %s %s", n, any()+any(), hf(x), hf(y)), truth(x == y)}
	case 19, 20:
		b, _ := gen.Buf32(r)
		return call{fmt.Sprintf("fe.unpack 0 0 %s", hx(b[:])), isFe(ref.FromBytes(&b))}
	case 21:
		b := r.Intn(2)
		w := x
		if b == 1 {
			w = y
		}
		return call{fmt.Sprintf("fe.cmov %d %s %s %s", b, any()+any(), hf(x), hf(y)), isFe(w)}
	case 22:
		w := []ref.F{ref.Zero, ref.One, ref.FromUint(2), ref.SqrtM, ref.Neg(ref.SqrtM), ref.MOne, ref.One, ref.Zero}
		return call{"fe.const 0 0", func(o []string) string {
			for i := range w {
				if len(o) != len(w) || o[i] != hf(w[i]) {
					return fmt.Sprintf("constant %d", i)
				}
			}
			return ""
		}}
	}
	_ = cx
	s, _ := gen.Scalar(r)
	u, _ := gen.Scalar(r)
	if r.Intn(8) == 0 {
		u = ref.ModL(new(big.Int).Neg(s))
	}
	s1 := func(name string, want *big.Int) call {
		return call{fmt.Sprintf("%s %d 0 %s", name, al1, hs(s)), isSc(want)}
	}
	s2 := func(name string, want *big.Int) call {
		return call{fmt.Sprintf("%s %d 0 %s %s", name, al2, hs(s), hs(u)), isSc(want)}
	}
	digits := func(n, w int) func([]string) string {
		return func(o []string) string {
			if len(o) != 1 {
				return "no digits"
			}
			b, err := hex.DecodeString(o[0])
			if err != nil || len(b) != n {
				return "wrong number of digits"
			}
			v := new(big.Int)
			for i := n - 1; i >= 0; i-- {
				v.Lsh(v, uint(w))
				v.Add(v, big.NewInt(int64(int8(b[i]))))
				if d := int(int8(b[i])); w > 1 && (d > 1<<uint(w-1) || d < -(1<<uint(w-1))) {
					return fmt.Sprintf("digit %d is %d", i, d)
				}
			}
			if v.Cmp(s) != 0 {
				return fmt.Sprintf("the digits make %x", v)
			}
			return ""
		}
	}
	switch k {
	case 23:
		return s1("sc.negate", new(big.Int).Neg(s))
	case 24:
		return s1("sc.square", new(big.Int).Mul(s, s))
	case 25:
		if s.Sign() == 0 {
			return s1("sc.invert", s)
		}
		return s1("sc.invert", new(big.Int).ModInverse(s, ref.LBig))
	case 26, 27:
		return s2("sc.add", new(big.Int).Add(s, u))
	case 28, 29:
		return s2("sc.sub", new(big.Int).Sub(s, u))
	case 30, 31:
		return s2("sc.mul", new(big.Int).Mul(s, u))
	case 32:
		b, _ := gen.Buf32(r)
		c := b
		c[31] &= 0x1f
		w := hs(ref.ModL(ref.FromLE(c[:])))
		return call{"sc.unpack 0 0 " + hx(b[:]), func(o []string) string {
			if len(o) != 3 || o[0] != w || o[1] != w || o[2] != "0" {
				return "want " + w
			}
			return ""
		}}
	case 33, 34:
		var v *big.Int
		if r.Bool() {
			v = gen.NearMultL(r, 512)
		} else {
			v, _ = gen.Nat(r, 512)
		}
		b := ref.LE64(v)
		return call{"sc.from64 0 0 " + hx(b[:]), isSc(v)}
	case 35:
		return call{"sc.const 0 0", func(o []string) string {
			for i, w := range []int64{0, 1, 1, 0} {
				if len(o) != 4 || o[i] != hs(big.NewInt(w)) {
					return fmt.Sprintf("constant %d", i)
				}
			}
			return ""
		}}
	case 36:
		if r.Intn(3) == 0 {
			u = s
		}
		if r.Intn(3) == 0 {
			s = big.NewInt(int64(r.Intn(3)))
		}
		return call{fmt.Sprintf("sc.pred 0 0 %s %s", hs(s), hs(u)),
			isInt(b2i(s.Cmp(big.NewInt(1)) == 0), b2i(s.Sign() == 0), b2i(s.Cmp(u) == 0), s.BitLen())}
	case 37:
		return call{"sc.bits 0 0 " + hs(s), func(o []string) string {
			if len(o) != 1 || len(o[0]) != 512 {
				return "no bits"
			}
			for i := 0; i < 256; i++ {
				if o[0][2*i:2*i+2] != fmt.Sprintf("%02x", s.Bit(i)) {
					return fmt.Sprintf("bit %d", i)
				}
			}
			return ""
		}}
	case 38:
		return call{"sc.window3 0 0 " + hs(s), digits(85, 3)}
	case 39:
		return call{"sc.window5 0 0 " + hs(s), digits(51, 5)}
	case 40:
		return call{fmt.Sprintf("sc.slide %d 0 %s", 3+r.Intn(4), hs(s)), digits(256, 1)}
	}
	p, q, _ := gen.Pair(r)
	pub := []string{"", "_pub"}[r.Intn(2)]
	switch k {
	case 41:
		return call{fmt.Sprintf("ge.double%s %d %s %s", pub, al1, small(), hp(p)), isGe(ref.PAdd(p, p))}
	case 42:
		return call{fmt.Sprintf("ge.negate%s %d %s %s", pub, al1, small(), hp(p)), isGe(ref.PNeg(p))}
	case 43, 44, 45:
		return call{fmt.Sprintf("ge.add%s %d %s %s %s", pub, al2, small()+small(), hp(p), hp(q)), isGe(ref.PAdd(p, q))}
	case 46:
		if r.Bool() {
			p = gen.Represent(r, ref.Ident)
		}
		return call{fmt.Sprintf("ge.isneutral%s 0 %s %s", pub, small(), hp(p)), truth(ref.Same(p, ref.Ident))}
	case 47:
		return call{fmt.Sprintf("ge.equals%s 0 %s %s %s", pub, small()+small(), hp(p), hp(q)), truth(ref.Same(p, q))}
	case 48, 49:
		return call{fmt.Sprintf("ge.scalarmult%s %d %s %s %s", pub, al1, small(), hp(p), hs(s)), isGe(ref.PMul(s, p))}
	case 50, 51:
		return call{fmt.Sprintf("ge.scalarmult_base%s 0 0 %s", pub, hs(s)), isGe(ref.PMulBase(s))}
	case 52:
		n := r.Intn(4)
		l := fmt.Sprintf("ge.multiscalarmult%s 0 %s", pub, small())
		w := ref.Ident
		for i := 0; i < n; i++ {
			l += " " + hp(p) + " " + hs(s)
			w = ref.PAdd(w, ref.PMul(s, p))
			p, _ = gen.Point(r)
			s, _ = gen.Scalar(r)
		}
		return call{l, isGe(w)}
	case 53:
		if r.Intn(6) == 0 {
			return call{"ge.const 0 0", func(o []string) string {
				if len(o) != 8 {
					return "wrong number of results"
				}
				if m := isGe(ref.B)(o[:4]); m != "" {
					return "base point: " + m
				}
				return isGe(ref.Ident)(o[4:])
			}}
		}
		fallthrough
	case 54, 55:
		w := p.Encode()
		return call{fmt.Sprintf("ge.pack 0 %s %s", small(), hp(p)), func(o []string) string {
			if len(o) != 1 || o[0] != hx(w[:]) {
				return "want " + hx(w[:])
			}
			return ""
		}}
	case 56, 57:
		b, _ := gen.Buf32(r)
		if r.Intn(3) == 0 {
			b = p.Encode()
			switch r.Intn(4) {
			case 0:
				b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			case 1:
				f := ref.Neg(ref.FromBytes(&b))
				b = f.Bytes()
			}
		}
		f := ref.FromBytes(&b)
		cb := f.Bytes()
		canonical := cb == b
		w, ok := ref.Decode(&cb)
		return call{"ge.unpack 0 0 " + hx(b[:]), func(o []string) string {
			if len(o) != 5 {
				return "wrong number of results"
			}
			acc := o[0] == "0"
			if !ok && acc {
				return "accepted, but it is no encoding"
			}
			if ok && canonical && !acc {
				return "rejected, but it is an encoding of " + hp(w)
			}
			if ok && acc {
				return isGe(w)(o[1:])
			}
			return ""
		}}
	case 58:
		if r.Intn(3) == 0 {
			x = []ref.F{ref.Zero, ref.One, ref.SqrtID, ref.Neg(ref.SqrtID), ref.SqrtIOverD, ref.Neg(ref.SqrtIOverD)}[r.Intn(6)]
		}
		return call{fmt.Sprintf("ge.elligator 0 %s %s", small(), hf(x)), isGe(ref.Map(x))}
	}
	// a point of the Jacobi quartic over a decodable s
	for {
		b := ref.Abs(x).Bytes()
		if w, ok := ref.Decode(&b); ok && !w.X.IsZero() {
			w = w.Norm()
			sf := ref.FromBytes(&b)
			if r.Bool() {
				sf = ref.Neg(sf)
			}
			// PandA uses the negative square root of 1/(a-d)
			tf := ref.Neg(ref.Mul(ref.Mul(ref.Add(sf, sf), ref.InvSqrtAMinusD), ref.Inv(w.X)))
			return call{fmt.Sprintf("ge.jacobi 0 %s %s %s", small()+small(), hf(sf), hf(tf)), isGe(w)}
		}
		b = t.Arr32()
		x = ref.FromBytes(&b)
	}
}

func runDriver(path string, input string, timeout time.Duration) (stdout, stderr string, err error, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, path)
	cmd.Env = []string{"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1", "PATH=/usr/bin:/bin"}
	cmd.Stdin = strings.NewReader(input)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	return o.String(), e.String(), err, ctx.Err() != nil
}

func main() {
	tier := flag.String("tier", "quick", "quick or thorough")
	config := flag.String("config", "default", "name of the build configuration")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "-", "where the result goes")
	replay := flag.String("replay", "", "replay the violation in this file")
	drivers := flag.String("drivers", "", "name=path,... of the instrumented drivers")
	prop := flag.String("prop", "C19", "property")
	flag.Parse()
	var v mon.Violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*tier, *seed, *config = v.Tier, v.Seed, v.Config
	}
	mon.SetOut(*out)
	c := mon.New(*prop, *config, *tier, *seed)
	if *replay != "" {
		c.Only, c.OnlyIdx = v.Workload, v.Index
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, "the oracle is broken:", err)
		os.Exit(2)
	}
	if *prop == "C23" {
		c.Run("concurrent bindings", c.N(4, 40), concurrent)
		c.Require("go:concurrent", "go:overlap")
		c.Finish(*out)
		return
	}
	for _, d := range strings.Split(*drivers, ",") {
		kv := strings.SplitN(d, "=", 2)
		if len(kv) != 2 {
			continue
		}
		name, path := kv[0], kv[1]
		c.Run("c:"+name, c.N(360, 5000), func(t *mon.T) {
			n := 400
			calls := make([]call, n)
			var in strings.Builder
			for i := range calls {
				calls[i] = one(t)
				in.WriteString(calls[i].line + "\n")
			}
			o, e, err, hang := runDriver(path, in.String(), 200*time.Second)
			if strings.Contains(e, "driver:") {
				t.CtxInconclusive("driver: %s", e)
				return
			}
			lines := strings.Split(o, "\n")
			for i := range calls {
				op := strings.Fields(calls[i].line)[0]
				if i >= len(lines)-1 {
					what := "the process died"
					if hang {
						what = "the call does not terminate"
					}
					if len(e) > 3000 {
						e = e[:3000]
					}
					t.Fail("%s: %s (%v) in: %s\n%s", name, what, err, calls[i].line, e)
					return
				}
				f := strings.Fields(lines[i])
				if len(f) == 0 || f[0] != op {
					t.CtxInconclusive("driver out of step: %q for %q", lines[i], calls[i].line)
					return
				}
				f = f[1:]
				if len(f) > 0 && f[len(f)-1] == "MUTATED" {
					t.Fail("%s: %s modified an operand it was given to read", name, calls[i].line)
					f = f[:len(f)-1]
				}
				if m := calls[i].judge(f); !t.Assert(m == "", "%s: %s gave %v: %s", name, calls[i].line, f, m) {
					return
				}
				t.Count("call:" + op)
				t.Seen(calls[i].line)
				if i%97 == 0 {
					t.Sample("%s -> %s", calls[i].line, lines[i])
				}
			}
			if err != nil {
				t.Fail("%s: the process ended with %v\n%s", name, err, e)
			}
			t.Count("sanitizer:" + name)
		})
	}
	c.Run("bindings", c.N(6000, 200000), bindings)
	c.Require(strings.Fields("call:fe.neg call:fe.double call:fe.triple call:fe.square call:fe.square_double call:fe.invert call:fe.pow2523 " +
		"call:fe.sqrt call:fe.invsqrt call:fe.sqrti call:fe.invsqrti call:fe.add call:fe.sub call:fe.mul call:fe.iszero call:fe.isone " +
		"call:fe.isnegative call:fe.getparity call:fe.iseq call:fe.iseq_vartime call:fe.unpack call:fe.cmov call:fe.const " +
		"call:sc.negate call:sc.square call:sc.invert call:sc.add call:sc.sub call:sc.mul call:sc.unpack call:sc.from64 call:sc.const " +
		"call:sc.pred call:sc.bits call:sc.window3 call:sc.window5 call:sc.slide call:ge.double call:ge.negate call:ge.add call:ge.double_pub " +
		"call:ge.negate_pub call:ge.add_pub call:ge.isneutral call:ge.isneutral_pub call:ge.equals call:ge.equals_pub call:ge.scalarmult " +
		"call:ge.scalarmult_pub call:ge.scalarmult_base call:ge.scalarmult_base_pub call:ge.multiscalarmult call:ge.multiscalarmult_pub " +
		"call:ge.const call:ge.pack call:ge.unpack call:ge.elligator call:ge.jacobi go:fe go:sc go:ge go:decode go:elligator")...)
	c.Finish(*out)
}

// bindings goes through the Go package.
func bindings(t *mon.T) {
	r := &t.Rng
	fe := func(f ref.F) (x cref.Fe25519) {
		b := f.Bytes()
		x.Unpack(&b)
		return
	}
	of := func(x *cref.Fe25519) ref.F {
		var b [32]byte
		x.Pack(&b)
		return ref.FromBytes(&b)
	}
	ge := func(p ref.P) (g cref.GroupGe) {
		*g.X(), *g.Y(), *g.Z(), *g.T() = fe(p.X), fe(p.Y), fe(p.Z), fe(p.T)
		return
	}
	judge := func(g *cref.GroupGe, want ref.P, f string, a ...any) {
		p := ref.P{X: of(g.X()), Y: of(g.Y()), Z: of(g.Z()), T: of(g.T())}
		t.Assert(p.Valid() && ref.Same(p, want), "bindings: %s gave %s want %s", fmt.Sprintf(f, a...), hp(p), hp(want.Norm()))
		var b [32]byte
		g.Pack(&b)
		w := want.Encode()
		t.Assert(b == w, "bindings: %s packs as %x want %x", fmt.Sprintf(f, a...), b, w)
	}
	// field and scalars
	b, _ := gen.Buf32(r)
	ob := b
	var x cref.Fe25519
	x.Unpack(&b)
	t.Assert(of(&x) == ref.FromBytes(&b), "bindings: Fe25519 %x", b)
	var s cref.GroupScalar
	s.Unpack(&b)
	var o [32]byte
	s.Pack(&o)
	c := b
	c[31] &= 0x1f
	t.Assert(o == ref.LE32(ref.ModL(ref.FromLE(c[:]))), "bindings: GroupScalar %x -> %x", b, o)
	t.Assert(b == ob, "bindings: Unpack modified its input")
	t.Count("go:fe")
	t.Count("go:sc")
	// group
	p, q, _ := gen.Pair(r)
	gp, gq := ge(p), ge(q)
	kp, kq := gp, gq
	k, _ := gen.Scalar(r)
	kb := ref.LE32(k)
	s.Unpack(&kb)
	var g cref.GroupGe
	g.Add(&gp, &gq)
	judge(&g, ref.PAdd(p, q), "Add(%s, %s)", hp(p), hp(q))
	g.Neg(&gp)
	judge(&g, ref.PNeg(p), "Neg(%s)", hp(p))
	g.Double(&gp)
	judge(&g, ref.PAdd(p, p), "Double(%s)", hp(p))
	g.ScalarMult(&gp, &s)
	judge(&g, ref.PMul(k, p), "ScalarMult(%s, %x)", hp(p), k)
	t.Assert(gp == kp && gq == kq, "bindings: an operand was modified")
	g = gp
	g.Add(&g, &gq)
	judge(&g, ref.PAdd(p, q), "r.Add(r, %s), r = %s", hp(q), hp(p))
	g.Double(&g)
	judge(&g, ref.PAdd(ref.PAdd(p, q), ref.PAdd(p, q)), "r.Double(r)")
	t.Count("go:ge")
	f := ref.FromBytes(&b)
	cb := f.Bytes()
	w, ok := ref.Decode(&cb)
	ret := g.Unpack(&b)
	t.Assert(!(ret == 0 && !ok), "bindings: GroupGe.Unpack accepts %x", b)
	t.Assert(!(ret != 0 && ok && cb == b), "bindings: GroupGe.Unpack rejects %x", b)
	if ok && ret == 0 {
		judge(&g, w, "Unpack(%x)", b)
	}
	t.Count("go:decode")
	g.Elligator(&x)
	judge(&g, ref.Map(f), "Elligator(%x)", f.Bytes())
	t.Count("go:elligator")
	t.Seen("bindings", b[:], hp(p), hp(q), kb[:])
	t.Sample("p=%s q=%s k=%x", hp(p), hp(q), kb)
}
