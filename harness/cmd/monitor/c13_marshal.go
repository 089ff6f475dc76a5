package main

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"verif.local/harness/gen"
	"verif.local/harness/mon"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

func init() { props["C13"] = c13 }

type textCase int

const (
	mustReject textCase = iota
	mayAccept           // unused bits are set: may be accepted, with this value only
	wellFormed
)

// judgeText says what 32 bytes a text stands for.
func judgeText(txt []byte, allowHex bool) (b [32]byte, v textCase) {
	s := string(txt)
	if allowHex && len(s) == 64 {
		if d, err := hex.DecodeString(s); err == nil {
			copy(b[:], d)
			return b, wellFormed
		}
	}
	// unpadded base64url; line breaks are no part of it, as is usual for base64
	c := strings.NewReplacer("\r", "", "\n", "").Replace(s)
	if len(c) != 43 {
		return b, mustReject
	}
	if d, err := base64.RawURLEncoding.Strict().DecodeString(c); err == nil && len(d) == 32 {
		copy(b[:], d)
		return b, wellFormed
	}
	// trailing bits set
	if d, err := base64.RawURLEncoding.DecodeString(c); err == nil && len(d) == 32 {
		copy(b[:], d)
		return b, mayAccept
	}
	return b, mustReject
}

// hostileText makes texts around the encoding of b.
func hostileText(r *mon.Rng, b [32]byte) ([]byte, string) {
	t := []byte(base64.RawURLEncoding.EncodeToString(b[:]))
	h := []byte(hex.EncodeToString(b[:]))
	alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	rndtext := func(n int) []byte {
		o := make([]byte, n)
		for i := range o {
			o[i] = alpha[r.Intn(64)]
		}
		return o
	}
	switch r.Intn(20) {
	case 0:
		return t, "base64"
	case 1:
		return h, "hex"
	case 2:
		return []byte(strings.ToUpper(string(h))), "HEX"
	case 3: // mixed case
		for i := range h {
			if r.Bool() {
				h[i] = strings.ToUpper(string(h[i]))[0]
			}
		}
		return h, "hEx"
	case 4:
		return t[:r.Intn(len(t))], "base64-truncated"
	case 5:
		return append(t, rndtext(1+r.Intn(60))...), "base64-overlong"
	case 6:
		return rndtext(r.Intn(140)), "base64-any-length"
	case 7:
		return h[:r.Intn(len(h))], "hex-truncated"
	case 8:
		return append(h, h[:1+r.Intn(64)]...), "hex-overlong"
	case 9:
		if r.Bool() {
			return []byte(base64.RawStdEncoding.EncodeToString(b[:])), "std-base64"
		}
		return []byte(base64.StdEncoding.EncodeToString(b[:])), "std-base64"
	case 10:
		switch r.Intn(5) {
		case 0:
			return append(t, '='), "padded"
		case 1:
			return append(t, []string{" ", "\t", "\x00", "==", "=\n", " \n", "\v", "\u00a0", "\ufeff"}[r.Intn(9)]...), "padded"
		case 2:
			return append([]byte([]string{" ", "\t", "\x00", "=", "\"", "0x", "\ufeff"}[r.Intn(7)]), t...), "padded"
		case 3:
			return append(h, []string{" ", "\n", "\r\n", "\x00", "h"}[r.Intn(5)]...), "padded"
		}
		return append([]byte([]string{" ", "\n", "0x", "\x00", "\""}[r.Intn(5)]), h...), "padded"
	case 11: // trailing bits
		i := strings.IndexByte(alpha, t[42])
		t[42] = alpha[i|1+r.Intn(3)]
		return t, "trailing-bits"
	case 12: // newlines anywhere
		for n := 1 + r.Intn(22); n > 0; n-- {
			p := r.Intn(len(t) + 1)
			t = append(t[:p], append([]byte{"\r\n"[r.Intn(2)]}, t[p:]...)...)
		}
		return t, "newlines"
	case 13: // newlines such that the length is that of hex
		for len(t) < 64 {
			p := r.Intn(len(t) + 1)
			t = append(t[:p], append([]byte{"\r\n"[r.Intn(2)]}, t[p:]...)...)
		}
		return t, "newlines-64"
	case 14:
		t[r.Intn(len(t))] = byte(r.U64())
		return t, "base64-one-byte"
	case 15:
		h[r.Intn(len(h))] = byte(r.U64())
		return h, "hex-one-byte"
	case 16:
		n := r.Intn(100)
		if l := gen.MinedLen(r, 1<<16); l >= 0 && r.Intn(4) == 0 {
			n = l
		}
		if r.Intn(3) == 0 {
			return rndtext(n), "base64-any-length"
		}
		g := r.Bytes(n)
		gen.MinedBytes(r, g)
		return g, "garbage"
	case 17:
		return rndtext(64), "base64-64"
	case 18:
		n := 1000 + r.Intn(100000)
		if r.Bool() {
			return []byte(strings.Repeat("\n", n) + string(t)), "huge"
		}
		return rndtext(n), "huge"
	}
	return rndtext(43), "base64-43"
}

func c13(c *mon.Ctx) {
	var (
		_ encoding.BinaryMarshaler   = (*sut.Point)(nil)
		_ encoding.BinaryUnmarshaler = (*sut.Point)(nil)
		_ encoding.TextMarshaler     = (*sut.Point)(nil)
		_ encoding.TextUnmarshaler   = (*sut.Point)(nil)
		_ encoding.BinaryMarshaler   = (*sut.Sc)(nil)
		_ encoding.BinaryUnmarshaler = (*sut.Sc)(nil)
		_ encoding.TextMarshaler     = (*sut.Sc)(nil)
		_ encoding.TextUnmarshaler   = (*sut.Sc)(nil)
	)
	// decode with a method and judge: want==nil means that it must fail.
	point := func(t *mon.T, what string, old sut.Point, dec func(*sut.Point) error, b [32]byte, v textCase) {
		p := old
		err := dec(&p)
		want, valid := ref.Decode(&b)
		switch {
		case err == nil && v == mustReject:
			t.Fail("%s was accepted", what)
		case err == nil && !valid:
			t.Fail("%s was accepted although %x encodes no point", what, b)
		case err != nil && v == wellFormed && valid:
			t.Fail("%s was rejected: %v", what, err)
		case err == nil:
			sut.JudgePoint(t, &p, want, what)
			t.Count("point:accepted")
		default:
			t.Count("point:rejected")
			g := sut.POfPoint(&p)
			t.Assert(p == old || !g.Valid() || ref.Same(g, sut.POfPoint(&old)),
				"%s was rejected with an error but left another point behind", what)
		}
		t.Check()
	}
	scalar := func(t *mon.T, what string, old sut.Sc, dec func(*sut.Sc) error, b [32]byte, v textCase) {
		s := old
		err := dec(&s)
		switch {
		case err == nil && v == mustReject:
			t.Fail("%s was accepted", what)
		case err != nil && v == wellFormed:
			t.Fail("%s was rejected: %v", what, err)
		case err == nil:
			want := ref.ModL(low253(b))
			t.Assert(sut.ScBig(&s).Cmp(want) == 0, "%s: got %x want %x", what, sut.ScBig(&s), want)
			t.Count("scalar:accepted")
		default:
			t.Count("scalar:rejected")
			t.Assert(s == old, "%s was rejected with an error but changed the scalar", what)
		}
		t.Check()
	}
	buf := func(t *mon.T) [32]byte {
		switch t.Intn(3) {
		case 0:
			p, _ := gen.Element(&t.Rng)
			return p.Encode()
		case 1:
			s, _ := gen.Scalar(&t.Rng)
			return ref.LE32(s)
		}
		b, _ := gen.Buf32(&t.Rng)
		return b
	}
	oldP := func(t *mon.T) sut.Point {
		p, _ := gen.Point(&t.Rng)
		return sut.PointStyle(&t.Rng, p)
	}
	c.Run("text", c.N(60000, 2500000), func(t *mon.T) {
		b := buf(t)
		txt, cl := hostileText(&t.Rng, b)
		keep := string(txt)
		show := keep
		if len(show) > 200 {
			show = fmt.Sprintf("%s… (%d bytes)", show[:200], len(keep))
		}
		pb, pv := judgeText(txt, true)
		point(t, fmt.Sprintf("Point text %q (%s)", show, cl), oldP(t), func(p *sut.Point) error { return p.UnmarshalText(txt) }, pb, pv)
		sb, sv := judgeText(txt, false)
		scalar(t, fmt.Sprintf("Scalar text %q (%s)", show, cl), sut.JunkSc(&t.Rng), func(s *sut.Sc) error { return s.UnmarshalText(txt) }, sb, sv)
		t.Assert(string(txt) == keep, "UnmarshalText modified its input")
		t.Count("text:" + cl)
		t.Count(fmt.Sprintf("verdict:%d", pv))
		t.Seen(keep)
		t.Sample("%s %q verdict %d", cl, show, pv)
	})
	c.Run("binary", c.N(40000, 1500000), func(t *mon.T) {
		b := buf(t)
		data := append([]byte(nil), b[:]...)
		v := wellFormed
		cl := "32"
		switch {
		case t.Index < 200:
			data, cl = t.Bytes(t.Index), "any-length"
			if t.Index > 32 {
				copy(data, b[:])
			}
		case t.Intn(3) == 0:
			switch t.Intn(4) {
			case 0:
				data = data[:t.Intn(32)]
			case 1:
				data = append(data, t.Bytes(1+t.Intn(40))...)
			case 2:
				data = append(data, 0)
			case 3:
				data = nil
			}
			cl = "other-length"
		}
		if len(data) != 32 {
			v = mustReject
		}
		copy(b[:], data)
		keep := string(data)
		point(t, fmt.Sprintf("Point binary %x", data), oldP(t), func(p *sut.Point) error { return p.UnmarshalBinary(data) }, b, v)
		scalar(t, fmt.Sprintf("Scalar binary %x", data), sut.JunkSc(&t.Rng), func(s *sut.Sc) error { return s.UnmarshalBinary(data) }, b, v)
		t.Assert(string(data) == keep, "UnmarshalBinary modified its input")
		t.Count("binary:" + cl)
		t.Seen(keep)
		t.Sample("binary %x", data)
	})
	c.Run("marshal", c.N(15000, 500000), func(t *mon.T) {
		m, cl := gen.Point(&t.Rng)
		p := sut.PointStyle(&t.Rng, m)
		op := p
		enc := m.Encode()
		wantText := base64.RawURLEncoding.EncodeToString(enc[:])
		k, _ := gen.Scalar(&t.Rng)
		s := sut.ScOf(k)
		os := s
		senc := ref.LE32(k)
		swant := base64.RawURLEncoding.EncodeToString(senc[:])

		got, err := p.MarshalBinary()
		t.Assert(err == nil && bytes.Equal(got, enc[:]), "Point.MarshalBinary: %x %v want %x", got, err, enc)
		got[0] ^= 0xff // belongs to the caller
		got, err = p.MarshalBinary()
		t.Assert(err == nil && bytes.Equal(got, enc[:]), "Point.MarshalBinary: %x %v after its first result was overwritten", got, err)
		got, err = p.MarshalText()
		t.Assert(err == nil && string(got) == wantText, "Point.MarshalText: %q %v want %q", got, err, wantText)
		t.Assert(p.String() == wantText, "Point.String: %q want %q", p.String(), wantText)
		t.Assert(fmt.Sprint(p) == wantText && fmt.Sprintf("%v", &p) == wantText, "a Point prints as %q and %q want %q", fmt.Sprint(p), fmt.Sprint(&p), wantText)
		got, err = s.MarshalBinary()
		t.Assert(err == nil && bytes.Equal(got, senc[:]), "Scalar.MarshalBinary: %x %v want %x", got, err, senc)
		got, err = s.MarshalText()
		t.Assert(err == nil && string(got) == swant, "Scalar.MarshalText: %q %v want %q", got, err, swant)
		t.Assert(s.String() == swant && fmt.Sprint(s) == swant, "Scalar.String: %q want %q", s.String(), swant)
		t.Assert(p == op && s == os, "marshalling modified the value")

		// through the standard encoders
		type msg struct {
			P  *sut.Point
			S  *sut.Sc
			Ps []*sut.Point
			M  map[string]*sut.Sc
		}
		in := msg{&p, &s, []*sut.Point{&p, &p}, map[string]*sut.Sc{"x": &s}}
		j, err := json.Marshal(&in)
		wantJ := fmt.Sprintf(`{"P":%q,"S":%q,"Ps":[%q,%q],"M":{"x":%q}}`, wantText, swant, wantText, wantText, swant)
		t.Assert(err == nil && string(j) == wantJ, "JSON: %s %v want %s", j, err, wantJ)
		check := func(o msg, how string) {
			ok := o.P != nil && o.S != nil && len(o.Ps) == 2 && o.M["x"] != nil
			if t.Assert(ok, "%s: parts got lost", how) {
				sut.JudgePoint(t, o.P, m, how)
				sut.JudgePoint(t, o.Ps[1], m, how)
				t.Assert(sut.ScBig(o.S).Cmp(k) == 0 && sut.ScBig(o.M["x"]).Cmp(k) == 0, "%s: the scalar came back as %x, not %x", how, sut.ScBig(o.S), k)
			}
		}
		var out msg
		if t.Assert(json.Unmarshal(j, &out) == nil, "JSON does not decode: %s", j) {
			check(out, "JSON round trip")
		}
		if t.Intn(4) == 0 {
			var nb bytes.Buffer
			err = gob.NewEncoder(&nb).Encode(&in)
			t.Assert(err == nil, "gob: %v", err)
			out = msg{}
			if t.Assert(gob.NewDecoder(&nb).Decode(&out) == nil, "gob does not decode") {
				check(out, "gob round trip")
			}
			t.Count("gob")
		}
		// text round trip
		var q sut.Point
		if t.Assert(q.UnmarshalText([]byte(wantText)) == nil, "Point rejects its own text %q", wantText) {
			sut.JudgePoint(t, &q, m, "text round trip")
		}
		if t.Assert(q.UnmarshalText([]byte(hex.EncodeToString(enc[:]))) == nil, "Point rejects hex %x", enc) {
			sut.JudgePoint(t, &q, m, "hex round trip")
		}
		if t.Assert(q.UnmarshalBinary(enc[:]) == nil, "Point rejects its own encoding %x", enc) {
			sut.JudgePoint(t, &q, m, "binary round trip")
		}
		t.Count("marshal:" + cl)
		t.Seen(enc[:], senc[:])
		t.Sample("%s %s", wantText, swant)
	})
	// scalars that are not reduced, in text and binary
	c.Run("unreduced", c.N(20000, 500000), func(t *mon.T) {
		x := gen.NearMultL(&t.Rng, 256)
		b := ref.LE32(x)
		want := ref.ModL(low253(b))
		s := sut.JunkSc(&t.Rng)
		err := s.UnmarshalBinary(b[:])
		t.Assert(err == nil && sut.ScBig(&s).Cmp(want) == 0, "Scalar.UnmarshalBinary(%x): %x %v want %x", b, sut.ScBig(&s), err, want)
		s = sut.JunkSc(&t.Rng)
		txt := base64.RawURLEncoding.EncodeToString(b[:])
		err = s.UnmarshalText([]byte(txt))
		t.Assert(err == nil && sut.ScBig(&s).Cmp(want) == 0, "Scalar.UnmarshalText(%s): %x %v want %x", txt, sut.ScBig(&s), err, want)
		t.Count("unreduced")
		t.Seen(b[:])
	})
	c.Require("point:accepted", "point:rejected", "scalar:accepted", "scalar:rejected", "text:base64", "text:hex", "text:hEx",
		"text:base64-overlong", "text:newlines-64", "text:trailing-bits", "text:padded", "text:std-base64", "text:huge", "verdict:0", "verdict:1", "verdict:2",
		"binary:32", "binary:any-length", "binary:other-length", "gob", "unreduced")
}
