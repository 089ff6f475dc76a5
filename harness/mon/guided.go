package mon

import (
	"fmt"
	"math/bits"
	"os"
	"time"

	"verif.local/harness/sancov"
)

// Guided search over the random choices of a workload. A case is a function
// of the words that its Rng returns; these are recorded on a tape, tapes that
// enter new code of the library or come closer to satisfying a comparison in
// it are kept, and changed: at random, and by putting one operand of a
// comparison in the place where the other was found. It only finds inputs;
// the oracle of the workload judges, and a tape can be replayed in any build.

// Tape holds the words that a Rng returned, or has to return.
type Tape struct {
	w   []uint64
	pos int
}

func (r *Rng) onTape(fresh func() uint64) uint64 {
	t := r.tape
	if t.pos >= len(t.w) {
		if len(t.w) >= 20000 {
			t.pos++
			return fresh()
		}
		t.w = append(t.w, fresh())
	}
	t.pos++
	return t.w[t.pos-1]
}

type guide struct {
	counting bool
	n        int           // workloads
	budget   time.Duration // per workload
	seen     []byte        // coverage features
	best     map[[2]uint64]int
	tries    map[[2]uint64]int
}

// Guide runs f, the workloads of a property, under guidance for about the
// given time.
func (c *Ctx) Guide(f func(*Ctx), total time.Duration) {
	if !sancov.Available {
		c.Inconclusive("the binary is not instrumented")
		return
	}
	c.guide = &guide{counting: true, best: map[[2]uint64]int{}, tries: map[[2]uint64]int{}}
	f(c)
	g := c.guide
	g.counting = false
	if g.n > 0 {
		g.budget = total / time.Duration(g.n)
	}
	f(c)
	edges := 0
	for _, b := range g.seen {
		if b != 0 {
			edges++
		}
	}
	if os.Getenv("VERIF_OPEN") != "" {
		for _, l := range g.Open() {
			c.Note("%s", l)
		}
	}
	unsolved := 0
	for _, d := range g.best {
		if d > 0 {
			unsolved++
		}
	}
	c.mu.Lock()
	c.res.Counters["blocks of the library entered"] += int64(edges)
	c.res.Counters["blocks of the library"] += int64(len(g.seen))
	c.res.Counters["comparisons never met with equality"] += int64(unsolved)
	c.mu.Unlock()
}

// Guided says whether the workloads run under guidance: those that start
// processes or measure time are left out then.
func (c *Ctx) Guided() bool { return c.guide != nil }

// merge looks for anything new in what the last case did.
func (g *guide) merge(r *Rng, cmps []sancov.Cmp) (novel bool, open []sancov.Cmp) {
	cs := sancov.Counters()
	if len(g.seen) != len(cs) {
		g.seen = make([]byte, len(cs))
	}
	for i, v := range cs {
		if v == 0 {
			continue
		}
		b := byte(1) << uint(bits.Len8(v)-1)
		if g.seen[i]&b == 0 {
			g.seen[i] |= b
			novel = true
		}
	}
	dup := map[[2]uint64]int{}
	for _, x := range cmps {
		k := [2]uint64{uint64(x.PC)<<8 | uint64(x.Size), x.A}
		d, ok := g.best[k]
		if !ok && len(g.best) > 3000 { // not a constant
			continue
		}
		if ok && d == 0 {
			continue
		}
		e := bits.OnesCount64(x.A ^ x.B)
		if !ok || e < d {
			g.best[k] = e
			novel = true
		}
		if e != 0 && dup[k] < 4 && len(open) < 60 {
			if dup[k]++; g.tries[k] > 400 { // hopeless, perhaps
				dup[k] = 4
				if r.Intn(40) != 0 {
					continue
				}
			}
			open = append(open, x)
		}
	}
	return
}

// places finds where the low n bits of v are on the tape, at any bit.
func places(r *Rng, w []uint64, v uint64, n int) (at []int) {
	m := ^uint64(0) >> uint(64-n)
	step := uint(1)
	if n <= 16 {
		step = 8
	}
	o := r.Intn(len(w) + 1)
	for k := range w {
		i := (k + o) % len(w)
		for s := uint(0); s < 64; s += step {
			x := w[i] >> s
			if s > 0 && i+1 < len(w) {
				x |= w[i+1] << (64 - s)
			}
			if x&m == v&m {
				at = append(at, i*64+int(s))
				if len(at) >= 12 {
					return
				}
			}
		}
	}
	return
}

func put(w []uint64, at int, v uint64, n int) {
	m := ^uint64(0) >> uint(64-n)
	i, s := at/64, uint(at%64)
	w[i] = w[i]&^(m<<s) | v&m<<s
	if s > 0 && i+1 < len(w) {
		w[i+1] = w[i+1]&^(m>>(64-s)) | v&m>>(64-s)
	}
}

func (c *Ctx) runGuided(name string, n int, f func(*T)) {
	g := c.guide
	if g.counting {
		g.n++
		return
	}
	t := newT(c, name)
	r := NewRng(caseSeed(c.Seed, c.Prop, name, -1))
	var corpus [][]uint64
	cases, kept, subst := 0, 0, 0
	end := time.Now().Add(g.budget)
	over := func() bool { return time.Now().After(end) || c.nviol.Load() >= 3 }
	run := func(w []uint64) (tape []uint64, open []sancov.Cmp) {
		tp := &Tape{w: append([]uint64(nil), w...)}
		c.tapeNow = tp
		t.tape = tp
		t.seedNow = r.U64()
		sancov.Begin()
		t.one(f, n)
		cmps := sancov.End()
		c.ncases.Add(1)
		cases++
		tape = tp.w
		if tp.pos < len(tape) {
			tape = tape[:tp.pos]
		}
		novel, open := g.merge(r, cmps)
		if novel && len(tape) < 5000 {
			kept++
			if len(corpus) < 400 {
				corpus = append(corpus, tape)
			} else {
				corpus[r.Intn(len(corpus))] = tape
			}
		}
		return tape, open
	}
	var explore func(w []uint64, depth int)
	explore = func(w []uint64, depth int) {
		tape, open := run(w)
		if depth >= 6 {
			return
		}
		for _, x := range open {
			if over() {
				return
			}
			k := [2]uint64{uint64(x.PC)<<8 | uint64(x.Size), x.A}
			if g.best[k] == 0 {
				continue
			}
			for dir := 0; dir < 2; dir++ {
				from, to := x.B, x.A
				if dir == 1 {
					from, to = x.A, x.B
				}
				ns := []int{8 * int(x.Size)}
				if x.Size >= 4 { // limbs are narrower than words
					for _, k := range []int{21, 25, 26, 51, 52} {
						if k < ns[0] && bits.Len64(from) <= k && bits.Len64(to) <= k {
							ns = append(ns, k)
							break
						}
					}
				}
				for _, nb := range ns {
					if nb < 16 && dir == 1 || nb >= 16 && bits.Len64(from) < 10 {
						continue
					}
					for _, at := range places(r, tape, from, nb) {
						g.tries[k]++
						subst++
						y := append([]uint64(nil), tape...)
						put(y, at, to, nb)
						explore(y, depth+1)
						if over() || g.best[k] == 0 {
							break
						}
					}
				}
			}
		}
	}
	for !over() {
		if len(corpus) == 0 || r.Intn(4) == 0 {
			explore(nil, 0)
			continue
		}
		i := r.Intn(len(corpus))
		if r.Bool() { // a recent one
			i = len(corpus) - 1 - r.Intn(min(len(corpus), 8))
		}
		w := append([]uint64(nil), corpus[i]...)
		for k := 1 + r.Intn(3); k > 0 && len(w) > 0; k-- {
			j := r.Intn(len(w))
			switch r.Intn(7) {
			case 0:
				w[j] = r.U64()
			case 1:
				w[j] ^= 1 << uint(r.Intn(64))
			case 2:
				s := uint(8 * r.Intn(8))
				w[j] = w[j]&^(0xff<<s) | r.U64()&0xff<<s
			case 3:
				w[j] = uint64(r.Intn(300))
			case 4:
				w[j] += uint64(r.Intn(5)) - 2
			case 5:
				w[j] = w[r.Intn(len(w))]
			case 6:
				o := corpus[r.Intn(len(corpus))]
				if len(o) > j {
					copy(w[j:], o[j:min(len(o), j+1+r.Intn(8))])
				}
			}
		}
		explore(w, 0)
	}
	c.tapeNow, t.tape = nil, nil
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counters["guided cases"] += int64(cases)
	c.res.Counters["tapes kept"] += int64(kept)
	c.res.Counters["operands of comparisons put in place"] += int64(subst)
	for h := range t.seen {
		if len(c.seen) < 4000000 {
			c.seen[h] = struct{}{}
		}
	}
	c.res.Checks += t.checks
	c.res.Workloads[name] += int64(cases)
	if len(c.res.Samples) < 12 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("%s: %d guided cases, %d kept", name, cases, kept))
	}
}

// Open lists the comparisons that never met with equality.
func (g *guide) Open() (l []string) {
	for k, d := range g.best {
		if d > 0 {
			l = append(l, fmt.Sprintf("pc=%x size=%d const=%x distance=%d tries=%d", k[0]>>8, k[0]&255, k[1], d, g.tries[k]))
		}
	}
	return
}
