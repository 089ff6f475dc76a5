//go:build !valgrind

package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/coverage"

	"verif.local/harness/mon"
)

// In this build nothing is tainted. The program is built with counters in
// every block of the library, and after each run of an operation on other
// secrets the counters have to be the same.

type mem struct{}

func of[T any](x *T) mem   { return mem{} }
func ofSlice(b []byte) mem { return mem{} }
func (m mem) taint()       {}

type recCov struct {
	Op      string `json:"op"`
	Runs    int    `json:"runs"`
	Classes int    `json:"classes"`
	Errors  int    `json:"errors"`
	// differed, but not each time
	Unsteady int      `json:"unsteady,omitempty"`
	Bytes    int      `json:"counter_bytes"`
	Panic    string   `json:"panic,omitempty"`
	Sample   string   `json:"sample,omitempty"`
	Dirs     []string `json:"dirs,omitempty"`
}

func counters() []byte {
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		fmt.Fprintln(os.Stderr, "no counters:", err)
		os.Exit(3)
	}
	// after the header come strings and arguments in the order of a map
	c := b.Bytes()
	const head = 32
	if len(c) < head+16 {
		fmt.Fprintln(os.Stderr, "counters of a format not known here")
		os.Exit(3)
	}
	at := head + 16 + int(binary.LittleEndian.Uint32(c[head+8:])) + int(binary.LittleEndian.Uint32(c[head+12:]))
	if at += -at & 3; at > len(c) {
		fmt.Fprintln(os.Stderr, "counters of a format not known here")
		os.Exit(3)
	}
	return append(append([]byte{}, c[head:head+8]...), c[at:]...)
}

func main() {
	seed, rounds, only, dir := flags()
	enc := json.NewEncoder(os.Stdout)
	s := new(state)
	orig := crand.Reader
	for i, o := range ops() {
		if only != "" && o.name != only {
			continue
		}
		rc := recCov{Op: o.name}
		type first struct {
			counters []byte
			k        int
			sample   string
		}
		seen := map[string]first{}
		runOne := func(k int) (c []byte, class, sample string) {
			r := mon.NewRng(seed*1000003 + uint64(i)*1009 + uint64(k))
			fill(s, &o, r)
			sample = fmt.Sprintf("p=%x s=%x f=%x b=%x bit=%d", s.P[0].Bytes(), s.S[0].Bytes(), s.F[0].Bytes(), s.B[0], s.Bit)
			class = fmt.Sprint(len(s.Data))
			crand.Reader = taintedReader{r}
			defer func() {
				crand.Reader = orig
				if x := recover(); x != nil {
					rc.Panic = fmt.Sprintf("%v (%s)", x, sample)
				}
			}()
			if err := coverage.ClearCounters(); err != nil {
				fmt.Fprintln(os.Stderr, "cannot clear counters:", err)
				os.Exit(3)
			}
			o.run(s)
			c = counters()
			if o.class != nil {
				class += " " + o.class(s)
			}
			return
		}
		for k := 0; k < rounds && rc.Panic == ""; k++ {
			c, class, sample := runOne(k)
			rc.Runs++
			rc.Bytes += len(c)
			f, ok := seen[class]
			if !ok {
				seen[class] = first{c, k, sample}
				continue
			}
			if !bytes.Equal(f.counters, c) {
				// the secrets only explain it if it happens each time: not the
				// first use of something or what a pool of memory had at hand
				a, b := map[string]bool{}, map[string]bool{}
				for n := 0; n < 6 && rc.Panic == ""; n++ {
					x, _, _ := runOne(f.k)
					y, _, _ := runOne(k)
					a[string(x)], b[string(y)] = true, true
				}
				both := false
				for x := range a {
					both = both || b[x]
				}
				if both {
					rc.Unsteady++
					continue
				}
				rc.Errors++
				if rc.Errors == 1 {
					rc.Sample = f.sample + " / " + sample
					for _, k := range []int{f.k, k} {
						if dir == "" {
							break
						}
						d := filepath.Join(dir, fmt.Sprintf("%d-%d", i, k))
						os.MkdirAll(d, 0o777)
						coverage.WriteMetaDir(d)
						runOne(k)
						coverage.WriteCountersDir(d)
						rc.Dirs = append(rc.Dirs, d)
					}
				}
			}
		}
		rc.Classes = len(seen)
		enc.Encode(&rc)
	}
}
