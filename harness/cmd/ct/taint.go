//go:build valgrind

package main

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"os"

	"verif.local/harness/mon"
)

type rec struct {
	Op      string `json:"op"`
	Runs    int    `json:"runs"`
	Errors  int    `json:"errors"`
	Tainted int    `json:"tainted_output_bits"`
	Bad     []int  `json:"bad_runs,omitempty"`
	Panic   string `json:"panic,omitempty"`
	Sample  string `json:"sample,omitempty"`
	Outcome bool   `json:"outcome"` // may reveal its boolean result
}

func mainTaint(seed uint64, rounds int, only string) {
	enc := json.NewEncoder(os.Stdout)
	if !running() {
		fmt.Fprintln(os.Stderr, "not running under valgrind")
		os.Exit(3)
	}
	s := new(state)
	for i, o := range ops() {
		if o.class != nil && !o.taintToo {
			continue // a matter for the differential monitor
		}
		if only != "" && o.name != only && o.name[:7] != "control" {
			continue
		}
		rc := rec{Op: o.name, Outcome: o.taintToo}
		for k := 0; k < rounds; k++ {
			r := mon.NewRng(seed*1000003 + uint64(i)*1009 + uint64(k))
			fill(s, &o, r)
			sample := fmt.Sprintf("p=%x s=%x f=%x b=%x", s.P[0].Bytes(), s.S[0].Bytes(), s.F[0].Bytes(), s.B[0])
			secrets := []mem{of(&s.P), of(&s.S), of(&s.F), of(&s.N), of(&s.B), of(&s.B64), of(&s.Liz), of(&s.Bit), ofSlice(s.Data)}
			if o.name == "Point.LizardInto" || o.name == "Point.Lizard" {
				secrets = append(secrets, of(&s.OP))
			}
			orig := crand.Reader
			crand.Reader = taintedReader{r}
			for _, x := range secrets {
				x.taint()
			}
			say(fmt.Sprintf("%s run %d %s", o.name, k, sample))
			before := errors()
			func() {
				defer func() {
					if x := recover(); x != nil {
						rc.Panic = fmt.Sprint(x)
					}
				}()
				o.run(s)
			}()
			d := errors() - before
			for _, x := range o.out(s) {
				if x.n > 0 {
					rc.Tainted += x.tainted()
					x.clear()
				}
			}
			for _, x := range secrets {
				x.clear()
			}
			crand.Reader = orig
			say("end")
			rc.Runs++
			rc.Errors += d
			if d > 0 {
				rc.Bad = append(rc.Bad, k)
			}
			if k == 0 {
				rc.Sample = sample
			}
		}
		enc.Encode(&rc)
	}
}

func main() {
	seed, rounds, only, _ := flags()
	mainTaint(seed, rounds, only)
}
