package main

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"verif.local/harness/mon"
	"verif.local/harness/sut"
)

// faulty is a source of randomness that fails after a number of bytes.
type faulty struct {
	r    *mon.Rng
	left int
	err  error
	step int  // bytes per call at most; 0 for any
	full bool // all or nothing
	both bool // the last bytes come together with the error
}

func (f *faulty) Read(b []byte) (int, error) {
	n := len(b)
	if f.step > 0 && n > f.step {
		n = f.step
	}
	if f.full && n > f.left {
		return 0, f.err // all or nothing
	}
	short := n > f.left
	if short {
		n = f.left
	}
	copy(b, f.r.Bytes(n))
	f.left -= n
	if n == 0 && len(b) > 0 || short && f.both {
		return n, f.err
	}
	return n, nil
}

// runChild is a subprocess: generate a value from a failing source.
// It prints VALUE if the library returns normally.
func runChild(arg string) {
	f := strings.Split(arg, ":")
	if f[0] == "cold" && len(f) == 4 {
		i, _ := strconv.Atoi(f[1])
		kind, _ := strconv.Atoi(f[2])
		seed, _ := strconv.ParseUint(f[3], 10, 64)
		e, r := coldEnv(kind, seed)
		fmt.Printf("%x", apiCalls()[i].call(e, r))
		return
	}
	if f[0] == "traces" && len(f) == 3 {
		i, _ := strconv.Atoi(f[1])
		seed, _ := strconv.ParseUint(f[2], 10, 64)
		watchTraces(i, seed)
		return
	}
	// what, bytes before the failure, step, error, full
	if len(f) != 5 {
		os.Exit(3)
	}
	left, _ := strconv.Atoi(f[1])
	step, _ := strconv.Atoi(f[2])
	src := &faulty{r: mon.NewRng(99), left: left, step: step, full: f[4] == "full", both: f[4] == "both"}
	src.err = errors.New("injected failure")
	if f[3] == "eof" {
		src.err = io.EOF
	}
	crand.Reader = src
	fmt.Println("START")
	defer func() {
		if x := recover(); x != nil {
			fmt.Println("PANIC", x)
			os.Exit(4)
		}
	}()
	switch f[0] {
	case "point":
		p := new(sut.Point)
		q := p.Rand()
		fmt.Printf("VALUE %x\n", q.Bytes())
	case "scalar":
		s := new(sut.Sc)
		q := s.Rand()
		fmt.Printf("VALUE %x\n", q.Bytes())
	default:
		os.Exit(3)
	}
}
