// Command monitor runs the workloads of one property against the real code
// while the oracle of that property watches every result.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif.local/harness/mon"
	"verif.local/harness/ref"
)

var props = map[string]func(*mon.Ctx){}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	config := flag.String("config", "default", "name of the build configuration")
	seed := flag.Uint64("seed", 1, "seed of every random choice")
	out := flag.String("out", "-", "where the result goes")
	replay := flag.String("replay", "", "replay the violation in this file")
	guide := flag.Duration("guide", 0, "run under guidance for this long")
	child := flag.String("child", "", "internal: run as a subprocess workload")
	flag.IntVar(&mon.Divide, "divide", 1, "shorten quick workloads (development only)")
	flag.Parse()
	if *child != "" {
		runChild(*child)
		return
	}
	var v mon.Violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *config = v.Property, v.Tier, v.Seed, v.Config
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	mon.SetOut(*out)
	c := mon.New(*prop, *config, *tier, *seed)
	if *replay != "" {
		c.Only, c.OnlyIdx, c.Tape = v.Workload, v.Index, v.Tape
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, "the oracle is broken:", err)
		os.Exit(2)
	}
	if *guide > 0 {
		c.Guide(f, *guide)
	} else {
		f(c)
	}
	c.Finish(*out)
}
