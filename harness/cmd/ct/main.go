package main

import "flag"

func flags() (seed uint64, rounds int, only, dir string) {
	flag.Uint64Var(&seed, "seed", 1, "seed")
	flag.IntVar(&rounds, "rounds", 3, "values per operation")
	flag.StringVar(&only, "op", "", "only this operation")
	flag.StringVar(&dir, "dir", "", "for counters that differ")
	flag.Parse()
	return
}
