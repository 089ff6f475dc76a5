//go:build !libfuzzer

package sancov

const Available = false

type Cmp struct {
	A, B     uint64
	Size, PC uint32
}

func Counters() []byte { return nil }
func Begin()           {}
func End() []Cmp       { return nil }
