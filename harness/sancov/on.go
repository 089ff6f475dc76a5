//go:build libfuzzer

// Package sancov gives access to the coverage counters and the traced
// comparisons of code compiled with -d=libfuzzer.
package sancov

/*
#include <stdint.h>
#include "hooks.h"
*/
import "C"

import "unsafe"

const Available = true

// Cmp is a comparison that was executed.
type Cmp struct {
	A, B     uint64
	Size, PC uint32
}

func Counters() []byte {
	n := uintptr(unsafe.Pointer(C.vp_end)) - uintptr(unsafe.Pointer(C.vp_start))
	return unsafe.Slice((*byte)(unsafe.Pointer(C.vp_start)), n)
}

// Begin clears everything.
func Begin() {
	c := Counters()
	for i := range c {
		c[i] = 0
	}
	C.vp_n = 0
	C.vp_on = 1
}

// End stops recording and returns the comparisons (the last ones, if many).
func End() []Cmp {
	C.vp_on = 0
	n := int(C.vp_n)
	if n > C.VP_RING {
		n = C.VP_RING
	}
	return (*[C.VP_RING]Cmp)(unsafe.Pointer(&C.vp_ring[0]))[:n:n]
}
