//go:build valgrind

// Command ct runs the secret-handling operations under valgrind's memcheck
// with every secret marked as undefined: memcheck then reports each branch
// and each memory access that depends on a secret.
package main

/*
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
static void mk_undef(unsigned long p, unsigned long n) { VALGRIND_MAKE_MEM_UNDEFINED((void *)p, n); }
static void mk_def(unsigned long p, unsigned long n) { VALGRIND_MAKE_MEM_DEFINED((void *)p, n); }
static unsigned long n_errors(void) { return VALGRIND_COUNT_ERRORS; }
static int running(void) { return RUNNING_ON_VALGRIND; }
static void say(const char *s) { VALGRIND_PRINTF("OP %s\n", s); }
static long undef_bits(unsigned long p, unsigned long n) {
	static unsigned char v[1 << 16];
	if (n > sizeof v) n = sizeof v;
	if (VALGRIND_GET_VBITS((void *)p, v, n) != 1) return -1;
	VALGRIND_MAKE_MEM_DEFINED(v, n);
	long r = 0;
	for (unsigned long i = 0; i < n; i++) r += __builtin_popcount(v[i]);
	return r;
}
*/
import "C"

import "unsafe"

type mem struct {
	p unsafe.Pointer
	n uintptr
}

func of[T any](x *T) mem { return mem{unsafe.Pointer(x), unsafe.Sizeof(*x)} }
func ofSlice(b []byte) mem {
	if len(b) == 0 {
		return mem{}
	}
	return mem{unsafe.Pointer(&b[0]), uintptr(len(b))}
}

func (m mem) taint() { C.mk_undef(C.ulong(uintptr(m.p)), C.ulong(m.n)) }
func (m mem) clear() { C.mk_def(C.ulong(uintptr(m.p)), C.ulong(m.n)) }
func (m mem) tainted() int {
	return int(C.undef_bits(C.ulong(uintptr(m.p)), C.ulong(m.n)))
}
func errors() int   { return int(C.n_errors()) }
func running() bool { return C.running() != 0 }
func say(s string) {
	b := append([]byte(s), 0)
	C.say((*C.char)(unsafe.Pointer(&b[0])))
}
