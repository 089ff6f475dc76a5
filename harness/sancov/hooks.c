//go:build libfuzzer
// The coverage and comparison hooks of the Go compiler's libfuzzer mode.
#include <stdint.h>
#include <stddef.h>
#include "hooks.h"

uint8_t *vp_start, *vp_end;
struct vp_cmp vp_ring[VP_RING];
uint32_t vp_n;
uint32_t vp_on;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) { vp_start = a; vp_end = b; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {}
void __sanitizer_weak_hook_strcmp(void *pc, const char *a, const char *b, int r) {}

static void rec(uint64_t a, uint64_t b, uint32_t size, uintptr_t pc) {
  if (!vp_on) return;
  if (size >= 4 && a < 300 && b < 300) return; // counters of loops
  struct vp_cmp *r = &vp_ring[vp_n++ % VP_RING];
  r->a = a; r->b = b; r->size = size; r->pc = (uint32_t)pc;
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { rec(a, b, 1, PC); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { rec(a, b, 2, PC); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { rec(a, b, 4, PC); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { rec(a, b, 8, PC); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { rec(a, b, 1, PC); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { rec(a, b, 2, PC); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { rec(a, b, 4, PC); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { rec(a, b, 8, PC); }
