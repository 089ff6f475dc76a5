// Runs the functions of cref.h that handle secrets under valgrind's memcheck,
// with every bit of their operands marked undefined: memcheck then reports each
// conditional jump and each address that depends on them.
//
//   ct SEED ROUNDS [OP]   ->   one JSON line per operation
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>
#include "cref.h"

static unsigned long long rs;
static unsigned long long rnd(void) { // splitmix64
  unsigned long long z = (rs += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// operands
static fe25519 F[4];
static group_scalar S[4];
static group_ge G[4];
static unsigned char B[64];
static unsigned char bit;
static unsigned long long count; // public
// results
static fe25519 f;
static group_scalar s;
static group_ge g;
static unsigned char o32[32];
static signed char w[256];
static int ret;
static volatile int sink;
static volatile int table[256];

static void bytes(unsigned char *b, int n) {
  int k = rnd() % 6;
  for (int i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : rnd();
  if (k == 2) for (int i = 1; i < n; i++) b[i] = 0;
}

static void fill(void) {
  unsigned char b[64];
  for (int i = 0; i < 4; i++) {
    bytes(b, 32);
    fe25519_unpack(&F[i], b);
    bytes(b, 64);
    scalar_from64bytes(&S[i], b);
    bytes(b, 64);
    group_scalar k;
    scalar_from64bytes(&k, b);
    group_ge_scalarmult_base(&G[i], &k);
  }
  if (rnd() % 4 == 0) G[0] = group_ge_neutral;
  if (rnd() % 4 == 0) { S[1] = S[0]; F[1] = F[0]; G[1] = G[0]; }
  if (rnd() % 2) group_ge_pack(B, &G[0]); else bytes(B, 32);
  bytes(B + 32, 32);
  bit = rnd() & 1;
  count = 1 + rnd() % 4;
}

static const char *op;
#define OP(name, call, out) if (!strcmp(op, name)) { if (go) { call; } *p = &(out); *n = sizeof(out); return 1; }

static int run(int go, void **p, size_t *n) {
  OP("fe.unpack", fe25519_unpack(&f, B), f)
  OP("fe.pack", fe25519_pack(o32, &F[0]), o32)
  OP("fe.iszero", ret = fe25519_iszero(&F[0]), ret)
  OP("fe.isone", ret = fe25519_isone(&F[0]), ret)
  OP("fe.isnegative", ret = fe25519_isnegative(&F[0]), ret)
  OP("fe.getparity", ret = fe25519_getparity(&F[0]), ret)
  OP("fe.iseq", ret = fe25519_iseq(&F[0], &F[1]), ret)
  OP("fe.cmov", (f = F[0], fe25519_cmov(&f, &F[1], bit)), f)
  OP("fe.neg", fe25519_neg(&f, &F[0]), f)
  OP("fe.add", fe25519_add(&f, &F[0], &F[1]), f)
  OP("fe.double", fe25519_double(&f, &F[0]), f)
  OP("fe.triple", fe25519_triple(&f, &F[0]), f)
  OP("fe.sub", fe25519_sub(&f, &F[0], &F[1]), f)
  OP("fe.mul", fe25519_mul(&f, &F[0], &F[1]), f)
  OP("fe.square", fe25519_square(&f, &F[0]), f)
  OP("fe.square_double", fe25519_square_double(&f, &F[0]), f)
  OP("fe.invert", fe25519_invert(&f, &F[0]), f)
  OP("fe.pow2523", fe25519_pow2523(&f, &F[0]), f)
  OP("fe.invsqrt", fe25519_invsqrt(&f, &F[0]), f)
  OP("fe.invsqrti", ret = fe25519_invsqrti(&f, &F[0]), f)
  OP("fe.sqrti", ret = fe25519_sqrti(&f, &F[0]), f)
  OP("fe.sqrt", fe25519_sqrt(&f, &F[0]), f)
  OP("sc.unpack", ret = group_scalar_unpack(&s, B), s)
  OP("sc.pack", group_scalar_pack(o32, &S[0]), o32)
  OP("sc.add", group_scalar_add(&s, &S[0], &S[1]), s)
  OP("sc.sub", group_scalar_sub(&s, &S[0], &S[1]), s)
  OP("sc.negate", group_scalar_negate(&s, &S[0]), s)
  OP("sc.mul", group_scalar_mul(&s, &S[0], &S[1]), s)
  OP("sc.square", group_scalar_square(&s, &S[0]), s)
  OP("sc.invert", group_scalar_invert(&s, &S[0]), s)
  OP("sc.isone", ret = group_scalar_isone(&S[0]), ret)
  OP("sc.iszero", ret = group_scalar_iszero(&S[0]), ret)
  OP("sc.equals", ret = group_scalar_equals(&S[0], &S[1]), ret)
  OP("sc.tstbit", ret = scalar_tstbit(&S[0], 17), ret)
  OP("sc.window3", scalar_window3(w, &S[0]), w)
  OP("sc.window5", scalar_window5(w, &S[0]), w)
  OP("sc.from64bytes", scalar_from64bytes(&s, B), s)
  OP("ge.unpack", ret = group_ge_unpack(&g, B), g)
  OP("ge.pack", group_ge_pack(o32, &G[0]), o32)
  OP("ge.add", group_ge_add(&g, &G[0], &G[1]), g)
  OP("ge.double", group_ge_double(&g, &G[0]), g)
  OP("ge.negate", group_ge_negate(&g, &G[0]), g)
  OP("ge.scalarmult", group_ge_scalarmult(&g, &G[0], &S[0]), g)
  OP("ge.scalarmult_base", group_ge_scalarmult_base(&g, &S[0]), g)
  OP("ge.multiscalarmult", group_ge_multiscalarmult(&g, G, S, count), g)
  OP("ge.equals", ret = group_ge_equals(&G[0], &G[1]), ret)
  OP("ge.isneutral", ret = group_ge_isneutral(&G[0]), ret)
  OP("ge.elligator", group_ge_elligator(&g, &F[0]), g)
  OP("ge.jacobi", group_ge_from_jacobi_quartic(&g, &F[0], &F[1]), g)
  OP("control:branch", if (S[0].v[0] & 1) sink++; ret = S[0].v[0], ret)
  OP("control:index", ret = table[S[0].v[0] & 255], ret)
  return 0;
}

static const char *names[] = {"fe.unpack", "fe.pack", "fe.iszero", "fe.isone", "fe.isnegative", "fe.getparity", "fe.iseq", "fe.cmov", "fe.neg",
  "fe.add", "fe.double", "fe.triple", "fe.sub", "fe.mul", "fe.square", "fe.square_double", "fe.invert", "fe.pow2523", "fe.invsqrt",
  "fe.invsqrti", "fe.sqrti", "fe.sqrt", "sc.unpack", "sc.pack", "sc.add", "sc.sub", "sc.negate", "sc.mul", "sc.square", "sc.invert",
  "sc.isone", "sc.iszero", "sc.equals", "sc.tstbit", "sc.window3", "sc.window5", "sc.from64bytes", "ge.unpack",
  "ge.pack", "ge.add", "ge.double", "ge.negate", "ge.scalarmult", "ge.scalarmult_base", "ge.multiscalarmult", "ge.equals", "ge.isneutral",
  "ge.elligator", "ge.jacobi", "control:branch", "control:index"};

#define SECRETS(M) M(F, sizeof F); M(S, sizeof S); M(G, sizeof G); M(B, sizeof B); M(&bit, 1);
#define UNDEF(a, n) (void)VALGRIND_MAKE_MEM_UNDEFINED(a, n)
#define DEF(a, n) (void)VALGRIND_MAKE_MEM_DEFINED(a, n)

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not running under valgrind\n"); return 3; }
  unsigned long long seed = strtoull(argv[1], 0, 10);
  int rounds = atoi(argv[2]);
  for (size_t i = 0; i < sizeof names / sizeof *names; i++) {
    if (argc > 3 && strcmp(argv[3], names[i]) && strncmp(names[i], "control", 7)) continue;
    op = names[i];
    unsigned long errors = 0;
    long tainted = 0;
    for (int k = 0; k < rounds; k++) {
      rs = seed * 1000003 + i * 1009 + k;
      fill();
      void *p;
      size_t n;
      SECRETS(UNDEF)
      VALGRIND_PRINTF("OP %s run %d\n", op, k);
      unsigned long before = VALGRIND_COUNT_ERRORS;
      run(1, &p, &n);
      errors += VALGRIND_COUNT_ERRORS - before;
      VALGRIND_PRINTF("OP end\n");
      run(0, &p, &n);
      static unsigned char v[4096];
      if (VALGRIND_GET_VBITS(p, v, n) == 1) {
        DEF(v, n);
        for (size_t j = 0; j < n; j++) tainted += __builtin_popcount(v[j]);
      }
      DEF(p, n);
      DEF(&ret, sizeof ret);
      DEF((void *)&sink, sizeof sink);
      SECRETS(DEF)
    }
    printf("{\"op\":\"%s\",\"runs\":%d,\"errors\":%lu,\"tainted_output_bits\":%ld}\n", op, rounds, errors, tainted);
    fflush(stdout);
  }
  return 0;
}
