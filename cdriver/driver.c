// Runs the functions of cref.h on operands read from stdin, one call per
// line, and writes the results to stdout.  Built with sanitizers; operands and
// results live in heap blocks of exactly their size, so that every access
// outside of them is seen.
//
//   name alias style hexarg...   ->   name result...
//
// alias: 0 the result has its own memory, 1 it is the first operand, 2 the
// second.  style: one decimal digit per field element, how its limbs are made.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cref.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECKINIT(p, n) __msan_check_mem_is_initialized((p), (n))
#endif
#endif
#ifndef CHECKINIT
#define CHECKINIT(p, n) ((void)0)
#endif

static char *args[4096];
static int nargs;
static int mutated;

static unsigned char *hex(int i, size_t n) {
  if (i >= nargs) { fprintf(stderr, "driver: missing argument\n"); exit(90); }
  const char *s = args[i];
  if (strlen(s) != 2 * n) { fprintf(stderr, "driver: bad argument %s\n", s); exit(90); }
  unsigned char *r = malloc(n ? n : 1);
  for (size_t k = 0; k < n; k++) {
    unsigned v = 0;
    for (int j = 0; j < 2; j++) {
      char c = s[2 * k + j];
      v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
    }
    r[k] = v;
  }
  return r;
}

static void put(const void *p, size_t n) {
  const unsigned char *b = p;
  CHECKINIT(p, n);
  putchar(' ');
  for (size_t i = 0; i < n; i++) printf("%02x", b[i]);
}
static void puti(long long x) { CHECKINIT(&x, sizeof x); printf(" %lld", x); }

#define NEW(T) ((T *)calloc(1, sizeof(T)))

// fresh memory for a result: garbage that is legal to overwrite
static fe25519 *newfe(void) {
  fe25519 *r = malloc(sizeof *r);
#if !defined(__has_feature)
  memset(r, 0x5a, sizeof *r);
#elif !__has_feature(memory_sanitizer)
  memset(r, 0x5a, sizeof *r);
#endif
  return r;
}
static group_scalar *newsc(void) {
  group_scalar *r = malloc(sizeof *r);
#if !defined(__has_feature)
  memset(r, 0x5a, sizeof *r);
#elif !__has_feature(memory_sanitizer)
  memset(r, 0x5a, sizeof *r);
#endif
  return r;
}
static group_ge *newge(void) {
  group_ge *r = malloc(sizeof *r);
#if !defined(__has_feature)
  memset(r, 0x5a, sizeof *r);
#elif !__has_feature(memory_sanitizer)
  memset(r, 0x5a, sizeof *r);
#endif
  return r;
}

// the same field element with other limbs
static void style(fe25519 *f, char st) {
  static const unsigned char k[32] = {0xec, 0xff, 0xff, 0x81, 0x7f, 0x80, 0xff, 0x01, 0xaa, 0x55, 0xff, 0xff,
    0xff, 0x7f, 0x00, 0x80, 0xff, 0xfe, 0xff, 0xff, 0x3f, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x11, 0x22, 0x33};
  fe25519 a, b, t;
  switch (st) {
  case '1': // a product
    a = fe25519_one;
    t = *f;
    fe25519_mul(f, &t, &a);
    break;
  case '2': // a negation
    t = *f;
    fe25519_neg(&a, &t);
    fe25519_mul(&b, &a, &fe25519_one);
    fe25519_neg(f, &b);
    break;
  case '3': // a difference: limbs up to twice as big
    fe25519_unpack(&b, k);
    fe25519_add(&a, f, &b);
    fe25519_mul(&a, &a, &fe25519_one);
    fe25519_sub(f, &a, &b);
    break;
  case '4': // a sum
    fe25519_unpack(&b, k);
    fe25519_sub(&a, f, &b);
    fe25519_mul(&a, &a, &fe25519_one);
    fe25519_add(f, &a, &b);
    break;
  }
}

static fe25519 *fe(int i, char st) {
  unsigned char *b = hex(i, 32);
  fe25519 *r = NEW(fe25519);
  fe25519_unpack(r, b);
  free(b);
  style(r, st);
  return r;
}
static group_scalar *sc(int i) {
  unsigned char *b = hex(i, 32);
  group_scalar *r = NEW(group_scalar);
  for (int k = 0; k < 32; k++) r->v[k] = b[k];
  free(b);
  return r;
}
static group_ge *ge(int i, char st) {
  unsigned char *b = hex(i, 128);
  group_ge *r = NEW(group_ge);
  fe25519_unpack(&r->x, b);
  fe25519_unpack(&r->y, b + 32);
  fe25519_unpack(&r->z, b + 64);
  fe25519_unpack(&r->t, b + 96);
  style(&r->x, st); style(&r->y, st); style(&r->z, st); style(&r->t, st);
  free(b);
  return r;
}
static void putfe(const fe25519 *f) {
  unsigned char *b = malloc(32);
  CHECKINIT(f, sizeof *f);
  fe25519_pack(b, f);
  put(b, 32);
  free(b);
}
static void putge(const group_ge *g) { putfe(&g->x); putfe(&g->y); putfe(&g->z); putfe(&g->t); }
static void putsc(const group_scalar *s) {
  CHECKINIT(s, sizeof *s);
  unsigned char b[32];
  for (int i = 0; i < 32; i++) {
    if (s->v[i] > 255) { puti(-1); return; }
    b[i] = s->v[i];
  }
  put(b, 32);
}

typedef struct { const void *p; size_t n; void *copy; } guard;
static guard guards[4096];
static int nguards;
static void watch(const void *p, size_t n) {
  guards[nguards].p = p; guards[nguards].n = n;
  guards[nguards].copy = malloc(n ? n : 1);
  memcpy(guards[nguards].copy, p, n);
  nguards++;
}
static void unwatch(const void *except) {
  for (int i = 0; i < nguards; i++) {
    if (guards[i].p != except && memcmp(guards[i].p, guards[i].copy, guards[i].n)) mutated = 1;
    free(guards[i].copy);
  }
  nguards = 0;
}

#define IS(s) (!strcmp(op, s))

#define FE1(name, call) \
  if (IS(name)) { \
    fe25519 *x = fe(0, st[0]), *r = alias == 1 ? x : newfe(); \
    watch(x, sizeof *x); call(r, x); unwatch(r); putfe(r); \
    if (r != x) free(r); free(x); return 1; }
#define FE1I(name, call) \
  if (IS(name)) { \
    fe25519 *x = fe(0, st[0]), *r = alias == 1 ? x : newfe(); \
    watch(x, sizeof *x); int ret = call(r, x); unwatch(r); putfe(r); puti(ret); \
    if (r != x) free(r); free(x); return 1; }
#define FE2(name, call) \
  if (IS(name)) { \
    fe25519 *x = fe(0, st[0]), *y = fe(1, st[1]), *r = alias == 1 ? x : alias == 2 ? y : newfe(); \
    watch(x, sizeof *x); watch(y, sizeof *y); call(r, x, y); unwatch(r); putfe(r); \
    if (alias == 0) free(r); free(x); free(y); return 1; }
#define FEP(name, call) \
  if (IS(name)) { fe25519 *x = fe(0, st[0]); watch(x, sizeof *x); int ret = call(x); unwatch(0); puti(ret); free(x); return 1; }
#define FEP2(name, call) \
  if (IS(name)) { fe25519 *x = fe(0, st[0]), *y = fe(1, st[1]); watch(x, sizeof *x); watch(y, sizeof *y); \
    int ret = call(x, y); unwatch(0); puti(ret); free(x); free(y); return 1; }
#define SC1(name, call) \
  if (IS(name)) { \
    group_scalar *x = sc(0), *r = alias == 1 ? x : newsc(); \
    watch(x, sizeof *x); call(r, x); unwatch(r); putsc(r); \
    if (r != x) free(r); free(x); return 1; }
#define SC2(name, call) \
  if (IS(name)) { \
    group_scalar *x = sc(0), *y = sc(1), *r = alias == 1 ? x : alias == 2 ? y : newsc(); \
    watch(x, sizeof *x); watch(y, sizeof *y); call(r, x, y); unwatch(r); putsc(r); \
    if (alias == 0) free(r); free(x); free(y); return 1; }
#define GE1(name, call) \
  if (IS(name)) { \
    group_ge *x = ge(0, st[0]), *r = alias == 1 ? x : newge(); \
    watch(x, sizeof *x); call(r, x); unwatch(r); putge(r); \
    if (r != x) free(r); free(x); return 1; }
#define GE2(name, call) \
  if (IS(name)) { \
    group_ge *x = ge(0, st[0]), *y = ge(1, st[1]), *r = alias == 1 ? x : alias == 2 ? y : newge(); \
    watch(x, sizeof *x); watch(y, sizeof *y); call(r, x, y); unwatch(r); putge(r); \
    if (alias == 0) free(r); free(x); free(y); return 1; }
#define GEP(name, call) \
  if (IS(name)) { group_ge *x = ge(0, st[0]); watch(x, sizeof *x); int ret = call(x); unwatch(0); puti(ret); free(x); return 1; }
#define GEP2(name, call) \
  if (IS(name)) { group_ge *x = ge(0, st[0]), *y = ge(1, st[1]); watch(x, sizeof *x); watch(y, sizeof *y); \
    int ret = call(x, y); unwatch(0); puti(ret); free(x); free(y); return 1; }
#define GESC(name, call) \
  if (IS(name)) { \
    group_ge *x = ge(0, st[0]), *r = alias == 1 ? x : newge(); group_scalar *s = sc(1); \
    watch(x, sizeof *x); watch(s, sizeof *s); call(r, x, s); unwatch(r); putge(r); \
    if (r != x) free(r); free(x); free(s); return 1; }
#define BASE(name, call) \
  if (IS(name)) { group_ge *r = newge(); group_scalar *s = sc(0); \
    watch(s, sizeof *s); call(r, s); unwatch(0); putge(r); free(r); free(s); return 1; }
#define MULTI(name, call) \
  if (IS(name)) { int n = nargs / 2; \
    group_ge *x = malloc(n * sizeof *x + !n), *r = newge(); group_scalar *s = malloc(n * sizeof *s + !n); \
    for (int i = 0; i < n; i++) { group_ge *g = ge(2 * i, st[0]); x[i] = *g; free(g); group_scalar *k = sc(2 * i + 1); s[i] = *k; free(k); } \
    watch(x, n * sizeof *x); watch(s, n * sizeof *s); call(r, x, s, n); unwatch(0); putge(r); free(r); free(x); free(s); return 1; }

static int run(const char *op, int alias, const char *st) {
  FE1("fe.neg", fe25519_neg)
  FE1("fe.double", fe25519_double)
  FE1("fe.triple", fe25519_triple)
  FE1("fe.square", fe25519_square)
  FE1("fe.square_double", fe25519_square_double)
  FE1("fe.invert", fe25519_invert)
  FE1("fe.pow2523", fe25519_pow2523)
  FE1("fe.sqrt", fe25519_sqrt)
  FE1("fe.invsqrt", fe25519_invsqrt)
  FE1I("fe.sqrti", fe25519_sqrti)
  FE1I("fe.invsqrti", fe25519_invsqrti)
  FE2("fe.add", fe25519_add)
  FE2("fe.sub", fe25519_sub)
  FE2("fe.mul", fe25519_mul)
  FEP("fe.iszero", fe25519_iszero)
  FEP("fe.isone", fe25519_isone)
  FEP("fe.isnegative", fe25519_isnegative)
  FEP("fe.getparity", fe25519_getparity)
  FEP2("fe.iseq", fe25519_iseq)
  FEP2("fe.iseq_vartime", fe25519_iseq_vartime)
  if (IS("fe.unpack")) {
    unsigned char *b = hex(0, 32), *o = malloc(32);
    fe25519 *r = newfe();
    watch(b, 32);
    fe25519_unpack(r, b);
    unwatch(0);
    watch(r, sizeof *r);
    fe25519_pack(o, r);
    unwatch(0);
    put(o, 32);
    free(b); free(o); free(r);
    return 1;
  }
  if (IS("fe.cmov")) {
    fe25519 *r = fe(0, st[0]), *x = fe(1, st[1]);
    watch(x, sizeof *x);
    fe25519_cmov(r, x, alias);
    unwatch(0);
    putfe(r);
    free(r); free(x);
    return 1;
  }
  if (IS("fe.const")) {
    fe25519 *r = newfe();
    putfe(&fe25519_zero); putfe(&fe25519_one); putfe(&fe25519_two); putfe(&fe25519_sqrtm1); putfe(&fe25519_msqrtm1); putfe(&fe25519_m1);
    fe25519_setone(r);
    putfe(r);
    free(r);
    r = newfe();
    fe25519_setzero(r);
    putfe(r);
    free(r);
    return 1;
  }
  SC1("sc.negate", group_scalar_negate)
  SC1("sc.square", group_scalar_square)
  SC1("sc.invert", group_scalar_invert)
  SC2("sc.add", group_scalar_add)
  SC2("sc.sub", group_scalar_sub)
  SC2("sc.mul", group_scalar_mul)
  if (IS("sc.unpack")) {
    unsigned char *b = hex(0, 32), *o = malloc(32);
    group_scalar *r = newsc();
    watch(b, 32);
    int ret = group_scalar_unpack(r, b);
    unwatch(0);
    putsc(r);
    watch(r, sizeof *r);
    group_scalar_pack(o, r);
    unwatch(0);
    put(o, 32);
    puti(ret);
    free(b); free(o); free(r);
    return 1;
  }
  if (IS("sc.from64")) {
    unsigned char *b = hex(0, 64);
    group_scalar *r = newsc();
    watch(b, 64);
    scalar_from64bytes(r, b);
    unwatch(0);
    putsc(r);
    free(b); free(r);
    return 1;
  }
  if (IS("sc.const")) {
    group_scalar *r = newsc();
    putsc(&group_scalar_zero); putsc(&group_scalar_one);
    group_scalar_setone(r);
    putsc(r);
    free(r);
    r = newsc();
    group_scalar_setzero(r);
    putsc(r);
    free(r);
    return 1;
  }
  if (IS("sc.pred")) {
    group_scalar *x = sc(0), *y = sc(1);
    watch(x, sizeof *x); watch(y, sizeof *y);
    puti(group_scalar_isone(x)); puti(group_scalar_iszero(x)); puti(group_scalar_equals(x, y)); puti(scalar_bitlen(x));
    unwatch(0);
    free(x); free(y);
    return 1;
  }
  if (IS("sc.bits")) {
    group_scalar *x = sc(0);
    unsigned char o[256];
    watch(x, sizeof *x);
    for (unsigned i = 0; i < 256; i++) o[i] = scalar_tstbit(x, i);
    unwatch(0);
    put(o, 256);
    free(x);
    return 1;
  }
  if (IS("sc.window3")) {
    group_scalar *x = sc(0);
    signed char *w = malloc(85);
    watch(x, sizeof *x);
    scalar_window3(w, x);
    unwatch(0);
    put(w, 85);
    free(x); free(w);
    return 1;
  }
  if (IS("sc.window5")) {
    group_scalar *x = sc(0);
    signed char *w = malloc(51);
    watch(x, sizeof *x);
    scalar_window5(w, x);
    unwatch(0);
    put(w, 51);
    free(x); free(w);
    return 1;
  }
  if (IS("sc.slide")) {
    group_scalar *x = sc(0);
    signed char *w = malloc(256);
    watch(x, sizeof *x);
    scalar_slide(w, x, alias); // the window size
    unwatch(0);
    put(w, 256);
    free(x); free(w);
    return 1;
  }
  GE1("ge.double", group_ge_double)
  GE1("ge.negate", group_ge_negate)
  GE1("ge.double_pub", group_ge_double_publicinputs)
  GE1("ge.negate_pub", group_ge_negate_publicinputs)
  GE2("ge.add", group_ge_add)
  GE2("ge.add_pub", group_ge_add_publicinputs)
  GEP("ge.isneutral", group_ge_isneutral)
  GEP("ge.isneutral_pub", group_ge_isneutral_publicinputs)
  GEP2("ge.equals", group_ge_equals)
  GEP2("ge.equals_pub", group_ge_equals_publicinputs)
  GESC("ge.scalarmult", group_ge_scalarmult)
  GESC("ge.scalarmult_pub", group_ge_scalarmult_publicinputs)
  BASE("ge.scalarmult_base", group_ge_scalarmult_base)
  BASE("ge.scalarmult_base_pub", group_ge_scalarmult_base_publicinputs)
  MULTI("ge.multiscalarmult", group_ge_multiscalarmult)
  MULTI("ge.multiscalarmult_pub", group_ge_multiscalarmult_publicinputs)
  if (IS("ge.const")) {
    putge(&group_ge_base); putge(&group_ge_neutral);
    return 1;
  }
  if (IS("ge.pack")) {
    group_ge *x = ge(0, st[0]);
    unsigned char *o = malloc(32);
    watch(x, sizeof *x);
    group_ge_pack(o, x);
    unwatch(0);
    put(o, 32);
    free(x); free(o);
    return 1;
  }
  if (IS("ge.unpack")) {
    unsigned char *b = hex(0, 32);
    group_ge *r = newge();
    watch(b, 32);
    int ret = group_ge_unpack(r, b);
    unwatch(0);
    puti(ret);
    putge(r);
    free(b); free(r);
    return 1;
  }
  if (IS("ge.elligator")) {
    fe25519 *x = fe(0, st[0]);
    group_ge *r = newge();
    watch(x, sizeof *x);
    group_ge_elligator(r, x);
    unwatch(0);
    putge(r);
    free(x); free(r);
    return 1;
  }
  if (IS("ge.jacobi")) {
    fe25519 *s = fe(0, st[0]), *t = fe(1, st[1]);
    group_ge *r = newge();
    watch(s, sizeof *s); watch(t, sizeof *t);
    group_ge_from_jacobi_quartic(r, s, t);
    unwatch(0);
    putge(r);
    free(s); free(t); free(r);
    return 1;
  }
  return 0;
}

int main(void) {
  static char line[1 << 20];
  while (fgets(line, sizeof line, stdin)) {
    char *op = strtok(line, " \n"), *al = strtok(0, " \n"), *st = strtok(0, " \n");
    if (!op || !al || !st) { fprintf(stderr, "driver: bad line\n"); return 90; }
    nargs = 0;
    for (char *p; (p = strtok(0, " \n"));) args[nargs++] = p;
    printf("%s", op);
    mutated = 0;
    if (!run(op, atoi(al), st)) { fprintf(stderr, "driver: unknown op %s\n", op); return 90; }
    if (mutated) printf(" MUTATED");
    putchar('\n');
    fflush(stdout);
  }
  return 0;
}
