// Calls the functions of cref.h in many orders, on many threads, and compares
// what they give with what they gave in a process of their own.
//
//   conc prepare FILE SEED SETS          operands, and the results of calls one after the other
//   conc cold FILE OP                    the first calls of a process
//   conc first FILE SEED THREADS OP      the first calls of a process, on several threads
//   conc history FILE SEED MS [OP]       other orders, reused memory, garbage in receivers, many calls
//   conc threads FILE SEED THREADS MS    all of them on several threads (built with and without TSan)
//   conc control                         a race on purpose, which TSan has to report
//
// One JSON line per operation. Nothing but the start synchronises the threads.
#define _GNU_SOURCE
#include <malloc.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "cref.h"

typedef unsigned long long u64;
static u64 next(u64 *s) { // splitmix64
  u64 z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

typedef struct {
  fe25519 F[4];
  group_scalar S[5];
  group_ge G[5];
  unsigned char B[64];
  unsigned char bit;
  u64 count;
} set;

typedef struct {
  fe25519 f;
  group_scalar s;
  group_ge g;
  unsigned char o32[32];
  signed char w[256];
  int ret;
} res;

#define DIGEST 264
typedef struct { unsigned char b[DIGEST]; } digest;

// what a result stands for
static void dfe(const res *r, digest *d) { fe25519_pack(d->b, &r->f); }
static void dge(const res *r, digest *d) { group_ge_pack(d->b, &r->g); }
static void dsc(const res *r, digest *d) { group_scalar_pack(d->b, &r->s); }
static void dret(const res *r, digest *d) { memcpy(d->b, &r->ret, sizeof r->ret); }
static void dbool(const res *r, digest *d) { d->b[0] = r->ret != 0; }
static void do32(const res *r, digest *d) { memcpy(d->b, r->o32, 32); }
static void dw85(const res *r, digest *d) { memcpy(d->b, r->w, 85); }
static void dw51(const res *r, digest *d) { memcpy(d->b, r->w, 51); }
static void dw256(const res *r, digest *d) { memcpy(d->b, r->w, 256); }
static void dferet(const res *r, digest *d) { fe25519_pack(d->b, &r->f); d->b[32] = r->ret != 0; }
static void dunpack(const res *r, digest *d) { // a rejected string may leave anything
  d->b[32] = r->ret != 0;
  if (r->ret == 0) group_ge_pack(d->b, &r->g);
}

#define OPS(X) \
  X(fe_unpack, fe25519_unpack(&r->f, o->B), dfe) \
  X(fe_pack, fe25519_pack(r->o32, &o->F[0]), do32) \
  X(fe_iszero, r->ret = fe25519_iszero(&o->F[0]), dbool) \
  X(fe_isone, r->ret = fe25519_isone(&o->F[0]), dbool) \
  X(fe_isnegative, r->ret = fe25519_isnegative(&o->F[0]), dbool) \
  X(fe_getparity, r->ret = fe25519_getparity(&o->F[0]), dret) \
  X(fe_iseq, r->ret = fe25519_iseq(&o->F[0], &o->F[1]), dbool) \
  X(fe_iseq_vartime, r->ret = fe25519_iseq_vartime(&o->F[0], &o->F[1]), dbool) \
  X(fe_cmov, (r->f = o->F[0], fe25519_cmov(&r->f, &o->F[1], o->bit)), dfe) \
  X(fe_setone, fe25519_setone(&r->f), dfe) \
  X(fe_setzero, fe25519_setzero(&r->f), dfe) \
  X(fe_neg, fe25519_neg(&r->f, &o->F[0]), dfe) \
  X(fe_add, fe25519_add(&r->f, &o->F[0], &o->F[1]), dfe) \
  X(fe_double, fe25519_double(&r->f, &o->F[0]), dfe) \
  X(fe_triple, fe25519_triple(&r->f, &o->F[0]), dfe) \
  X(fe_sub, fe25519_sub(&r->f, &o->F[0], &o->F[1]), dfe) \
  X(fe_mul, fe25519_mul(&r->f, &o->F[0], &o->F[1]), dfe) \
  X(fe_square, fe25519_square(&r->f, &o->F[0]), dfe) \
  X(fe_square_double, fe25519_square_double(&r->f, &o->F[0]), dfe) \
  X(fe_invert, fe25519_invert(&r->f, &o->F[0]), dfe) \
  X(fe_pow2523, fe25519_pow2523(&r->f, &o->F[0]), dfe) \
  X(fe_invsqrt, fe25519_invsqrt(&r->f, &o->F[0]), dfe) \
  X(fe_invsqrti, r->ret = fe25519_invsqrti(&r->f, &o->F[0]), dferet) \
  X(fe_sqrti, r->ret = fe25519_sqrti(&r->f, &o->F[0]), dferet) \
  X(fe_sqrt, fe25519_sqrt(&r->f, &o->F[0]), dfe) \
  X(sc_unpack, r->ret = group_scalar_unpack(&r->s, o->B), dsc) \
  X(sc_pack, group_scalar_pack(r->o32, &o->S[0]), do32) \
  X(sc_setzero, group_scalar_setzero(&r->s), dsc) \
  X(sc_setone, group_scalar_setone(&r->s), dsc) \
  X(sc_add, group_scalar_add(&r->s, &o->S[0], &o->S[1]), dsc) \
  X(sc_sub, group_scalar_sub(&r->s, &o->S[0], &o->S[1]), dsc) \
  X(sc_negate, group_scalar_negate(&r->s, &o->S[0]), dsc) \
  X(sc_mul, group_scalar_mul(&r->s, &o->S[0], &o->S[1]), dsc) \
  X(sc_square, group_scalar_square(&r->s, &o->S[0]), dsc) \
  X(sc_invert, group_scalar_invert(&r->s, &o->S[0]), dsc) \
  X(sc_isone, r->ret = group_scalar_isone(&o->S[0]), dbool) \
  X(sc_iszero, r->ret = group_scalar_iszero(&o->S[0]), dbool) \
  X(sc_equals, r->ret = group_scalar_equals(&o->S[0], &o->S[1]), dbool) \
  X(sc_tstbit, r->ret = scalar_tstbit(&o->S[0], o->B[1] % 256), dbool) \
  X(sc_bitlen, r->ret = scalar_bitlen(&o->S[0]), dret) \
  X(sc_window3, scalar_window3(r->w, &o->S[0]), dw85) \
  X(sc_window5, scalar_window5(r->w, &o->S[0]), dw51) \
  X(sc_slide, scalar_slide(r->w, &o->S[0], 5), dw256) \
  X(sc_from64bytes, scalar_from64bytes(&r->s, o->B), dsc) \
  X(ge_unpack, r->ret = group_ge_unpack(&r->g, o->B), dunpack) \
  X(ge_pack, group_ge_pack(r->o32, &o->G[0]), do32) \
  X(ge_add, group_ge_add(&r->g, &o->G[0], &o->G[1]), dge) \
  X(ge_double, group_ge_double(&r->g, &o->G[0]), dge) \
  X(ge_negate, group_ge_negate(&r->g, &o->G[0]), dge) \
  X(ge_scalarmult, group_ge_scalarmult(&r->g, &o->G[0], &o->S[0]), dge) \
  X(ge_scalarmult_base, group_ge_scalarmult_base(&r->g, &o->S[0]), dge) \
  X(ge_multiscalarmult, group_ge_multiscalarmult(&r->g, o->G, o->S, o->count), dge) \
  X(ge_equals, r->ret = group_ge_equals(&o->G[0], &o->G[1]), dbool) \
  X(ge_isneutral, r->ret = group_ge_isneutral(&o->G[0]), dbool) \
  X(ge_add_public, group_ge_add_publicinputs(&r->g, &o->G[0], &o->G[1]), dge) \
  X(ge_double_public, group_ge_double_publicinputs(&r->g, &o->G[0]), dge) \
  X(ge_negate_public, group_ge_negate_publicinputs(&r->g, &o->G[0]), dge) \
  X(ge_scalarmult_public, group_ge_scalarmult_publicinputs(&r->g, &o->G[0], &o->S[0]), dge) \
  X(ge_scalarmult_base_public, group_ge_scalarmult_base_publicinputs(&r->g, &o->S[0]), dge) \
  X(ge_multiscalarmult_public, group_ge_multiscalarmult_publicinputs(&r->g, o->G, o->S, o->count), dge) \
  X(ge_equals_public, r->ret = group_ge_equals_publicinputs(&o->G[0], &o->G[1]), dbool) \
  X(ge_isneutral_public, r->ret = group_ge_isneutral_publicinputs(&o->G[0]), dbool) \
  X(ge_elligator, group_ge_elligator(&r->g, &o->F[0]), dge) \
  X(ge_jacobi, group_ge_from_jacobi_quartic(&r->g, &o->F[0], &o->F[1]), dge)

#define FN(name, call, dig) static void op_##name(const set *o, res *r, digest *d) { call; if (d) { memset(d, 0, sizeof *d); dig(r, d); } }
OPS(FN)
#define ROW(name, call, dig) {#name, op_##name},
static const struct { const char *name; void (*fn)(const set *, res *, digest *); } ops[] = {OPS(ROW)};
enum { NOPS = sizeof ops / sizeof *ops };

static u64 seed;
static int nsets;
static set *sets;
static digest *want; // [op][set]

static void bytes(u64 *s, unsigned char *b, int n) {
  int k = next(s) % 6;
  for (int i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : next(s);
  if (k == 2) for (int i = 1; i < n; i++) b[i] = 0;
}

static void fe(u64 *s, fe25519 *f) { unsigned char b[32]; bytes(s, b, 32); fe25519_unpack(f, b); }
static void sc(u64 *s, group_scalar *k) { unsigned char b[64]; bytes(s, b, 64); scalar_from64bytes(k, b); }
static void ge(u64 *s, group_ge *g) {
  group_scalar k;
  sc(s, &k);
  if (next(s) % 8 == 0) { *g = group_ge_neutral; return; }
  group_ge_scalarmult_base(g, &k);
}
static void buf(u64 *s, set *o) {
  group_ge g;
  bytes(s, o->B, 64);
  if (next(s) % 3) { ge(s, &g); group_ge_pack(o->B, &g); }
}

static void fill(u64 *s, set *o) {
  memset(o, 0, sizeof *o);
  for (int i = 0; i < 4; i++) fe(s, &o->F[i]);
  for (int i = 0; i < 5; i++) { sc(s, &o->S[i]); ge(s, &o->G[i]); }
  buf(s, o);
  if (next(s) % 4 == 0) { o->S[1] = o->S[0]; o->F[1] = o->F[0]; o->G[1] = o->G[0]; }
  o->bit = next(s) & 1;
  o->count = 1 + next(s) % 5;
}

// a set that differs from another one a little
static void vary(u64 *s, set *o) {
  switch (next(s) % 9) {
  case 0: fe(s, &o->F[0]); break;
  case 1: fe(s, &o->F[1]); break;
  case 2: sc(s, &o->S[0]); break;
  case 3: sc(s, &o->S[1]); break;
  case 4: ge(s, &o->G[0]); break;
  case 5: ge(s, &o->G[1]); break;
  case 6: o->B[next(s) % 64] ^= 1 << next(s) % 8; break;
  case 7: o->S[0].v[next(s) % 31] ^= 1 << next(s) % 8; break; // the top byte stays: still below l
  case 8: group_ge_negate(&o->G[0], &o->G[0]); break;
  }
  o->bit ^= 1;
}

static void save(const char *file) {
  FILE *h = fopen(file, "wb");
  int head[2] = {nsets, NOPS};
  if (!h || fwrite(head, sizeof head, 1, h) != 1 || fwrite(sets, sizeof *sets, nsets, h) != (size_t)nsets ||
      fwrite(want, sizeof *want, (size_t)nsets * NOPS, h) != (size_t)nsets * NOPS || fclose(h)) exit(3);
}

static void load(const char *file) {
  FILE *h = fopen(file, "rb");
  int head[2];
  if (!h || fread(head, sizeof head, 1, h) != 1 || head[1] != NOPS) exit(3);
  nsets = head[0];
  sets = malloc(nsets * sizeof *sets);
  want = malloc((size_t)nsets * NOPS * sizeof *want);
  if (fread(sets, sizeof *sets, nsets, h) != (size_t)nsets || fread(want, sizeof *want, (size_t)nsets * NOPS, h) != (size_t)nsets * NOPS) exit(3);
  fclose(h);
}

static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

typedef struct { long runs, bad; int badset; digest got; double t0, t1; long grew[8]; } tally;

static void one(int i, int j, const set *o, res *r, tally *t) {
  digest d;
  ops[i].fn(o, r, &d);
  t->runs++;
  if (memcmp(&d, &want[(size_t)i * nsets + j], sizeof d)) {
    if (!t->bad++) { t->badset = j; t->got = d; }
  }
}

static void hex(const unsigned char *b) { for (int i = 0; i < 40; i++) printf("%02x", b[i]); }
static void report(int i, const tally *t, long overlaps) {
  printf("{\"op\":\"%s\",\"runs\":%ld,\"bad\":%ld,\"overlaps\":%ld", ops[i].name, t->runs, t->bad, overlaps);
  if (t->bad) {
    printf(",\"set\":%d,\"got\":\"", t->badset); hex(t->got.b);
    printf("\",\"alone\":\""); hex(want[(size_t)i * nsets + t->badset].b); printf("\"");
  }
  printf(",\"grew\":[%ld", t->grew[1]);
  for (int k = 2; k < 6; k++) printf(",%ld", t->grew[k]);
  printf("]}\n");
}

static void garbage(u64 *s, res *r) {
  if (next(s) % 4 == 0) return; // what it held before
  unsigned char c = next(s);
  int k = next(s) % 2;
  for (size_t i = 0; i < sizeof *r; i++) ((unsigned char *)r)[i] = k ? c : next(s);
}

static void prepare(const char *file) {
  u64 s = seed;
  sets = malloc(nsets * sizeof *sets);
  want = calloc((size_t)nsets * NOPS, sizeof *want);
  for (int j = 0; j < nsets; j++) {
    if (j % 2) { sets[j] = sets[j - 1]; vary(&s, &sets[j]); } else fill(&s, &sets[j]);
  }
  for (int i = 0; i < NOPS; i++)
    for (int j = 0; j < nsets; j++) {
      res r;
      memset(&r, 0, sizeof r);
      ops[i].fn(&sets[j], &r, &want[(size_t)i * nsets + j]);
    }
  save(file);
}

static void cold(const char *name) {
  for (int i = 0; i < NOPS; i++) {
    if (strcmp(ops[i].name, name)) continue;
    tally t = {0};
    res r;
    memset(&r, 0, sizeof r);
    for (int j = nsets - 1; j >= 0; j--) one(i, j, &sets[j], &r, &t);
    report(i, &t, 0);
  }
}

static long heap(void) {
  struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}

enum { PHASES = 6 };
static void history(int msec, const char *only) {
  for (int i = 0; i < NOPS; i++) {
    if (only && strcmp(only, ops[i].name)) continue;
    u64 s = seed + 77 * i;
    tally t = {0};
    set o;
    res r;
    memset(&r, 0, sizeof r);
    int j = 0, k = 0;
    for (int ph = 0; ph < PHASES; ph++) {
      long h = heap();
      double end = now() + msec * 1e-3 / PHASES;
      do {
        for (int n = 0; n < 16; n++) {
          switch (next(&s) % 4) {
          case 0: k = next(&s) % NOPS; j = next(&s) % nsets; break; // something else in between
          case 1: j ^= 1; if (j >= nsets) j = 0; k = i; break;        // a related set
          case 2: k = i; break;                                        // the same again
          default: j = next(&s) % nsets; k = i;
          }
          garbage(&s, &r);
          const set *p = &sets[j];
          if (next(&s) & 1) { o = sets[j]; p = &o; } // in memory that held others before
          tally other = {0};
          one(k, j, p, &r, k == i ? &t : &other);
          if (other.bad) { t.bad += other.bad; if (t.bad == other.bad) report(k, &other, 0); }
        }
      } while (now() < end);
      t.grew[ph] = heap() - h;
    }
    report(i, &t, 0);
  }
}

static int ms;
static pthread_barrier_t start;
typedef struct { int id; tally t[NOPS]; tally one[NOPS]; } worker;

static void *work(void *arg) {
  worker *w = arg;
  u64 s = seed + 1000003 * w->id;
  res r;
  memset(&r, 0, sizeof r);
  pthread_barrier_wait(&start);
  // the very first calls of the process, and all against all
  for (int n = 0; n < NOPS * 4; n++) {
    int i = n < NOPS ? (n + w->id / 2 * 7) % NOPS : next(&s) % NOPS, j = next(&s) % nsets;
    one(i, j, &sets[j], &r, &w->t[i]);
  }
  pthread_barrier_wait(&start);
  // each alone, on sets that take turns; the clock keeps the threads in step
  double t0 = now();
  for (int i = 0; i < NOPS; i++) {
    w->one[i].t0 = now();
    for (int k = 0; k < 3 || now() < t0 + (i + 1) * ms * 1e-3; k++) {
      int j = (w->id + k) % nsets;
      garbage(&s, &r);
      one(i, j, &sets[j], &r, &w->one[i]);
    }
    w->one[i].t1 = now();
  }
  return 0;
}

static void threads(int n) {
  pthread_t th[64];
  worker *w = calloc(n, sizeof *w);
  set *before = malloc(nsets * sizeof *sets);
  memcpy(before, sets, nsets * sizeof *sets);
  pthread_barrier_init(&start, 0, n);
  for (int i = 0; i < n; i++) { w[i].id = i; if (pthread_create(&th[i], 0, work, &w[i])) exit(3); }
  for (int i = 0; i < n; i++) pthread_join(th[i], 0);
  for (int i = 0; i < NOPS; i++) {
    tally t = {0};
    long over = 0;
    for (int k = 0; k < n; k++) {
      const tally *a[2] = {&w[k].t[i], &w[k].one[i]};
      for (int m = 0; m < 2; m++) {
        t.runs += a[m]->runs;
        if (a[m]->bad) { if (!t.bad) { t.badset = a[m]->badset; t.got = a[m]->got; } t.bad += a[m]->bad; }
      }
      for (int l = 0; l < k; l++) over += w[k].one[i].t0 < w[l].one[i].t1 && w[l].one[i].t0 < w[k].one[i].t1;
    }
    report(i, &t, over);
  }
  printf("{\"op\":\"operands\",\"runs\":1,\"bad\":%d,\"overlaps\":0}\n", memcmp(before, sets, nsets * sizeof *sets) != 0);
}

static int firstop;
static void *firstwork(void *arg) {
  worker *w = arg;
  res r;
  memset(&r, 0, sizeof r);
  pthread_barrier_wait(&start);
  for (int k = 0; k < 4; k++) {
    int j = (seed + w->id * 3 + k) % nsets;
    one(firstop, j, &sets[j], &r, &w->t[firstop]);
  }
  return 0;
}

static void first(int n, const char *name) {
  pthread_t th[64];
  worker *w = calloc(n, sizeof *w);
  for (firstop = 0; firstop < NOPS && strcmp(ops[firstop].name, name); firstop++);
  if (firstop == NOPS) exit(3);
  pthread_barrier_init(&start, 0, n);
  for (int i = 0; i < n; i++) { w[i].id = i; if (pthread_create(&th[i], 0, firstwork, &w[i])) exit(3); }
  for (int i = 0; i < n; i++) pthread_join(th[i], 0);
  tally t = {0};
  for (int k = 0; k < n; k++) {
    const tally *a = &w[k].t[firstop];
    t.runs += a->runs;
    if (a->bad) { t.bad += a->bad; t.badset = a->badset; t.got = a->got; }
  }
  report(firstop, &t, 0);
}

static int shared[4];
static void *racer(void *arg) {
  pthread_barrier_wait(&start);
  for (int i = 0; i < 1000; i++) shared[i & 3] += i;
  return arg;
}

int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "control")) {
    pthread_t th[2];
    pthread_barrier_init(&start, 0, 2);
    for (int i = 0; i < 2; i++) pthread_create(&th[i], 0, racer, 0);
    for (int i = 0; i < 2; i++) pthread_join(th[i], 0);
    printf("{\"op\":\"control\",\"runs\":%d,\"bad\":0,\"overlaps\":0}\n", shared[0] ? 1 : 2);
    return 0;
  }
  if (argc > 1 && !strcmp(argv[1], "names")) {
    for (int i = 0; i < NOPS; i++) puts(ops[i].name);
    return 0;
  }
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "prepare")) {
    seed = strtoull(argv[3], 0, 10);
    nsets = atoi(argv[4]);
    prepare(argv[2]);
    return 0;
  }
  load(argv[2]);
  if (!strcmp(argv[1], "cold")) cold(argv[3]);
  else {
    seed = strtoull(argv[3], 0, 10);
    if (!strcmp(argv[1], "history")) history(atoi(argv[4]), argc > 5 ? argv[5] : 0);
    else if (!strcmp(argv[1], "first")) first(atoi(argv[4]), argv[5]);
    else if (!strcmp(argv[1], "threads")) { ms = atoi(argv[5]); threads(atoi(argv[4])); }
    else return 3;
  }
  return 0;
}
