/* Common parts of the monitors of the bundled solver library: random numbers, reports, signatures. */
#ifndef FZV_SUN_H
#define FZV_SUN_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <math.h>
#include <float.h>
#include <sundials/sundials_types.h>
#include <sundials/sundials_context.h>
#include <sundials/sundials_nvector.h>
#include <nvector/nvector_serial.h>
#define EPS 2.220446049250313e-16
typedef long double LD;

static uint64_t rng_s[2];
static uint64_t rng_mixc(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static void rng_seed(uint64_t a, uint64_t b) { rng_s[0] = rng_mixc(a * 1000003ULL + 17); rng_s[1] = rng_mixc(rng_s[0] ^ (b * 0xD1342543DE82EF95ULL + 3)); }
static uint64_t rng64(void) { uint64_t s1 = rng_s[0], s0 = rng_s[1]; uint64_t r = s0 + s1; rng_s[0] = s0; s1 ^= s1 << 23; rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r; }
static inline double u01(void) { return (double)(rng64() >> 11) * (1.0 / 9007199254740992.0); }
static inline double unif(double a, double b) { return a + (b - a) * u01(); }
static inline int irnd(int a, int b) { return a + (int)(rng64() % (uint64_t)(b - a + 1)); }
static inline int chance(double p) { return u01() < p; }
static inline double logu(double a, double b) { return pow(10., unif(a, b)); }
static inline double sgn(void) { return chance(0.5) ? -1. : 1.; }
static inline double gauss(void) { double u = u01() + 1e-300, v = u01(); return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }

/* every allocation passes here: what a case leaves behind is seen, and allocations can be made to fail */
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
static const long live_ = 0, live_bytes_ = 0;
#define LEAKS_WATCHED 0
#else
#define LEAKS_WATCHED 1
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static long live_, live_bytes_, alloc_n_, alloc_fail_at_ = -1, alloc_failed_; static int alloc_then_all_;
static int alloc_refused(void) {
  long k = __atomic_fetch_add(&alloc_n_, 1, __ATOMIC_RELAXED);
  if (alloc_fail_at_ >= 0 && (k == alloc_fail_at_ || (alloc_then_all_ && k > alloc_fail_at_))) { alloc_failed_++; return 1; }
  return 0;
}
static void *alloc_in(void *p) { if (p) { __atomic_fetch_add(&live_, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&live_bytes_, (long)malloc_usable_size(p), __ATOMIC_RELAXED); } return p; }
static void alloc_out(void *p) { if (p) { __atomic_fetch_add(&live_, -1, __ATOMIC_RELAXED); __atomic_fetch_add(&live_bytes_, -(long)malloc_usable_size(p), __ATOMIC_RELAXED); } }
void *malloc(size_t n) { return alloc_refused() ? NULL : alloc_in(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return alloc_refused() ? NULL : alloc_in(__libc_calloc(n, m)); }
void *realloc(void *p, size_t n) { void *q; if (alloc_refused()) return NULL; alloc_out(p); q = __libc_realloc(p, n); if (!q && n) alloc_in(p); return alloc_in(q); }
void free(void *p) { alloc_out(p); __libc_free(p); }
#endif

static char ctx[256], desc[4096];
static int n_fail = 0;
static uint64_t sig = 0;
static char smp[4096];
/* events, counted by name */
#define MAXST 400
static struct { const char *n; long v; } st_[MAXST];
static int st_same(const char *a, const char *b) { for (; *a && *b; a++, b++) if (*a != (*b == ' ' ? '_' : *b)) return 0; return *a == *b; }
static void stat_add(const char *n, long v) {
  int i;
  for (i = 0; i < MAXST && st_[i].n; i++) if (st_same(st_[i].n, n)) { st_[i].v += v; return; }
  if (i < MAXST) { char *c; static char pool[400 * 64]; static size_t used; if (used + strlen(n) + 1 > sizeof pool) abort(); st_[i].n = c = strcpy(pool + used, n); used += strlen(n) + 1; st_[i].v = v; for (; *c; c++) if (*c == ' ') *c = '_'; }
}
#define EV(n) stat_add(n, 1)
/* averages, in thousandths */
static int bench_;   /* fixed cases: the only ones that enter averages */
static void mean(const char *n, double v) { char b[64]; if (!bench_) return; snprintf(b, sizeof b, "%s_sum", n); stat_add(b, lround(1000 * v)); snprintf(b, sizeof b, "%s_n", n); stat_add(b, 1); }
static void fail(const char *key, const char *fmt, ...) {
  va_list ap; char b[1500];
  va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n_fail < 20) printf("FAIL key=%s at=%s :: %s; %s\n", key, ctx, b, desc);
  n_fail++;
}
static inline void sigmix(uint64_t x) { sig = rng_mixc(sig ^ (x + 0x9E3779B97F4A7C15ULL + (sig << 6))); }
static inline void sigd(double x) { uint64_t u; memcpy(&u, &x, 8); sigmix(u); }
static inline int same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (isnan(a) && isnan(b)); }
static void adddesc(const char *fmt, ...) {
  va_list ap; size_t l = strlen(desc);
  if (l > sizeof desc - 200) return;
  va_start(ap, fmt); vsnprintf(desc + l, sizeof desc - l, fmt, ap); va_end(ap);
}
static double worst_[16];
static const char *worstn_[16];
static void worst(const char *n, double r) {
  int i;
  for (i = 0; i < 16 && worstn_[i]; i++) if (!strcmp(worstn_[i], n)) { if (r > worst_[i]) worst_[i] = r; return; }
  if (i < 16) { worstn_[i] = n; worst_[i] = r; }
}
/* err <= tol; remembers the largest share of the bound seen */
static int within(const char *n, LD err, LD tol) {
  if (!(err <= tol)) return 0;
  if (tol > 0) worst(n, (double)(err / tol));
  return 1;
}

static void one_case(const char *mode, long ic, int arg);   /* given by the driver */
static SUNContext sunctx_;
int main(int argc, char **argv) {
  long first, n, ic; int i, arg = 0; uint64_t seed; const char *mode;
  if (argc < 5) return 70;
  mode = argv[1]; bench_ = mode[0] == 'b'; seed = strtoull(argv[2], 0, 10); first = atol(argv[3]); n = atol(argv[4]);
  if (argc > 5) arg = atoi(argv[5]);
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  if (SUNContext_Create(NULL, &sunctx_)) return 70;
  for (ic = first; ic < first + n && !n_fail; ic++) {
    rng_seed(seed * 977 + (uint64_t)arg * 7919, (uint64_t)ic);
    snprintf(ctx, sizeof ctx, "%s/%llu/%ld/%d", mode, (unsigned long long)seed, ic, arg);
    desc[0] = 0; sig = 0;
    { long l0 = live_; int again;
      one_case(mode, ic, arg);
      for (again = 0; LEAKS_WATCHED && live_ != l0 && !n_fail && !bench_; again++) {   /* what is only allocated at first use is not met again */
        long l1 = live_, b1 = live_bytes_;
        if (again == 3) { fail("leak", "every run of this case leaves memory allocated"); break; }
        rng_seed(seed * 977 + (uint64_t)arg * 7919, (uint64_t)ic); desc[0] = 0; sig = 0;
        one_case(mode, ic, arg);
        adddesc("; %ld blocks (%ld bytes) left", live_ - l1, live_bytes_ - b1);
        l0 = l1;
      }
    }
    if (ic == first) snprintf(smp, sizeof smp, "%s: %.400s", ctx, desc);
    if (sig) printf("SIG %016llX\n", (unsigned long long)sig);
  }
  SUNContext_Free(&sunctx_);
  printf("SAMPLE %s\n", smp);
  printf("STAT cases %ld\n", ic - first);
  for (i = 0; i < MAXST && st_[i].n; i++) printf("STAT %s %ld\n", st_[i].n, st_[i].v);
  for (i = 0; i < 16 && worstn_[i]; i++) printf("WORST %s %.2e\n", worstn_[i], worst_[i]);
  printf("DONE\n");
  fflush(stdout);
  return n_fail ? 1 : 0;
}
#endif
