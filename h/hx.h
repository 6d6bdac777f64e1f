/* Shared harness runtime: case loop, PRNG, op log, transcript, allocation monitor. */
#ifndef HX_H
#define HX_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <float.h>
#include <math.h>

#if defined(__SANITIZE_ADDRESS__)
#define HX_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define HX_TSAN 1
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define HX_MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define HX_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define HX_TSAN 1
#endif
#endif

/* ---- per-case context (thread local: the thread driver runs cases in parallel) */
typedef struct hx_ctx {
  uint64_t rng;
  uint64_t sig;      /* hash of the operation log: identity of the case */
  uint64_t tr;       /* transcript hash: everything observed */
  uint64_t casenr;
  int nontrivial;
  int nops;
  const unsigned char *src, *src_end;   /* draws come from here first (coverage-guided search), then from the generator */
} hx_ctx;
extern __thread hx_ctx *hx;
extern int hx_thorough;
extern int hx_transcript;     /* transcript mode (C30) */
extern int hx_oplog_on;

uint64_t hx_mix(uint64_t a, uint64_t b);
uint64_t hx_hash(const void *p, size_t n, uint64_t seed);
static inline uint64_t hx_take(int k) {
  uint64_t v = 0;
  while (k-- && hx->src < hx->src_end) v = v << 8 | *hx->src++;
  return v;
}
static inline uint64_t rnd64(void) {
  if (hx->src < hx->src_end) return hx_take(8);
  uint64_t z = (hx->rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(uint64_t n) {
  if (hx->src < hx->src_end) return n > 1 ? hx_take(n <= 256 ? 1 : n <= 65536 ? 2 : n >> 32 ? 8 : 4) % n : 0;
  return n ? rnd64() % n : 0;
}
static inline int64_t rndr(int64_t a, int64_t b) { return a + (int64_t)rnd((uint64_t)(b - a + 1)); }
static inline int chance(int pct) { return (int)rnd(100) < pct; }

/* ---- observation */
static inline void OB(uint64_t v) { hx->tr = hx_mix(hx->tr, v); }
void OBS(const void *p, size_t n);
static inline void OBZ(const char *s) { if (s) OBS(s, strlen(s)); else OB(0x5151); }
void OBD(double d);

void OP(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void FAIL(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define CK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
void hx_harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

/* named counters (events observed) */
typedef struct hx_counter { const char *name; uint64_t v; struct hx_counter *next; int reg; } hx_counter;
void hx_count_reg(hx_counter *c);
#define COUNTN(nm, k) do { static hx_counter c_ = { nm, 0, 0, 0 }; \
    if (!__atomic_load_n(&c_.reg, __ATOMIC_ACQUIRE)) hx_count_reg(&c_); \
    __atomic_fetch_add(&c_.v, (uint64_t)(k), __ATOMIC_RELAXED); } while (0)
#define COUNT(nm) COUNTN(nm, 1)
#define COUNTMAX(nm, k) do { static hx_counter c_ = { "max:" nm, 0, 0, 0 }; \
    if (!__atomic_load_n(&c_.reg, __ATOMIC_ACQUIRE)) hx_count_reg(&c_); \
    uint64_t k_ = (uint64_t)(k); if (k_ > __atomic_load_n(&c_.v, __ATOMIC_RELAXED)) __atomic_store_n(&c_.v, k_, __ATOMIC_RELAXED); } while (0)

/* ---- allocation monitor */
extern __thread int hx_inlib;
extern int hx_track;          /* hooks installed */
/* running out of memory: the n-th next malloc or calloc of the library gives nothing (only where hx_can_oom) */
extern __thread unsigned hx_short_read, hx_short_reads;      /* reads in the library give at most so many bytes */
extern int hx_can_oom, hx_oom_malloc, hx_oom_calloc, hx_oom_fired;
void hx_lib_enter(void);
static inline void hx_in(void) { if (hx_inlib++ == 0) hx_lib_enter(); }
static inline void hx_out(void) { hx_inlib--; }
#define L(e) ({ hx_in(); __auto_type r_ = (e); hx_out(); r_; })
#define LV(e) do { hx_in(); e; hx_out(); } while (0)
typedef struct { uintptr_t base; uint64_t serial; } hx_id;
hx_id hx_bind(const void *p);
int hx_alive(hx_id id);
size_t hx_block_size(hx_id id);        /* bytes requested for the block, 0 if unknown */
uint64_t hx_live_blocks(void);         /* live blocks allocated inside the library */
uint64_t hx_live_bytes(void);
uint64_t hx_serial_now(void);
uint64_t hx_live_since(uint64_t serial);   /* live blocks with serial > s */
void hx_describe_live(uint64_t since_serial, char *out, size_t n);
void hx_forget_all(void);
extern int hx_warm;                    /* warm-up run: leak verdicts off */

/* exact-size heap copy, so that a read past the end hits a redzone */
void *hx_dup(const void *p, size_t n);

/* run fn(arg) in a forked child: returns the wait status; fatal signals and sanitizer aborts are expected there */
int hx_fork(void (*fn)(void *), void *arg);

typedef struct { const char *name; void (*run)(void); } hx_driver;
extern hx_driver hx_drivers[];
void hx_tmpdir(char *out, size_t n);   /* scratch directory of this process (created on first use) */
#endif
