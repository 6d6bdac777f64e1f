/* C05 across threads: every thread works on states of its own.  ThreadSanitizer watches for races in
   what the library shares behind their backs, and what each thread observes must be what the same
   program observes when it runs alone. */
#include "ref.h"
#include "drvj.h"
#include "drv.h"
#include <pthread.h>
#include <sched.h>
#define MAXT 6
#define PROGS 6
extern int c24_concurrent, sql_concurrent; void d_c25(void); void d_c26(void); void d_c27(void); void d_c28(void); void sql_setup(void);
typedef struct { uint64_t seed, nr; int n; int prog[PROGS]; uint64_t tr[PROGS], ref[PROGS]; int stagger; } job;
static pthread_barrier_t bar;
static void (*const progs[])(void) = { d_c05, d_c01, d_c20, d_c21, d_c18, d_c22, d_c02, d_c04, d_c06, d_c07, d_c08, d_c09, d_c10, d_c12, d_c13, d_c14, d_c15, d_c16, d_c19, d_c23, d_c24, d_c25, d_c26, d_c27, d_c28 };
static void run_job(job *j, uint64_t *tr) {
  hx_ctx *save = hx, c;
  for (int i = 0; i < j->n; i++) {
    memset(&c, 0, sizeof c);
    c.rng = hx_mix(j->seed, i); c.sig = 1; c.casenr = j->nr | 1;      /* odd: no child processes */
    hx = &c;
    ar_reset();
    progs[j->prog[i]]();
    tr[i] = hx_mix(c.tr, c.sig);
  }
  hx = save;
}
static void *thr(void *a) {
  job *j = a;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < j->stagger; i++) sched_yield();
  run_job(j, j->tr);
  COUNT("thread runs");
  return NULL;
}
/* what a fresh process does first matters most: the very first use of the library is concurrent */
static void *first(void *a) {
  hx_ctx c; memset(&c, 0, sizeof c); c.rng = hx_mix(*(uint64_t *)a, 7); hx = &c;
  pthread_barrier_wait(&bar);
  struct cee_state *st = cee_state_mk(4);
  struct cee_json *ar = cee_json_array_mk(st, 4), *o = cee_json_object_mk(st);
  for (int i = 0; i < 6; i++)
    switch (rnd(6)) {
      case 0: cee_json_array_append(ar, cee_json_true()); break;
      case 1: cee_json_array_append(ar, cee_json_false()); break;
      case 2: cee_json_array_append(ar, cee_json_null()); break;
      case 3: cee_json_array_append(ar, cee_json_undefined()); break;
      case 4: cee_json_object_set_bool(o, "b", rnd(2)); break;
      default: { struct cee_json *j = NULL; int l; char t[] = "[null,true,false,{\"a\":\"\",\"b\":null}]"; cee_json_parsex(st, t, sizeof t - 1, &j, true, &l); if (j) cee_json_array_append(ar, j); }
    }
  cee_state_add_gc_root(st, ar);
  cee_state_gc(st);
  char b[512]; cee_json_snprint(st, b, sizeof b, ar, 0);
  cee_del(st);
  hx = NULL;
  return NULL;
}
void d_c05t(void) {
  job j[MAXT];
  pthread_t t[MAXT];
  int k = 2 + (int)rnd(MAXT - 1);
  static int once;
  if (!once) {
    uint64_t s[MAXT];
    once = 1; c24_concurrent = sql_concurrent = 1; seeds_load(); sql_setup(); { char d[300]; hx_tmpdir(d, sizeof d); }
    pthread_barrier_init(&bar, NULL, k);
    for (int i = 0; i < k; i++) { s[i] = rnd64(); if (pthread_create(&t[i], NULL, first, &s[i])) hx_harness_error("pthread_create"); }
    for (int i = 0; i < k; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    COUNT("concurrent first uses");
  }
  int only = chance(40) ? (int)rnd(sizeof progs / sizeof *progs) : -1;      /* all threads in the same part of the library */
  for (int i = 0; i < k; i++) {
    memset(&j[i], 0, sizeof j[i]);
    j[i].seed = rnd64(); j[i].nr = 7300 + rnd(180); j[i].n = 1 + (int)rnd(3); j[i].stagger = (int)rnd(4) * (int)rnd(50);
    for (int q = 0; q < j[i].n; q++) j[i].prog[q] = only >= 0 ? only : (int)rnd(sizeof progs / sizeof *progs);
    OP("thread %d: seed %016llx programs %d %d %d", i, (unsigned long long)j[i].seed, j[i].prog[0], j[i].n > 1 ? j[i].prog[1] : -1, j[i].n > 2 ? j[i].prog[2] : -1);
  }
  int same = chance(25);      /* threads that do exactly the same at the same time */
  if (same) for (int i = 1; i < k; i++) { int st = j[i].stagger; j[i] = j[0]; j[i].stagger = st / 10; }
  pthread_barrier_init(&bar, NULL, k);
  for (int i = 0; i < k; i++) if (pthread_create(&t[i], NULL, thr, &j[i])) hx_harness_error("pthread_create");
  for (int i = 0; i < k; i++) pthread_join(t[i], NULL);
  pthread_barrier_destroy(&bar);
  for (int i = 0; i < k; i++) {
    run_job(&j[i], j[i].ref);
    for (int q = 0; q < j[i].n; q++) {
      CK(j[i].tr[q] == j[i].ref[q], "thread %d of %d observes something else in program %d than when it runs alone", i, k, j[i].prog[q]);
      OB(j[i].tr[q]); COUNT("programs compared with running alone");
    }
  }
  COUNT("concurrent histories"); COUNTMAX("threads", k);
  if (only >= 0 && !same) COUNT("histories within one part of the library");
  if (same) COUNT("histories with identical threads");
  hx->nontrivial = 1;
}
