#include "hx.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <pthread.h>

#if defined(HX_ASAN) || defined(HX_MSAN) || defined(HX_TSAN)
extern int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
#endif

static hx_ctx main_ctx;
__thread hx_ctx *hx;
int hx_thorough, hx_transcript, hx_oplog_on = 1, hx_warm;
__thread int hx_inlib;
__thread unsigned hx_short_read, hx_short_reads;
int hx_can_oom, hx_oom_malloc, hx_oom_calloc, hx_oom_fired;
int hx_track;

uint64_t hx_mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x165667B19E3779F9ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hx_hash(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = p;
  h ^= 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h ^ (h >> 29);
}
void OBS(const void *p, size_t n) { hx->tr = hx_mix(hx->tr, hx_hash(p, n, n)); }
void OBD(double d) { uint64_t u; memcpy(&u, &d, 8); OB(u); }

/* ---- progress file: survives any kind of death of this process */
struct prog { uint64_t casenr; uint64_t done; uint64_t len; char log[1 << 16]; };
static struct prog *prog;
static struct prog prog_local;
static pthread_t main_thr;

static void oplog(const char *s, size_t n) {
  if (n > sizeof prog->log) n = sizeof prog->log;
  if (prog->len + n > sizeof prog->log) {   /* keep the newer half */
    size_t keep = sizeof prog->log / 2;
    if (keep > prog->len) keep = prog->len;
    memmove(prog->log, prog->log + prog->len - keep, keep);
    prog->len = keep;
    if (prog->len + n > sizeof prog->log) n = sizeof prog->log - prog->len;
  }
  memcpy(prog->log + prog->len, s, n);
  prog->len += n;
}
void OP(const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  hx->sig = hx_mix(hx->sig, hx_hash(b, n, 7));
  hx->nops++;
  if (hx_oplog_on && hx == &main_ctx) { b[n] = '\n'; oplog(b, n + 1); }
}

/* ---- counters */
static hx_counter *counters;
static pthread_mutex_t cmx = PTHREAD_MUTEX_INITIALIZER;
void hx_count_reg(hx_counter *c) {
  pthread_mutex_lock(&cmx);
  if (!c->reg) { c->next = counters; counters = c; __atomic_store_n(&c->reg, 1, __ATOMIC_RELEASE); }
  pthread_mutex_unlock(&cmx);
}

/* ---- allocation monitor */
struct blk { uintptr_t base; size_t size; uint64_t serial; };   /* base 0: free, 1: tombstone */
static unsigned TB = 1u << 19, tb_shift = 45;     /* grows with the number of live blocks */
static struct blk *tab;
static uint64_t n_live, n_bytes, serial_ctr, n_tomb;
#define RING 4096
static struct blk ring[RING];
static int ring_n;

void hx_lib_enter(void) { if (hx_track) ring_n = 0; }
static inline unsigned hslot(uintptr_t b) { return (unsigned)((b >> 4) * 0x9E3779B97F4A7C15ull >> tb_shift) & (TB - 1); }
static struct blk *tfind(uintptr_t b) {
  unsigned i = hslot(b);
  while (tab[i].base) { if (tab[i].base == b) return &tab[i]; i = (i + 1) & (TB - 1); }
  return NULL;
}
static struct blk *tmap(unsigned n) {
  struct blk *t = mmap(NULL, sizeof(struct blk) * n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (t == MAP_FAILED) { static const char m[] = "harness: no memory for the allocation monitor\n"; if (write(2, m, sizeof m - 1)) {} _exit(12); }
  return t;
}
static void trehash(void) {
  struct blk *old = tab; unsigned n = TB;
  if (n_live > TB / 4) { TB *= 2; tb_shift--; }
  tab = tmap(TB);
  for (unsigned j = 0; j < n; j++) if (old[j].base > 1) {
    unsigned i = hslot(old[j].base);
    while (tab[i].base) i = (i + 1) & (TB - 1);
    tab[i] = old[j];
  }
  munmap(old, sizeof(struct blk) * n);
  n_tomb = 0;
}
__attribute__((no_sanitize("address", "undefined")))
static void on_malloc(const volatile void *p, size_t n) {
  if (!hx_inlib || !hx_track || !p) return;
  if (n_live + n_tomb > TB / 2) trehash();
  uintptr_t b = (uintptr_t)p;
  unsigned i = hslot(b);
  while (tab[i].base > 1) { i = (i + 1) & (TB - 1); }
  if (tab[i].base == 1) n_tomb--;
  tab[i].base = b; tab[i].size = n; tab[i].serial = ++serial_ctr;
  n_live++; n_bytes += n;
  if (ring_n < RING) ring[ring_n++] = tab[i];
  else { memmove(ring, ring + RING / 2, sizeof(struct blk) * (RING / 2)); ring_n = RING / 2; ring[ring_n++] = tab[i]; }
}
__attribute__((no_sanitize("address", "undefined")))
static void on_free(const volatile void *p) {
  if (!hx_track || !p) return;
  struct blk *t = tfind((uintptr_t)p);
  if (t) { n_live--; n_bytes -= t->size; t->base = 1; t->serial = 0; n_tomb++; }
}
static void track_init(void) {
#if defined(HX_ASAN) || defined(HX_MSAN)
  tab = tmap(TB);
  if (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) hx_track = 1;
#endif
}
hx_id hx_bind(const void *p) {
  hx_id id = { 0, 0 };
  if (!hx_track || !p) return id;
  uintptr_t a = (uintptr_t)p;
  for (int i = ring_n - 1; i >= 0; i--)
    if (a >= ring[i].base && a <= ring[i].base + ring[i].size) {
      struct blk *t = tfind(ring[i].base);
      if (t && t->serial == ring[i].serial) { id.base = t->base; id.serial = t->serial; return id; }
    }
  for (unsigned j = 0; j < TB; j++)
    if (tab[j].base > 1 && a >= tab[j].base && a <= tab[j].base + tab[j].size) { id.base = tab[j].base; id.serial = tab[j].serial; return id; }
  return id;
}
int hx_alive(hx_id id) {
  if (!hx_track || !id.base) return 1;
  struct blk *t = tfind(id.base);
  return t && t->serial == id.serial;
}
size_t hx_block_size(hx_id id) {
  if (!hx_track || !id.base) return 0;
  struct blk *t = tfind(id.base);
  return t && t->serial == id.serial ? t->size : 0;
}
uint64_t hx_live_blocks(void) { return n_live; }
uint64_t hx_live_bytes(void) { return n_bytes; }
uint64_t hx_serial_now(void) { return serial_ctr; }
uint64_t hx_live_since(uint64_t s) {
  uint64_t n = 0;
  for (unsigned j = 0; j < TB; j++) if (tab && tab[j].base > 1 && tab[j].serial > s) n++;
  return n;
}
void hx_describe_live(uint64_t since, char *out, size_t n) {
  size_t k = 0; int c = 0;
  out[0] = 0;
  for (unsigned j = 0; tab && j < TB && c < 6; j++)
    if (tab[j].base > 1 && tab[j].serial > since) {
      k += snprintf(out + k, k < n ? n - k : 0, "%s%zu bytes (alloc #%llu)", c ? ", " : "", tab[j].size, (unsigned long long)(tab[j].serial - since));
      c++;
      if (k >= n) break;
    }
}
void hx_forget_all(void) {
  if (!tab) return;
  if (TB > 1u << 19) { munmap(tab, sizeof(struct blk) * TB); TB = 1u << 19; tb_shift = 45; tab = tmap(TB); }
  else memset(tab, 0, sizeof(struct blk) * TB);
  n_live = n_bytes = n_tomb = 0; ring_n = 0;
}
void *hx_dup(const void *p, size_t n) {
  char *q = malloc(n ? n : 1);
  if (n) memcpy(q, p, n);
  if (!n) { free(q); q = malloc(0); }
  return q;
}

/* ---- outcome */
static FILE *out;
static const char *stats_path, *hash_path, *tr_path;
static FILE *fhash, *ftr;
static uint64_t cases_run, cases_nontrivial, total_ops;
static jmp_buf case_jmp;
static int hx_memonly;
static char *sample_buf;
static size_t sample_len, samples_n;
static char tmpdir[256];

static void rm_tmpdir(void) {
  if (!tmpdir[0]) return;
  pid_t p = fork();
  if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", tmpdir, (char *)NULL); _exit(1); }
  int st; waitpid(p, &st, 0);
  tmpdir[0] = 0;
}
void hx_tmpdir(char *o, size_t n) {
  if (!tmpdir[0]) {
    const char *base = getenv("HX_TMP");
    snprintf(tmpdir, sizeof tmpdir, "%s/hxXXXXXX", base && *base ? base : "/tmp");
    if (!mkdtemp(tmpdir)) hx_harness_error("mkdtemp failed");
  }
  snprintf(o, n, "%s", tmpdir);
}
static void jstr(FILE *f, const char *s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fprintf(f, "\\n");
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void write_stats(const char *end) {
  if (!stats_path) return;
  FILE *f = fopen(stats_path, "w");
  if (!f) return;
  fprintf(f, "{\"end\":\"%s\",\"cases\":%llu,\"nontrivial\":%llu,\"ops\":%llu,\"track\":%d,\"counters\":{", end,
          (unsigned long long)cases_run, (unsigned long long)cases_nontrivial, (unsigned long long)total_ops, hx_track);
  int first = 1;
  for (hx_counter *c = counters; c; c = c->next) {
    /* the same name may be counted at several sites */
    fprintf(f, "%s[\"%s\",%llu]", first ? "\"list\":[" : ",", c->name, (unsigned long long)c->v);
    first = 0;
  }
  fprintf(f, "%s},\"samples\":[", first ? "" : "]");
  fwrite(sample_buf ? sample_buf : "", 1, sample_len, f);
  fprintf(f, "]}\n");
  fclose(f);
}
static void take_sample(void) {
  if (samples_n >= 2) return;
  char *b = NULL; size_t n = 0;
  FILE *m = open_memstream(&b, &n);
  if (samples_n) fputc(',', m);
  fprintf(m, "{\"case\":%llu,\"ops\":%d,\"log\":", (unsigned long long)hx->casenr, hx->nops);
  jstr(m, prog->log, prog->len > 1500 ? 1500 : prog->len);
  fputc('}', m);
  fclose(m);
  sample_buf = realloc(sample_buf, sample_len + n + 1);
  memcpy(sample_buf + sample_len, b, n);
  sample_len += n;
  samples_n++;
  free(b);
}
void FAIL(const char *fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (char *c = b; *c; c++) if (*c == '\n' || *c == '\r') *c = ' ';
  hx_inlib = 0;
  if (hx_memonly && hx == &main_ctx) {      /* only the sanitizers judge this run */
    static hx_counter fc = { "cases abandoned by another property's monitor", 0, 0, 0 };
    if (!fc.reg) hx_count_reg(&fc);
    fc.v++;
    hx_forget_all();
    longjmp(case_jmp, 1);
  }
  if (hx_transcript && hx == &main_ctx) {
    hx_forget_all();
    hx->tr = hx_mix(hx->tr, 0xFA11);
    longjmp(case_jmp, 1);
  }
  fprintf(out, "FAIL case=%llu %s\n", (unsigned long long)(hx ? hx->casenr : 0), b);
  fflush(out);
  write_stats("fail");
  rm_tmpdir();
#ifdef HX_FUZZ
  abort();
#endif
  _exit(10);
}
void hx_harness_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(out ? out : stdout, "HARNESS-ERROR ");
  vfprintf(out ? out : stdout, fmt, ap);
  fprintf(out ? out : stdout, "\n");
  fflush(out ? out : stdout);
  va_end(ap);
  rm_tmpdir();
  _exit(12);
}
static void on_vtalrm(int sig) {
  static const char b[] = "HANG\n"; size_t n = sizeof b - 1;
#if defined __x86_64__ && defined __linux__
  syscall(SYS_write, 1, b, n);
  syscall(SYS_exit_group, 11);
#else
  if (write(1, b, n)) {}
#endif
  _exit(11);
}
#if defined __x86_64__ && defined __linux__
static void no_restorer(void) {}
#endif
/* ThreadSanitizer holds a signal back until the next call it intercepts, which a loop may never make: past it, then */
static void install_watchdog(void) {
#if defined __x86_64__ && defined __linux__
  struct { void (*handler)(int); unsigned long flags; void (*restorer)(void); unsigned long mask; } k = { on_vtalrm, 0x04000000, no_restorer, 0 };
  if (syscall(SYS_rt_sigaction, SIGPROF, &k, NULL, 8) == 0) return;
#endif
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_vtalrm;
  sigaction(SIGPROF, &sa, NULL);
}
int hx_fork(void (*fn)(void *), void *arg) {
  fflush(out);
  pid_t p = fork();
  if (p < 0) hx_harness_error("fork failed");
  if (p == 0) {
    int d = open("/dev/null", O_WRONLY);
    dup2(d, 1); dup2(d, 2);
    prog = &prog_local;
    signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGILL, SIG_DFL);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    struct itimerval off = { { 0, 0 }, { 10, 0 } };
    signal(SIGPROF, SIG_DFL);
    setitimer(ITIMER_PROF, &off, NULL);
    fn(arg);
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) {}
  return st;
}

static unsigned char *src_bytes;      /* --bytes: the draws of the case */
static size_t src_len;
static void run_case(hx_driver *d, uint64_t seed, uint64_t nr) {
  memset(&main_ctx, 0, sizeof main_ctx);
  main_ctx.casenr = nr;
  main_ctx.rng = hx_mix(hx_mix(seed, hx_hash(d->name, strlen(d->name), 3)), nr);
  main_ctx.sig = 1;
  main_ctx.src = src_bytes;
  main_ctx.src_end = src_bytes + src_len;
  prog->casenr = nr;
  prog->len = 0;
  d->run();
}
#ifdef HX_FUZZ
/* The draws of a case come from the fuzzer's bytes.  Verdicts end the process by abort(), so that
   the fuzzer keeps the input; the check repeats it on the ordinary build (--bytes). */
static hx_driver *fz_d;
int LLVMFuzzerInitialize(int *argc, char ***argv) {
  const char *drv = getenv("HX_DRV");
  fz_d = hx_drivers;
  while (fz_d->name && (!drv || strcmp(fz_d->name, drv))) fz_d++;
  if (!fz_d->name) _exit(12);
  stats_path = getenv("HX_STATS");
  out = fdopen(dup(2), "w");
  FILE *nul = fopen("/dev/null", "w");
  if (nul) { setvbuf(nul, NULL, _IOFBF, 4096); stderr = nul; }
  prog = &prog_local;
  main_thr = pthread_self();
  hx = &main_ctx;
  track_init();
  signal(SIGPIPE, SIG_IGN);
  hx_memonly = getenv("HX_MEMONLY") && *getenv("HX_MEMONLY") == '1';
  hx_warm = 1;
  if (setjmp(case_jmp) == 0) run_case(fz_d, 1, 21);
  hx_inlib = 0; hx_warm = 0; hx_short_read = 0;
  hx_forget_all();
  for (hx_counter *c = counters; c; c = c->next) c->v = 0;
  return 0;
}
int LLVMFuzzerTestOneInput(const unsigned char *p, size_t n) {
  src_bytes = malloc(n + 1); src_len = n;
  memcpy(src_bytes, p, n);
  if (setjmp(case_jmp) == 0) run_case(fz_d, 1, 21);
  hx_inlib = 0;
  free(src_bytes); src_bytes = NULL; src_len = 0;
  cases_run++;
  total_ops += main_ctx.nops;
  if (main_ctx.nontrivial) cases_nontrivial++;
  if ((cases_run & 255) == 0) write_stats("fuzz");
  return 0;
}
#else
int main(int argc, char **argv) {
  const char *drv = NULL, *progp = NULL;
  uint64_t seed = 1, from = 0, to = 1, step = 1;
  int watchdog = 30;
  for (int i = 1; i + 1 < argc; i += 2) {
    const char *a = argv[i], *v = argv[i + 1];
    if (!strcmp(a, "--drv")) drv = v;
    else if (!strcmp(a, "--seed")) seed = strtoull(v, 0, 10);
    else if (!strcmp(a, "--from")) from = strtoull(v, 0, 10);
    else if (!strcmp(a, "--to")) to = strtoull(v, 0, 10);
    else if (!strcmp(a, "--step")) step = strtoull(v, 0, 10);
    else if (!strcmp(a, "--thorough")) hx_thorough = atoi(v);
    else if (!strcmp(a, "--stats")) stats_path = v;
    else if (!strcmp(a, "--hashes")) hash_path = v;
    else if (!strcmp(a, "--transcript")) { tr_path = v; hx_transcript = 1; }
    else if (!strcmp(a, "--prog")) progp = v;
    else if (!strcmp(a, "--memonly")) hx_memonly = atoi(v);
    else if (!strcmp(a, "--watchdog")) watchdog = atoi(v);
    else if (!strcmp(a, "--bytes")) {
      FILE *f = fopen(v, "rb");
      if (!f) { fprintf(stderr, "cannot read %s\n", v); return 12; }
      src_bytes = malloc(1 << 22); src_len = fread(src_bytes, 1, 1 << 22, f); fclose(f);
    }
    else { fprintf(stderr, "bad arg %s\n", a); return 12; }
  }
  hx_driver *d = hx_drivers;
  while (d->name && (!drv || strcmp(d->name, drv))) d++;
  if (!d->name) { fprintf(stderr, "no driver %s\n", drv ? drv : "?"); return 12; }

  /* stdout: verdict lines only.  stderr: sanitizer reports only (the library itself prints there) */
  out = fdopen(dup(1), "w");
  FILE *nul = fopen("/dev/null", "w");
  if (nul) { setvbuf(nul, NULL, _IOFBF, 4096); stderr = nul; }
  prog = &prog_local;
  if (progp) {
    int fd = open(progp, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof *prog) == 0) {
      void *m = mmap(NULL, sizeof *prog, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) prog = m;
    }
  }
  if (hash_path) fhash = fopen(hash_path, "w");
  if (tr_path) ftr = fopen(tr_path, "a");
  main_thr = pthread_self();
  hx = &main_ctx;
  track_init();
  install_watchdog();
  signal(SIGPIPE, SIG_IGN);

  /* warm-up: libc allocates some things once */
  if (!hx_transcript && from < to) {
    struct itimerval tv = { { 0, 0 }, { watchdog, 0 } };
    setitimer(ITIMER_PROF, &tv, NULL);
    hx_warm = 1;
    if (setjmp(case_jmp) == 0) run_case(d, seed, from);
    hx_inlib = 0;
    hx_warm = 0;
    hx_forget_all();
    for (hx_counter *c = counters; c; c = c->next) c->v = 0;
  }
  for (uint64_t nr = from; nr < to; nr += step) {
    struct itimerval tv = { { 0, 0 }, { watchdog, 0 } };
    setitimer(ITIMER_PROF, &tv, NULL);
    uint64_t rec = 0;
    if (setjmp(case_jmp) == 0) run_case(d, seed, nr);
    hx_inlib = 0;
    cases_run++;
    total_ops += main_ctx.nops;
    if (main_ctx.nontrivial) {
      cases_nontrivial++;
      if (fhash) fwrite(&main_ctx.sig, 8, 1, fhash);
      if (samples_n < 2 && !hx_transcript) take_sample();
    }
    if (ftr) {
      rec = main_ctx.tr;
      fprintf(ftr, "%llu %016llx %016llx\n", (unsigned long long)nr, (unsigned long long)rec, (unsigned long long)main_ctx.sig);
      fflush(ftr);
    }
    prog->done++;
  }
  struct itimerval off = { { 0, 0 }, { 0, 0 } };
  setitimer(ITIMER_PROF, &off, NULL);
  if (fhash) fclose(fhash);
  write_stats("ok");
  fprintf(out, "DONE cases=%llu\n", (unsigned long long)cases_run);
  fflush(out);
  rm_tmpdir();
  _exit(0);
}
#endif
