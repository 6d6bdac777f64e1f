/* C14 boxed numbers, C15 environments and closures */
#include "hx.h"
#include <inttypes.h>
#include <sys/wait.h>
#include "cee.h"
#include "drv.h"

static uint64_t gen_bits(void) {
  switch (rnd(10)) {
    case 8: { float f = chance(50) ? (float)rndr(-3000000, 3000000) / (float)rndr(1, 40) : (float)rndr(-1, 1) * (1u << rnd(32)); if (chance(30)) f = -f; uint32_t w; memcpy(&w, &f, 4); return w; }
    case 9: { double d = chance(50) ? (double)rndr(-3000000, 3000000) : (double)rndr(-1, 1) * (double)(1ull << rnd(64)); if (chance(30)) d = -d; uint64_t u; memcpy(&u, &d, 8); return u; }
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << rnd(64);
    case 3: return (1ull << rnd(64)) - 1;
    case 4: { double d = (double)rndr(-100000, 100000) / (double)rndr(1, 1000); uint64_t u; memcpy(&u, &d, 8); return u; }
    case 5: { static const uint64_t sp[] = { 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0xfff8dead0000beefull,
        0x8000000000000000ull, 1, 0x000fffffffffffffull, 0x7fefffffffffffffull, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0x80000000, 0x00000001, 0x7f7fffff,
        0x7fffffffffffffffull, 0x8000, 0x7fff, 0x80, 0x7f, 0x7fffffff, 0xffffffff };
      return sp[rnd(sizeof sp / sizeof *sp)]; }
    case 6: return rnd(1000) - (chance(50) ? 500 : 0);
    default: return rnd64();
  }
}
struct bx { int t; struct cee_boxed *b; uint64_t bits; };
static const char *tn[10] = { "double", "float", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8" };
static uint64_t bx_read(struct cee_boxed *b, int t) {
  uint64_t u = 0;
  switch (t) {
    case 0: { double d = cee_boxed_to_double(b); memcpy(&u, &d, 8); break; }
    case 1: { float d = cee_boxed_to_float(b); memcpy(&u, &d, 4); break; }
    case 2: u = cee_boxed_to_u64(b); break;
    case 3: u = cee_boxed_to_u32(b); break;
    case 4: u = cee_boxed_to_u16(b); break;
    case 5: u = cee_boxed_to_u8(b); break;
    case 6: u = (uint64_t)cee_boxed_to_i64(b); break;
    case 7: u = (uint64_t)(int64_t)cee_boxed_to_i32(b); break;
    case 8: u = (uint64_t)(int64_t)cee_boxed_to_i16(b); break;
    default: u = (uint64_t)(int64_t)cee_boxed_to_i8(b); break;
  }
  return u;
}
static struct cee_boxed *bx_mk(struct cee_state *st, int t, uint64_t bits, uint64_t *canon) {
  switch (t) {
    case 0: { double d; memcpy(&d, &bits, 8); *canon = bits; return L(cee_boxed_from_double(st, d)); }
    case 1: { float d; uint32_t w = (uint32_t)bits; memcpy(&d, &w, 4); *canon = w; return L(cee_boxed_from_float(st, d)); }
    case 2: *canon = bits; return L(cee_boxed_from_u64(st, bits));
    case 3: *canon = (uint32_t)bits; return L(cee_boxed_from_u32(st, (uint32_t)bits));
    case 4: *canon = (uint16_t)bits; return L(cee_boxed_from_u16(st, (uint16_t)bits));
    case 5: *canon = (uint8_t)bits; return L(cee_boxed_from_u8(st, (uint8_t)bits));
    case 6: *canon = bits; return L(cee_boxed_from_i64(st, (int64_t)bits));
    case 7: *canon = (uint64_t)(int64_t)(int32_t)bits; return L(cee_boxed_from_i32(st, (int32_t)bits));
    case 8: *canon = (uint64_t)(int64_t)(int16_t)bits; return L(cee_boxed_from_i16(st, (int16_t)bits));
    default: *canon = (uint64_t)(int64_t)(int8_t)bits; return L(cee_boxed_from_i8(st, (int8_t)bits));
  }
}
struct mist { struct cee_boxed *b; int as; };
static void mistyped(void *a) { struct mist *m = a; volatile uint64_t u = bx_read(m->b, m->as); (void)u; }

static void bx_print(struct bx *x) {
  char want[400]; int exact = 1; double dv = 0;
  switch (x->t) {
    case 0: memcpy(&dv, &x->bits, 8); exact = 0; break;
    case 1: { float f; memcpy(&f, &x->bits, 4); dv = f; exact = 0; break; }
    case 2: case 3: case 4: case 5: sprintf(want, "%" PRIu64, x->bits); break;
    default: sprintf(want, "%" PRId64, (int64_t)x->bits); break;
  }
  char big[512]; memset(big, 'q', sizeof big);
  size_t n = L(cee_boxed_snprint(big, sizeof big, x->b));
  CK(n < sizeof big && strlen(big) == n, "printing a boxed %s reports %zu bytes but wrote %zu", tn[x->t], n, strnlen(big, sizeof big));
  if (exact) CK(!strcmp(big, want), "boxed %s prints as %s, expected %s", tn[x->t], big, want);
  else {
    char *e; double r = strtod(big, &e);
    CK(*e == 0, "boxed %s prints as %s, which is not a number", tn[x->t], big);
    if (isnan(dv)) CK(isnan(r), "boxed %s NaN prints as %s", tn[x->t], big);
    else if (isinf(dv) || dv == 0) CK(r == dv && !signbit(r) == !signbit(dv), "boxed %s %g prints as %s", tn[x->t], dv, big);
    else CK(fabs(r - dv) <= fabs(dv) * 1e-5 + 5e-324 || (isinf(r) && fabs(dv) > 1.797e308), "boxed %s %.17g prints as %s", tn[x->t], dv, big);
  }
  OBS(big, n);
  for (int k = 0; k < 2; k++) {
    size_t sz = k == 0 ? rnd(n + 3) : chance(30) ? 0 : chance(30) ? n : n + 1;
    char *b = malloc(sz ? sz : 1);     /* exactly sz bytes */
    memset(b, 'w', sz ? sz : 1);
    size_t m = L(cee_boxed_snprint(sz ? b : NULL, sz, x->b));
    CK(m == n, "printing a boxed %s into %zu bytes reports %zu, expected %zu", tn[x->t], sz, m, n);
    if (sz) {
      size_t l = sz - 1 < n ? sz - 1 : n;
      CK(!memcmp(b, big, l) && b[l] == 0, "printing a boxed %s into %zu bytes wrote a wrong text", tn[x->t], sz);
    }
    if (sz <= n) COUNT("truncated prints");
    free(b);
  }
}
void d_c14(void) {
  struct cee_state *st = L(cee_state_mk(4));
  enum { NB = 40 };
  struct bx v[NB]; int n = (int)rndr(5, NB);
  for (int i = 0; i < n; i++) {
    v[i].t = (int)rnd(10);
    uint64_t bits = gen_bits();
    v[i].b = bx_mk(st, v[i].t, bits, &v[i].bits);
    OP("box %s bits=%llx", tn[v[i].t], (unsigned long long)v[i].bits);
    uint64_t r = L(bx_read(v[i].b, v[i].t));
    CK(r == v[i].bits, "boxed %s made from %016llx reads back as %016llx", tn[v[i].t], (unsigned long long)v[i].bits, (unsigned long long)r);
    bx_print(&v[i]);
    COUNT("values boxed");
  }
  for (int i = 0; i < n; i++) {
    uint64_t r = L(bx_read(v[i].b, v[i].t));
    CK(r == v[i].bits, "boxed %s of %016llx reads as %016llx after other values were made", tn[v[i].t], (unsigned long long)v[i].bits, (unsigned long long)r);
    OB(r);
  }
  hx->nontrivial = 1;
  int forks = hx->casenr % 4 == 0 && !hx_transcript ? 4 : 0;
  for (int q = 0; q < forks; q++) {
    struct bx *x = &v[rnd(n)];
    struct mist m = { x->b, (int)rnd(10) };
    int same = m.as == x->t;
    OP("read %s as %s in a child process", tn[x->t], tn[m.as]);
    int s = hx_fork(mistyped, &m);
    int stopped = WIFSIGNALED(s) || (WIFEXITED(s) && WEXITSTATUS(s) != 0);
    if (same) CK(!stopped, "reading a boxed %s as %s stopped the program", tn[x->t], tn[m.as]);
    else CK(stopped, "reading a boxed %s as %s did not stop the program", tn[x->t], tn[m.as]);
    if (!same) COUNT("mistyped reads stopped");
  }
  LV(cee_del(st));
}

/* ---------- C15 */
static int cmp15(const void *a, const void *b) { return strcmp(a, b); }
struct sc { struct cee_env *e; struct cee_map *m; int outer; int pol[2]; size_t n; int key[40]; void *val[40]; };
struct rec { int calls; struct cee_state *st; struct cee_env *env; size_t n; uint64_t a[304]; double d; };
static __thread struct rec *g_rec;
static char tok_[3];
#define ret_tok(i) ((void *)&tok_[i])
/* the argument count selects how the arguments are read */
static void *fun0(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  struct rec *r = g_rec; r->calls++; r->st = s; r->env = e; r->n = n;
  for (size_t i = 0; i < n && i < 304; i++) r->a[i] = (uint64_t)(uintptr_t)va_arg(ap, void *);
  return ret_tok(0);
}
static void *fun1(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  struct rec *r = g_rec; r->calls++; r->st = s; r->env = e; r->n = n;
  if (n >= 1) r->a[0] = (uint64_t)(int64_t)va_arg(ap, int);
  if (n >= 2) r->d = va_arg(ap, double);
  if (n >= 3) r->a[2] = va_arg(ap, uint64_t);
  if (n >= 4) r->a[3] = (uint64_t)(uintptr_t)va_arg(ap, char *);
  return NULL;
}
static void *fun3(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  struct rec *r = g_rec; r->calls++; r->st = s; r->env = e; r->n = n;
  return va_arg(ap, void *);
}
static __thread struct cee_closure *g_nest;
static void *fun2(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  struct rec *r = g_rec;
  void *v = n ? va_arg(ap, void *) : NULL;
  struct rec inner; memset(&inner, 0, sizeof inner);
  g_rec = &inner;
  void *q = cee_closure_call(s, g_nest, 2, v, (void *)e);
  g_rec = r;
  r->calls++; r->st = s; r->env = e; r->n = n; r->a[0] = (uint64_t)(uintptr_t)v;
  r->a[1] = inner.calls == 1 && inner.n == 2 && inner.a[0] == (uint64_t)(uintptr_t)v && inner.a[1] == (uint64_t)(uintptr_t)e && q == ret_tok(0);
  return v;
}
/* twelve different names: short, long, prefixes of each other, or like formats */
static void name15(char *b, int k, int style) {
  static const int len[] = { 15, 31, 63, 127, 255, 380 };
  static const char *const odd[] = { "%s", "%d%s", "%", "%%", "V0", "v0", "v00", "v0 ", " v0", "\xc3\xa9", "\xc3\xa8", "\xff" };
  if (style == 0) sprintf(b, "v%d", k);
  else if (style == 1) { int n = len[k / 2]; memset(b, 'n', n); b[n] = 'a' + k % 2; b[n + 1] = 0; }
  else if (style == 2) { memset(b, 'p', k); b[k] = 0; }
  else strcpy(b, odd[k]);
}
void d_c15(void) {
  struct cee_state *st = L(cee_state_mk(8));
  enum { NS = 400, NK = 12 };
    int chain = chance(2), maxs = chain ? 100 + (int)rnd(NS - 100) : 14;      /* now and then a very deep chain of scopes */
  struct sc *s = calloc(maxs, sizeof *s); int n = 0;
  void *vals[16];
  for (int i = 0; i < 16; i++) vals[i] = L(cee_boxed_from_i32(st, i));
  int style = chance(70) ? 0 : 1 + (int)rnd(3); if (style) COUNT("unusual names");
  int steps = (int)rndr(15, 80) + (chain ? 2 * maxs : 0);
  for (int step = 0; step < steps; step++) {
    int op = (int)rnd(10);
    if (n == 0 || (n < maxs && op < (chain ? 6 : 2))) {
      struct sc *x = &s[n];
      x->outer = n && chance(chain ? 99 : 85) ? (chance(chain ? 97 : 60) ? n - 1 : (int)rnd(n)) : -1;
      int novars = chance(chain ? 60 : 12);
      int own = chance(70);
      x->m = novars ? NULL : own ? L(cee_map_mk(st, cmp15)) : n && s[n - 1].m ? s[n - 1].m : L(cee_map_mk(st, cmp15));
      if (!own && n && x->m == s[n - 1].m && x->m) { x->n = s[n - 1].n; memcpy(x->key, s[n - 1].key, sizeof x->key); memcpy(x->val, s[n - 1].val, sizeof x->val); }
      int pol = (int)rnd(3);
      OP("env %d outer=%d vars=%d shared=%d pol=%d", n, x->outer, !!x->m, !own, pol);
      struct cee_env *o = x->outer >= 0 ? s[x->outer].e : NULL;
      enum cee_del_policy dp[2] = { CEE_DP_DEL_RC, CEE_DP_DEL_RC }, np[2] = { CEE_DP_NOOP, CEE_DP_NOOP };
      x->e = pol == 0 ? L(cee_env_mk(st, o, x->m)) : L(cee_env_mk_e(st, pol == 1 ? dp : np, o, x->m));
      CK(x->e->outer == o && x->e->vars == x->m, "a new environment does not hold what it was made with");
      n++;
      if (x->outer >= 0) hx->nontrivial = 1;
    } else if (op < 5) {
      int i = (int)rnd(n), k = (int)rnd(NK);
      if (!s[i].m) continue;
      void *v = vals[rnd(16)];
      char kb[400]; name15(kb, k, style);
      OP("bind %s in %d", kb, i);
      LV(cee_map_add(s[i].m, L(cee_str_mk(st, "%s", kb)), v));
      for (int q = 0; q < n; q++) if (s[q].m == s[i].m) {     /* scopes may share their variables */
        size_t j;
        for (j = 0; j < s[q].n; j++) if (s[q].key[j] == k) break;
        s[q].key[j] = k; s[q].val[j] = v; if (j == s[q].n) s[q].n++;
      }
    } else if (op < 6) {
      int i = (int)rnd(n);
      if (!s[i].n) continue;
      int k = s[i].key[rnd(s[i].n)];
      char kb[400]; name15(kb, k, style);
      OP("unbind %s in %d", kb, i);
      LV(cee_map_remove(s[i].m, kb));
      for (int q = 0; q < n; q++) if (s[q].m == s[i].m) {
        size_t j;
        for (j = 0; j < s[q].n; j++) if (s[q].key[j] == k) { s[q].n--; s[q].key[j] = s[q].key[s[q].n]; s[q].val[j] = s[q].val[s[q].n]; break; }
      }
    } else if (op < 8) {
      /* every name from a scope */
      int i = (int)rnd(n);
      OP("lookups from %d", i);
      for (int k = 0; k < NK; k++) {
        char kb[400]; name15(kb, k, style);
        void *want = NULL; int depth = 0;
        for (int q = i; q >= 0 && !want; q = s[q].outer, depth++)
          for (size_t j = 0; j < s[q].n; j++) if (s[q].key[j] == k) want = s[q].val[j];
        void *got = L(cee_env_find(s[i].e, kb));
        CK(got == want, "looking up %s from scope %d found %s", kb, i, !got ? "nothing" : want ? "another scope's binding" : "a binding that does not exist");
        COUNT("names looked up"); if (want && depth > 1) COUNT("names found in an outer scope");
        COUNTMAX("scopes walked", depth);
        OB(want ? (uint64_t)cee_boxed_to_i32(want) + 1 : 0);
      }
      CK(L(cee_env_find(NULL, (char *)"v1")) == NULL, "a missing environment defines a name");
    } else {
      int i = (int)rnd(n + 1), which = (int)rnd(3);
      struct cee_env *e = i < n ? s[i].e : NULL;
      struct rec r; memset(&r, 0, sizeof r); g_rec = &r;
      struct cee_state *pass = chance(80) ? st : NULL;
      OP("call fun%d env=%d", which, i);
      struct cee_closure *c = L(cee_closure_mk(st, e, which == 0 ? (void *)fun0 : which == 1 ? (void *)fun1 : (void *)fun2));
      CK(c->env == e, "a new closure does not hold its environment");
      if (which == 0) {
        size_t na = chance(20) ? rnd(41) : chance(10) ? 41 + rnd(260) : rnd(11); void *a[300];
        for (int q = 0; q < (na > 40 ? 300 : 40); q++) a[q] = (void *)(uintptr_t)rnd64();
        void *rv = NULL;
        switch (na) {
          case 0: rv = L(cee_closure_call(pass, c, 0)); break;
          case 1: rv = L(cee_closure_call(pass, c, 1, a[0])); break;
          case 2: rv = L(cee_closure_call(pass, c, 2, a[0], a[1])); break;
          case 3: rv = L(cee_closure_call(pass, c, 3, a[0], a[1], a[2])); break;
          case 4: rv = L(cee_closure_call(pass, c, 4, a[0], a[1], a[2], a[3])); break;
          default:
#define T10(o) a[o], a[o + 1], a[o + 2], a[o + 3], a[o + 4], a[o + 5], a[o + 6], a[o + 7], a[o + 8], a[o + 9]
            rv = na <= 10 ? L(cee_closure_call(pass, c, na, T10(0))) : na <= 40 ? L(cee_closure_call(pass, c, na, T10(0), T10(10), T10(20), T10(30)))
#define T100(o) T10(o), T10(o + 10), T10(o + 20), T10(o + 30), T10(o + 40), T10(o + 50), T10(o + 60), T10(o + 70), T10(o + 80), T10(o + 90)
              : L(cee_closure_call(pass, c, na, T100(0), T100(100), T100(200)));
            if (na > 255) COUNT("calls with more than 255 arguments");
            if (na > 10) COUNT("calls with more than 10 arguments");
            break;
        }
        CK(rv == ret_tok(0), "cee_closure_call did not return the function's result");
        for (size_t q = 0; q < na; q++) CK(r.a[q] == (uint64_t)(uintptr_t)a[q], "argument %zu of %zu arrived wrong", q, na);
        CK(r.n == na, "the function saw %zu arguments, expected %zu", r.n, na);
      } else if (which == 1) {
        int a0 = (int)rnd64(); double a1 = (double)rndr(-1000, 1000) / 3; uint64_t a2 = rnd64(); char *a3 = "text";
        void *rv = L(cee_closure_call(pass, c, 4, a0, a1, a2, a3));
        CK(rv == NULL && (int)r.a[0] == a0 && r.d == a1 && r.a[2] == a2 && r.a[3] == (uint64_t)(uintptr_t)a3 && r.n == 4, "mixed arguments arrived wrong");
      } else if (chance(20)) {
        /* the count is the caller's, whatever the function makes of it */
        size_t na = (size_t)rnd64() >> rnd(64);
        struct cee_closure *c3 = L(cee_closure_mk(st, e, (void *)fun3));
        void *rv = L(cee_closure_call(pass, c3, na, ret_tok(1)));
        CK(rv == ret_tok(1) && r.n == na, "the function saw a count of %zu, expected %zu", r.n, na);
      } else {
        g_nest = L(cee_closure_mk(st, chance(50) ? e : NULL, (void *)fun0));
        void *rv = L(cee_closure_call(pass, c, 1, (void *)&r));
        CK(rv == &r && r.a[1], "a call made from within a closure went wrong");
      }
      CK(r.calls == 1, "the function ran %d times", r.calls);
      CK(r.st == pass, "the function saw another state");
      CK(r.env == e, "the function saw another environment");
      COUNT("closure calls");
    }
  }
  free(s);
  LV(cee_del(st));
}
