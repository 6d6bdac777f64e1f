/* C06 strings, C07 trimming and substring replacement */
#include "hx.h"
#include "cee.h"
#include "drv.h"

/* ---------- C06 */
#define MAXS 8
#define MAXLEN (1 << 18)
struct sm { struct cee_str *p; char *m; size_t len; int embedded; int realloc_mode; };

static void gen_text(char *b, size_t n, int kind) {
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: b[i] = 'a' + (int)(i % 26); break;
      case 1: b[i] = (char)rndr(1, 255); break;
      case 2: b[i] = "%sdn %%x\\\"\n"[rnd(11)]; break;
      default: b[i] = (char)rndr(32, 126); break;
    }
  }
  b[n] = 0;
}
static size_t gen_len(void) {
  if (rnd(500) == 0) return chance(50) ? 65536 - rnd(90) : (size_t)rndr(30000, 100000);
  switch (rnd(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: { int64_t k = 64 * rndr(1, 6) - 80 + rndr(-70, 12); return k < 0 ? 0 : (size_t)k; }
    case 5: case 6: { int64_t k = 64 * rndr(1, 10) - rndr(0, 3); return (size_t)k; }
    case 7: return rnd(300);
    case 8: return rnd(40);
    case 9: return (size_t)(1u << rndr(7, 12)) - rnd(90);
    case 10: return rnd(2500);
    default: return rnd(8);
  }
}
/* one format call, made both to the library and to the C library */
struct fa { int k; char *s1, *s2; long long i1; unsigned long long u1; double d1; int c1, w, pr; };
static void gen_fa(struct fa *a) {
  a->k = (int)rnd(16);
  size_t n1 = gen_len(), n2 = rnd(20);
  a->s1 = malloc(n1 + 1); gen_text(a->s1, n1, (int)rnd(4));
  a->s2 = malloc(n2 + 1); gen_text(a->s2, n2, 3);
  a->i1 = (long long)(chance(50) ? rnd64() : rnd(1000));
  a->u1 = rnd64();
  a->d1 = (double)rndr(-1000000, 1000000) / 7.0 * (chance(20) ? 1e200 : 1.0);
  a->c1 = (int)rndr(1, 126);
  a->w = (int)rnd(chance(20) ? 400 : 70); a->pr = (int)rnd(90);
}
static void free_fa(struct fa *a) { free(a->s1); free(a->s2); }
#define FA_CASES(R, CALL, ...) switch (a->k) { \
  case 0: case 1: case 2: case 3: R = CALL(__VA_ARGS__ "%s", a->s1); break; \
  case 4: R = CALL(__VA_ARGS__ "%s%s", a->s1, a->s2); break; \
  case 5: R = CALL(__VA_ARGS__ "%lld", a->i1); break; \
  case 6: R = CALL(__VA_ARGS__ "%d:%s:%llu:%s", (int)a->i1, a->s2, a->u1, a->s1); break; \
  case 7: R = CALL(__VA_ARGS__ "%f|%g|%e", a->d1, a->d1, a->d1); break; \
  case 8: R = CALL(__VA_ARGS__ "%c%c", a->c1, a->c1); break; \
  case 9: R = CALL(__VA_ARGS__ "%*d", a->w, (int)(a->i1 & 0xffff)); break; \
  case 10: R = CALL(__VA_ARGS__ "%.*s", a->pr, a->s1); break; \
  case 11: R = CALL(__VA_ARGS__ "100%%"); break; \
  case 12: R = CALL(__VA_ARGS__ "%s %d %d %d %d %d %d %d %s %f %d %f", a->s2, 1, 2, 3, 4, 5, 6, 7, a->s1, a->d1, 8, -a->d1); break; \
  case 13: R = CALL(__VA_ARGS__ "%x%o%X%hhu%zu", (unsigned)a->u1, (unsigned)a->u1, (unsigned)a->u1, (unsigned char)a->u1, (size_t)a->u1); break; \
  case 14: R = CALL(__VA_ARGS__ "%-*s|%*s", a->w, a->s2, a->w, a->s2); break; \
  default: R = CALL(__VA_ARGS__ ""); break; }
static int exp_len(struct fa *a, char *buf, size_t n) {
  int r;
#define SN(...) snprintf(buf, n, __VA_ARGS__)
  FA_CASES(r, SN)
  return r;
}
static __thread struct cee_state *g_st;
static struct cee_str *mkv_wrap(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  struct cee_str *r = L(cee_str_mkv(g_st, fmt, ap));
  va_end(ap);
  return r;
}

static void sm_check(struct sm *v, int n, const char *after) {
  for (int i = 0; i < n; i++) {
    char *p = (char *)v[i].p;
    if (v[i].embedded) {
      CK(memcmp(p, v[i].m, v[i].len) == 0 && p[v[i].len] == 0, "string %d (from strn, %zu bytes) changed after %s", i, v[i].len, after);
      continue;
    }
    size_t l = strlen(p);
    CK(l == v[i].len, "string %d has length %zu, expected %zu, after %s", i, l, v[i].len, after);
    CK(memcmp(p, v[i].m, l) == 0, "string %d of length %zu has wrong bytes after %s", i, l, after);
    OBS(p, l);
  }
}
static void sm_set(struct sm *s, struct cee_str *p, const char *m, size_t len) {
  s->p = p; free(s->m); s->m = malloc(len + 1); memcpy(s->m, m, len); s->m[len] = 0; s->len = len;
}
static __thread uint64_t live0;
/* a string that has moved: reallocation leaves no second copy, allocation leaves the old one readable */
static void grown(struct sm *s, struct cee_str *r, const char *how) {
  if (r == s->p) return;
  if (!s->realloc_mode) { CK(strcmp((char *)s->p, s->m) == 0, "growing by %s with a new block changes the text read through the old handle", how); COUNT("old handles read"); }
  else if (hx_track && !hx_warm) { CK(hx_live_blocks() == live0, "growing by %s with reallocation leaves %lld more blocks", how, (long long)(hx_live_blocks() - live0)); COUNT("reallocations without a copy"); }
}
void d_c06(void) {
  struct cee_state *st = g_st = L(cee_state_mk(16));
  char *buf = malloc(2 * MAXLEN + 16);
  struct sm v[MAXS]; int n = 0;
  memset(v, 0, sizeof v);
  int steps = (int)rndr(4, hx_thorough ? 60 : 30);
  for (int step = 0; step < steps; step++) {
    struct fa fa, *a = &fa;
    int op = (int)rnd(n == 0 ? 4 : 14);
    char desc[160];
    if (op < 4) {      /* make */
      int slot = n < MAXS ? n : (int)rnd(MAXS);
      struct sm ns; memset(&ns, 0, sizeof ns);
      if (op == 0 || op == 1) {
        gen_fa(a);
        struct cee_str *r;
        int el = exp_len(a, buf, MAXLEN);
        OP("%s kind=%d len=%d", op ? "mkv" : "mk", a->k, el);
#define MK(...) L(cee_str_mk(st, __VA_ARGS__))
        if (op == 0) { FA_CASES(r, MK) } else { FA_CASES(r, mkv_wrap) }
        sm_set(&ns, r, buf, el);
        free_fa(a);
        COUNT("strings made by format");
      } else if (op == 2) {
        gen_fa(a);
        size_t want = gen_len();
        struct cee_str *r;
        int el = exp_len(a, buf, MAXLEN);
        int nofmt = chance(30);
        OP("mk_e n=%zu kind=%d len=%d nofmt=%d", want, a->k, el, nofmt);
        if (nofmt) { r = L(cee_str_mk_e(st, want, NULL)); buf[0] = 0; el = 0; }
        else {
#define MKE(...) L(cee_str_mk_e(st, want, __VA_ARGS__))
          FA_CASES(r, MKE)
        }
        CK(strlen((char *)r) == (size_t)el && memcmp(r, buf, el) == 0, "cee_str_mk_e(%zu) did not hold the formatted text", want);
        sm_set(&ns, r, buf, el);
        if (want && chance(60)) {       /* all n bytes are usable */
          memset(r, 'z', want); ((char *)r)[want - 1] = 0;
          memset(buf, 'z', want); buf[want - 1] = 0;
          sm_set(&ns, r, buf, want - 1);
          COUNT("buffers of n bytes filled to the end");
        }
        free_fa(a);
      } else {
        size_t l = gen_len();
        char *src = malloc(l ? l : 1);
        int bin = chance(30);
        for (size_t i = 0; i < l; i++) src[i] = bin ? (char)rnd(256) : (char)rndr(33, 126);
        OP("strn len=%zu bin=%d", l, bin);
        char *ex = hx_dup(src, l);
        ns.p = L(cee_str_strn(st, ex, l));
        free(ex);
        sm_set(&ns, ns.p, src, l);
        ns.embedded = memchr(src, 0, l) != NULL;
        free(src);
        COUNT("strings made from counted bytes");
      }
      if (slot == n) n++;
      else free(v[slot].m);
      v[slot] = ns;
      sm_check(v, n, "making a string");
      continue;
    }
    int i = (int)rnd(n);
    struct sm *s = &v[i];
    if (s->embedded) continue;
    if (s->len > 120000) continue;
    if (op == 4) {
      int k = (int)rndr(1, 90);
      OP("add %d chars to #%d (len %zu)", k, i, s->len);
      for (int j = 0; j < k; j++) {
        char c = chance(3) ? 0 : (char)rndr(1, 255);
        live0 = hx_live_blocks();
        struct cee_str *r = L(cee_str_add(s->p, c));
        CK(r != NULL, "cee_str_add returned NULL");
        memcpy(buf, s->m, s->len); buf[s->len] = c;
        size_t nl = s->len + (c ? 1 : 0);
        if (r != s->p) { COUNT("growths by add"); hx->nontrivial = 1; } grown(s, r, "add");
        sm_set(s, r, buf, nl);
        CK(strlen((char *)r) == nl && memcmp(r, s->m, nl) == 0, "cee_str_add at length %zu: wrong text", nl);
      }
      snprintf(desc, sizeof desc, "cee_str_add");
    } else if (op <= 8) {
      gen_fa(a);
      int el = exp_len(a, buf + MAXLEN, MAXLEN);
      OP("catf #%d (len %zu) kind=%d len=%d mode=%d", i, s->len, a->k, el, s->realloc_mode);
      struct cee_str *r; live0 = hx_live_blocks();
#define CAT(...) L(cee_str_catf(s->p, __VA_ARGS__))
      if (chance(3)) { char *nf = NULL; r = L(cee_str_catf(s->p, nf)); el = 0; CK(r == s->p, "cee_str_catf(NULL format) changed the handle"); }
      else { FA_CASES(r, CAT) }
      if (r != s->p) { COUNT("growths by catf"); hx->nontrivial = 1; } grown(s, r, "catf");
      memcpy(buf, s->m, s->len);
      memmove(buf + s->len, buf + MAXLEN, el);
      snprintf(desc, sizeof desc, "cee_str_catf of %d bytes to %zu bytes", el, s->len);
      sm_set(s, r, buf, s->len + el);
      free_fa(a);
    } else if (op <= 11) {
      gen_fa(a);
      int el = exp_len(a, buf, MAXLEN);
      OP("replace #%d (len %zu) kind=%d len=%d mode=%d", i, s->len, a->k, el, s->realloc_mode);
      struct cee_str *r; live0 = hx_live_blocks();
#define REP(...) L(cee_str_replace(s->p, __VA_ARGS__))
      if (chance(3)) { char *nf = NULL; r = L(cee_str_replace(s->p, nf)); CK(r == s->p, "cee_str_replace(NULL format) changed the handle"); memcpy(buf, s->m, s->len); el = (int)s->len; }
      else { FA_CASES(r, REP) }
      if (r != s->p) { COUNT("growths by replace"); hx->nontrivial = 1; } grown(s, r, "replace");
      snprintf(desc, sizeof desc, "cee_str_replace of %zu bytes by %d bytes", s->len, el);
      sm_set(s, r, buf, el);
      free_fa(a);
    } else if (op == 12) {
      s->realloc_mode = !s->realloc_mode;
      OP("mode #%d %s", i, s->realloc_mode ? "realloc" : "malloc");
      if (s->realloc_mode) LV(cee_use_realloc(s->p)); else LV(cee_use_malloc(s->p));
      snprintf(desc, sizeof desc, "changing the growth mode");
    } else {
      OP("end #%d", i);
      char *e = L(cee_str_end(s->p));
      CK(e == (char *)s->p + s->len, "cee_str_end is off by %td at length %zu", e - ((char *)s->p + s->len), s->len);
      snprintf(desc, sizeof desc, "cee_str_end");
    }
    sm_check(v, n, desc);
    COUNT("edits verified");
  }
  for (int i = 0; i < n; i++) free(v[i].m);
  free(buf);
  LV(cee_del(st));
}

/* ---------- C07 */
static int is_ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static __thread int c07_big;      /* lengths beyond every 16-bit count */
static size_t big_len(void) { return 65500 + rnd(chance(50) ? 80 : 70000); }
static void c07_trim(struct cee_state *st) {
  size_t a = rnd(6), b = rnd(chance(10) ? 150 : 20), c = rnd(6);
  if (chance(2)) a = rnd(700);
  if (chance(2)) b = rnd(9000);
  if (chance(2)) c = rnd(700);
  if (chance(15)) b = 0;
  if (c07_big) { a = chance(50) ? big_len() : a; b = chance(50) ? big_len() : b; c = chance(50) ? big_len() : c; COUNT("texts beyond 16-bit lengths"); }
  char *t = malloc(a + b + c + 1);
  size_t n = 0;
  for (size_t i = 0; i < a; i++) t[n++] = " \t\n\r"[rnd(4)];
  for (size_t i = 0; i < b; i++) t[n++] = chance(25) ? " \t\n\r"[rnd(4)] : chance(15) ? "\v\f\x01\x7f\x80\xa0\xff\\"[rnd(8)] : (char)rndr(33, 126);
  for (size_t i = 0; i < c; i++) t[n++] = " \t\n\r"[rnd(4)];
  t[n] = 0;
  int which = (int)rnd(3);
  OP("trim which=%d len=%zu text=%.60s", which, n, t);
  struct cee_str *s = L(cee_str_mk(st, "%s", t));
  struct cee_str *other = L(cee_str_mk(st, "%s", t));
  size_t lo = 0, hi = n;
  if (which != 1) while (lo < hi && is_ws(t[lo])) lo++;
  if (which != 0) while (hi > lo && is_ws(t[hi - 1])) hi--;
  int rfirst = chance(50);
  if (which != 0 && rfirst) LV(cee_str_rtrim(s));
  if (which != 1) LV(cee_str_ltrim(s));
  if (which != 0 && !rfirst) LV(cee_str_rtrim(s));
  CK(strlen((char *)s) == hi - lo && memcmp(s, t + lo, hi - lo) == 0, "%s of a text of length %zu gave %zu bytes instead of %zu",
     which == 0 ? "ltrim" : which == 1 ? "rtrim" : "ltrim+rtrim", n, strlen((char *)s), hi - lo);
  CK(strcmp((char *)other, t) == 0, "trimming changed another string");
  OBZ((char *)s);
  if (hi - lo != n) hx->nontrivial = 1;
  COUNT("trims");
  free(t);
}
static void gen_small(char *b, size_t n, int alpha) {
  for (size_t i = 0; i < n; i++) b[i] = alpha > 4 ? (char)rndr(1, 255) : "abcd"[rnd(alpha)];
  b[n] = 0;
}
static void c07_offset(void) {
  size_t n = rnd(chance(4) ? 9000 : 60), off = rnd(n + 1), len = rnd(n - off + 1), k = rnd(chance(2) ? 9000 : chance(20) ? 100 : 12);
  if (c07_big) { n = big_len(); off = chance(50) ? n - rnd(30) : rnd(n + 1); len = chance(30) ? n - off : rnd(n - off + 1); if (chance(50)) k = big_len(); COUNT("texts beyond 16-bit lengths"); }
  if (chance(20)) off = n, len = 0;
  if (chance(20)) off = 0, len = n;
  char *t = malloc(n + 1), *r = malloc(k + 1);
  gen_small(t, n, 26); gen_small(r, k, 26);
  OP("replace_at_offset n=%zu off=%zu len=%zu k=%zu", n, off, len, k);
  char *o = str_replace_at_offset(t, off, len, r);
  CK(strlen(o) == n - len + k && !memcmp(o, t, off) && !memcmp(o + off, r, k) && !strcmp(o + off + k, t + off + len),
     "str_replace_at_offset(len %zu, offset %zu, %zu bytes by %zu) gave a wrong text", n, off, len, k);
  OBZ(o);
  hx->nontrivial = 1;
  COUNT("replacements at an offset");
  free(o); free(t); free(r);
}
static void c07_all(void) {
  int alpha = (int)rndr(1, 5);
  size_t n = rnd(chance(5) ? 20000 : 80), on = rndr(1, chance(2) ? 600 : chance(20) ? 12 : 3), nn = rnd(chance(2) ? 400 : chance(20) ? 30 : 5);
  if (on > 12 && chance(50)) n += 3000;
  if (c07_big) {
    COUNT("texts beyond 16-bit lengths");
    if (chance(50)) { nn = big_len(); n = rnd(20); alpha = (int)rndr(2, 5); }        /* a long replacement */
    else { n = 2 * big_len(); nn = rnd(5); if (chance(50)) { on = big_len(); n += on; } }  /* a long text, a long needle */
  }
  char *t = malloc(n + 1), *a = malloc(on + 1), *b = malloc(nn + 1);
  gen_small(t, n, alpha); gen_small(a, on, alpha); gen_small(b, nn, chance(50) ? alpha : 5);
  if (n >= on && chance(60)) { size_t at = rnd(n - on + 1); memcpy(a, t + at, on); }
  if (n >= on && chance(30)) memcpy(t + n - on, a, on);
  char *ex = malloc(n * (nn + 1) + nn + 1); size_t m = 0, hits = 0;
  for (size_t i = 0; i < n;) if (i + on <= n && !memcmp(t + i, a, on)) { memcpy(ex + m, b, nn); m += nn; i += on; hits++; } else ex[m++] = t[i++];
  ex[m] = 0;
  OP("replace_all n=%zu old=%zu new=%zu alpha=%d hits=%zu", n, on, nn, alpha, hits);
  char *o = str_replace_all(t, a, b);
  CK(strlen(o) == m && !memcmp(o, ex, m), "str_replace_all(text of %zu, needle of %zu, replacement of %zu) gave %zu bytes, expected %zu", n, on, nn, strlen(o), m);
  OBZ(o);
  if (hits) hx->nontrivial = 1;
  COUNTN("occurrences replaced (single pair)", hits);
  free(o); free(ex); free(t); free(a); free(b);
}
#define NPMAX 24
static void c07_ext(void) {
  int np = chance(25) ? (int)rndr(14, NPMAX) : (int)rnd(6), alpha = (int)rndr(1, 5);
  size_t n = rnd(chance(4) ? 20000 : 90);
  if (chance(5)) n = 0;
  int big = c07_big ? 1 + (int)rnd(3) : 0, bi = (int)rnd(np ? np : 1);
  if (big) { COUNT("texts beyond 16-bit lengths"); n = big == 1 ? 1 + rnd(20) : 2 * big_len(); if (big == 3) n += 70000; }
  char *t0 = malloc(n + 1);
  gen_small(t0, n, alpha);
  if (chance(15)) for (size_t i = 0; i < n; i++) if (chance(10)) t0[i] = 0;
  char *nd[NPMAX], *rp[NPMAX]; size_t nl[NPMAX], rl[NPMAX];
  size_t maxr = 1;
  for (int i = 0; i < NPMAX; i++) {
    nl[i] = chance(3) ? (size_t)rndr(900, 1400) : (size_t)rndr(1, chance(20) ? 10 : 4);
    rl[i] = rnd(chance(15) ? 40 : 5);
    if (big == 1 && i == bi) rl[i] = big_len(); else if (big == 3 && i == bi) nl[i] = big_len();
    nd[i] = malloc(nl[i] + 1); rp[i] = malloc(rl[i] + 1);
    gen_small(nd[i], nl[i], alpha); gen_small(rp[i], rl[i], chance(50) ? alpha : 5);
    if (i && i < np && chance(25)) {    /* needles sharing a prefix: the first listed wins */
      size_t k = nl[i] < nl[i - 1] ? nl[i] : nl[i - 1];
      memcpy(nd[i], nd[i - 1], k);
    }
    if (n > nl[i] && chance(30)) { size_t at = rnd(n - nl[i] + 1); if (!memchr(t0 + at, 0, nl[i])) memcpy(nd[i], t0 + at, nl[i]); }
    if (n >= nl[i] && chance(10)) memcpy(t0 + n - nl[i], nd[i], nl[i]);
    if (n >= nl[i] && nl[i] > 1 && chance(15)) { size_t k = nl[i] - 1; memcpy(t0 + n - k, nd[i], k); }   /* a needle cut off by the end */
    if (i < np && rl[i] > maxr) maxr = rl[i];
  }
  char *ex = malloc(n * (maxr + 1) + maxr + 1); size_t m = 0, hits = 0;
  for (size_t i = 0; i < n;) {
    int x;
    for (x = 0; x < np; x++) if (i + nl[x] <= n && !memcmp(t0 + i, nd[x], nl[x])) break;
    if (x < np) { memcpy(ex + m, rp[x], rl[x]); m += rl[x]; i += nl[x]; hits++; } else ex[m++] = t0[i++];
  }
  char *t = hx_dup(t0, n);       /* exactly n bytes, not terminated */
  size_t osz = 0x5a5a, *osp = chance(85) ? &osz : NULL;
  OP("replace_all_ext n=%zu pairs=%d alpha=%d hits=%zu size_wanted=%d", n, np, alpha, hits, osp != NULL);
  char *o = str_replace_all_ext(t, n, osp, np,
     nd[0], rp[0], nd[1], rp[1], nd[2], rp[2], nd[3], rp[3], nd[4], rp[4], nd[5], rp[5], nd[6], rp[6], nd[7], rp[7],
     nd[8], rp[8], nd[9], rp[9], nd[10], rp[10], nd[11], rp[11], nd[12], rp[12], nd[13], rp[13], nd[14], rp[14], nd[15], rp[15],
     nd[16], rp[16], nd[17], rp[17], nd[18], rp[18], nd[19], rp[19], nd[20], rp[20], nd[21], rp[21], nd[22], rp[22], nd[23], rp[23]);
  if (osp) CK(osz == m, "str_replace_all_ext reported a length of %zu, expected %zu (%d pairs)", osz, m, np);
  CK(!memcmp(o, ex, m) && o[m] == 0, "str_replace_all_ext gave a wrong text (%d pairs, text of %zu)", np, n);
  OBS(o, m);
  if (hits) hx->nontrivial = 1;
  COUNTN("occurrences replaced (several pairs)", hits);
  if (np > 16) COUNT("calls with more than 16 pairs");
  free(o); free(t); free(t0); free(ex);
  for (int i = 0; i < NPMAX; i++) { free(nd[i]); free(rp[i]); }
}
void d_c07(void) {
  struct cee_state *st = L(cee_state_mk(4));
  int k = 12;
  while (k--) {
    c07_big = hx->casenr % 401 == 9 && k % 3 == 0;
    switch (rnd(6)) {
      case 0: case 1: c07_trim(st); break;
      case 2: c07_offset(); break;
      case 3: c07_all(); break;
      default: c07_ext(); break;
    }
  }
  LV(cee_del(st));
}
